//! Post-mortem of the exploring process. A call that kills the process (stack overflow, abort) is a
//! finding like any other, so the exploration runs in a child; which case each of its threads is
//! running is kept in memory shared with the parent.
use crate::case::Case;
use crate::engine::Space;
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::*};

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn alarm(s: u32) -> u32;
    fn _exit(c: i32) -> !;
}
const SLOTS: usize = 511;
static SHARED: AtomicPtr<AtomicU64> = AtomicPtr::new(std::ptr::null_mut());

fn slot(i: usize) -> Option<&'static AtomicU64> {
    let p = SHARED.load(Relaxed);
    if p.is_null() || i > SLOTS {
        return None;
    }
    Some(unsafe { &*p.add(i) })
}
fn set(i: usize, v: u64) {
    if let Some(s) = slot(i) {
        s.store(v, Release);
    }
}
pub fn enter_space(i: usize) {
    set(0, i as u64 + 1);
}
pub fn enter_case(thread: usize, i: u64) {
    set(thread + 1, i + 1);
}
pub fn leave_case(thread: usize) {
    set(thread + 1, 0);
}

/// in the child: returns None and the exploration goes on; in the parent: the way the child ended,
/// Ok(exit code) or Err(signal)
pub fn split() -> Option<Result<i32, i32>> {
    unsafe {
        let p = mmap(std::ptr::null_mut(), 8 * (SLOTS + 1), 3, 0x21, -1, 0); // shared, anonymous
        if p as isize == -1 {
            return None;
        }
        SHARED.store(p as *mut AtomicU64, Relaxed);
        match fork() {
            0 => {
                prctl(1, 9, 0, 0, 0); // end with the parent
                None
            }
            p if p > 0 => {
                let mut st = 0;
                waitpid(p, &mut st, 0);
                Some(if st & 0x7f == 0 { Ok(st >> 8 & 0xff) } else { Err(st & 0x7f) })
            }
            _ => None,
        }
    }
}
/// signals a broken program dies of; anything else (kill, memory) is not a verdict on the code
pub fn is_crash(sig: i32) -> bool {
    [4, 5, 6, 7, 8, 11].contains(&sig)
}
/// the cases that were running when the child died; first those that kill a process on their own
pub fn suspects(spaces: &[Space]) -> Option<(String, Case, bool)> {
    let sp = &spaces[slot(0)?.load(Acquire).checked_sub(1)? as usize];
    let mut all: Vec<u64> = (1..=SLOTS).filter_map(|i| slot(i)?.load(Acquire).checked_sub(1)).collect();
    all.sort();
    for i in &all {
        let c = (sp.gen)(*i);
        unsafe {
            let pid = fork();
            if pid == 0 {
                alarm(60);
                let r = std::thread::Builder::new().stack_size(crate::engine::STACK).spawn(move || drop(c.run()));
                let _ = r.map(|h| h.join());
                _exit(0);
            }
            let mut st = 0;
            if pid > 0 && waitpid(pid, &mut st, 0) == pid && is_crash(st & 0x7f) {
                return Some((sp.name.clone(), (sp.gen)(*i), true));
            }
        }
    }
    Some((sp.name.clone(), (sp.gen)(*all.first()?), false))
}
