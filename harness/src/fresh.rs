//! Answers of a fresh process. Before anything else happens, a few helper processes are forked off;
//! they never call into the crate themselves. Each request makes such a helper fork a child that
//! runs the given calls and sends back the exact answers, so nothing the harness has done before can
//! have influenced them.
use crate::engine::{viol, Fail};
use crate::history::Call;
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Mutex, OnceLock};

extern "C" {
    fn pipe(fd: *mut i32) -> i32;
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn _exit(c: i32) -> !;
}
struct Helper {
    tx: File,
    rx: File,
}
static POOL: OnceLock<Vec<Mutex<Helper>>> = OnceLock::new();
static NEXT: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static MINE: usize = NEXT.fetch_add(1, Relaxed);
}

fn two() -> Option<(i32, i32)> {
    let mut f = [0i32; 2];
    if unsafe { pipe(f.as_mut_ptr()) } != 0 {
        return None;
    }
    Some((f[0], f[1]))
}
/// must run before the first thread and the first call into the crate
pub fn start(n: usize) {
    crate::history::warm(); // reference only: inherited by every child
    let mut v = vec![];
    for _ in 0..n {
        let (Some((qr, qw)), Some((ar, aw))) = (two(), two()) else { break };
        match unsafe { fork() } {
            0 => unsafe {
                close(qw);
                close(ar);
                serve(File::from_raw_fd(qr), File::from_raw_fd(aw))
            },
            p if p > 0 => unsafe {
                close(qr);
                close(aw);
                v.push(Mutex::new(Helper { tx: File::from_raw_fd(qw), rx: File::from_raw_fd(ar) }));
            },
            _ => break,
        }
    }
    let _ = POOL.set(v);
}
pub fn available() -> bool {
    POOL.get().is_some_and(|p| !p.is_empty())
}

fn get(f: &mut File) -> Option<Vec<u8>> {
    let mut n = [0u8; 4];
    f.read_exact(&mut n).ok()?;
    let mut b = vec![0u8; u32::from_le_bytes(n) as usize];
    f.read_exact(&mut b).ok()?;
    Some(b)
}
fn put(f: &mut File, b: &[u8]) -> Option<()> {
    f.write_all(&(b.len() as u32).to_le_bytes()).ok()?;
    f.write_all(b).ok()
}
unsafe fn serve(mut rx: File, mut tx: File) -> ! {
    while let Some(q) = get(&mut rx) {
        let Some((r, w)) = two() else { _exit(1) };
        let pid = fork();
        if pid == 0 {
            close(r);
            let (same, calls): (bool, Vec<Call>) = match serde_json::from_slice(&q) {
                Ok(c) => c,
                Err(_) => _exit(3),
            };
            let mut desk = same.then(crate::history::Desk::new);
            let one = |c: &Call| match desk.as_mut() {
                Some(d) => c.exact_in(d),
                None => c.exact(),
            };
            let out: Vec<Vec<u8>> = calls.iter().map(one).collect();
            let out: Vec<String> = out.iter().map(|x| crate::util::hex(x)).collect();
            let ok = File::from_raw_fd(w).write_all(&serde_json::to_vec(&out).unwrap()).is_ok();
            _exit(if ok { 0 } else { 4 });
        }
        close(w);
        let mut b = vec![];
        let _ = File::from_raw_fd(r).read_to_end(&mut b);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if pid < 0 || st != 0 {
            let how = if pid > 0 && crate::guard::is_crash(st & 0x7f) { "died" } else { "was lost" };
            b = format!("{} with status {}", how, st).into_bytes();
        }
        if put(&mut tx, &b).is_none() {
            break;
        }
    }
    _exit(0)
}

/// the exact answers of these calls, made one after the other in a process of their own
pub fn ask(calls: &[Call]) -> Result<Vec<Vec<u8>>, Fail> {
    ask_in(calls, false)
}
/// likewise; `same`: every call takes its arguments from the same memory
pub fn ask_in(calls: &[Call], same: bool) -> Result<Vec<Vec<u8>>, Fail> {
    match ask1(calls, same) {
        Ok(v) => Ok(v),
        Err(e) if e.starts_with("died") => viol(format!("a process making these calls {}", e)),
        Err(e) => Err(Fail::Engine(e)),
    }
}
fn ask1(calls: &[Call], same: bool) -> Result<Vec<Vec<u8>>, String> {
    let p = POOL.get().ok_or("no helper")?;
    let h = &p[MINE.with(|m| *m) % p.len()];
    let q = serde_json::to_vec(&(same, calls)).map_err(|e| e.to_string())?;
    let b = {
        let mut h = h.lock().map_err(|_| "helper lock")?;
        put(&mut h.tx, &q).ok_or("helper gone")?;
        get(&mut h.rx).ok_or("helper gone")?
    };
    if b.starts_with(b"died") || b.starts_with(b"was lost") {
        return Err(String::from_utf8_lossy(&b).into());
    }
    let v: Vec<String> = serde_json::from_slice(&b).map_err(|e| e.to_string())?;
    Ok(v.iter().map(|s| crate::util::unhex(s)).collect())
}

/// what n processes forked from this one each write
pub fn forked_output(n: usize, f: &dyn Fn() -> Vec<u8>) -> Result<Vec<Vec<u8>>, String> {
    let mut kids = vec![];
    for _ in 0..n {
        let (r, w) = two().ok_or("pipe")?;
        unsafe {
            match fork() {
                0 => {
                    let b = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_default();
                    let _ = File::from_raw_fd(w).write_all(&b);
                    _exit(0)
                }
                p if p > 0 => {
                    close(w);
                    kids.push((p, File::from_raw_fd(r)));
                }
                _ => return Err("fork".into()),
            }
        }
    }
    let mut out = vec![];
    for (p, mut r) in kids {
        let mut b = vec![];
        let _ = r.read_to_end(&mut b);
        let mut st = 0;
        unsafe { waitpid(p, &mut st, 0) };
        out.push(b);
    }
    Ok(out)
}
