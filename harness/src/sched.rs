//! Schedules inside calls. Thread programs are executed on the instrumented build under the
//! scheduler of rt/rt.c; every schedule with at most `bound` preemptions is run, each in a forked
//! child, and each call's answer is compared with the (stateless) reference model.
use crate::history::{hkey, hmsg, Op};
use crate::refm as r;
use crate::util::*;
use libgoldilocks::goldilocks as g;
use libgoldilocks::{PrehashSigner, SigningKey};
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout};
use std::collections::HashMap;
use std::time::Instant;

const MAXPOINTS: usize = 1 << 19;
const MAXCONF: usize = 8192;
#[repr(C)]
#[derive(Clone, Copy)]
struct Point {
    cur: u8,
    choice: u8,
    enabled: u8,
    cur_enabled: u8,
}
#[repr(C)]
struct Report {
    nthreads: u32,
    plen: u32,
    nconf: u32,
    pad0: u32,
    conf: [u64; MAXCONF],
    prefix: [u8; MAXPOINTS],
    npoints: u32,
    overflow: u32,
    diverged: u32,
    deadlock: u32,
    done: u32,
    nnew: u32,
    pad1: u32,
    pad2: u32,
    accesses: u64,
    switches: u64,
    blocks: u64,
    granules: u64,
    newconf: [u64; MAXCONF],
    failed: u32,
    msg: [u8; 4096],
    pt: [Point; MAXPOINTS],
}
extern "C" {
    fn rt_new_report() -> *mut Report;
    fn rt_init();
    fn rt_child(r: *mut Report);
    fn rt_thread_start(t: i32);
    fn rt_go();
    fn rt_region(on: i32);
    fn rt_thread_end();
    fn rt_alloc(n: usize, al: usize) -> *mut u8;
    fn rt_free(p: *mut u8);
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn pipe(fd: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
}
struct Arena;
unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        rt_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, _l: Layout) {
        rt_free(p)
    }
}
#[global_allocator]
static A: Arena = Arena;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prog {
    /// calls made before the threads start
    pub warm: Vec<Op>,
    pub threads: Vec<Vec<Op>>,
    /// the first thread makes its first call, then this many threads come, make one call and go,
    /// and only then is the second thread made
    #[serde(default)]
    pub gap: u32,
}
type Call = Box<dyn Fn() -> Vec<u8> + Send + Sync>;
/// the call with its arguments ready, and the answer the model gives
struct Ready {
    call: Call,
    want: Option<Vec<u8>>,
    /// the exact answer as the only call of a fresh process
    alone: Option<Vec<u8>>,
}
fn show(x: impl std::fmt::Debug) -> Vec<u8> {
    format!("{:?}", x).into_bytes()
}
fn acc(b: bool) -> Vec<u8> {
    vec![b as u8]
}
fn ready(o: Op) -> Ready {
    let sg = |k: u8, m: u8| r::sign(&hkey(k), &hmsg(m)).to_vec();
    let pb = |k: u8| r::derive_public(&hkey(k));
    let (call, want): (Call, Option<Vec<u8>>) = match o {
        Op::Derive(k) => {
            let x = hkey(k);
            (Box::new(move || g::ed448_derive_public(&x).to_vec()), Some(pb(k).to_vec()))
        }
        Op::DeriveSeed(k) => {
            let x = hkey(k);
            (Box::new(move || g::private_to_public(&x).to_vec()), Some(r::pub_of_seed(&x).to_vec()))
        }
        Op::DeriveRaw(k) => {
            let x = hkey(k);
            (Box::new(move || g::secret_to_public(&x).to_vec()), Some(r::pub_of_secret(&x).to_vec()))
        }
        Op::Point(k) => {
            let x = hkey(k);
            (Box::new(move || g::point_by_secret(&x).eddsa_like_encode().to_vec()), Some(r::pub_of_secret(&x).to_vec()))
        }
        Op::Expand(k) => {
            let x = hkey(k);
            let mut s = [0u8; 57];
            r::shake256(&[&x], &mut s);
            s[56] |= 0x80;
            (Box::new(move || g::private_to_secret(&x).to_vec()), Some(s.to_vec()))
        }
        Op::Sign(k, m) => {
            let (x, y) = (hkey(k), hmsg(m));
            (Box::new(move || g::ed448_sign(&x, &y).to_vec()), Some(sg(k, m)))
        }
        Op::SignSeed(k, m) => {
            let (x, y) = (hkey(k), hmsg(m));
            let w = r::sign_seed(&x, &y).to_vec();
            (Box::new(move || g::sign_by_private(&x, &y).to_vec()), Some(w))
        }
        Op::SignNonce(k, n, m) => {
            let (x, z, y) = (hkey(k), hkey(n), hmsg(m));
            let w = r::sign_secret_nonce(&x, &z, &y).to_vec();
            (Box::new(move || g::sign_with_secret_and_nonce(&x, &z, &y).to_vec()), Some(w))
        }
        Op::Prehash(k, m) => {
            let (x, y) = (hkey(k), hmsg(m));
            let w = [sg(k, m), pb(k).to_vec()].concat();
            (
                Box::new(move || match SigningKey::from_slice(&x).sign_prehash(&y) {
                    Ok(s) => s.as_slice().to_vec(),
                    Err(_) => vec![],
                }),
                Some(w),
            )
        }
        Op::Verify(v, k, m, s) => {
            let (p, q, y) = (pb(v), sg(k, s), hmsg(m));
            let w = r::verify(&p, &q, &y).accept();
            (Box::new(move || show(g::ed448_verify(&p, &q, &y))), Some(acc(w)))
        }
        Op::VerifyErr(v, k, m, s) => {
            let (p, q, y) = (pb(v), sg(k, s), hmsg(m));
            let w = r::verify(&p, &q, &y).accept();
            (Box::new(move || show(g::ed448_verify_with_error(&p, &q, &y))), Some(acc(w)))
        }
        Op::VerifyFlip(k, m, b) => {
            let (p, mut q, y) = (pb(k), sg(k, m), hmsg(m));
            q[b as usize / 8] ^= 1 << (b % 8);
            let w = r::verify(&p, &q, &y).accept();
            (Box::new(move || show(g::ed448_verify(&p, &q, &y))), Some(acc(w)))
        }
        Op::Json(k) => {
            let x = hkey(k);
            let d = crate::containers::quoted_hex(&x);
            (
                Box::new(move || match serde_json::from_str::<SigningKey>(&d) {
                    Ok(s) => [&s.to_bytes()[..], s.verifying_key().as_bytes()].concat(),
                    Err(_) => vec![],
                }),
                Some([&x[..], &pb(k)[..]].concat()),
            )
        }
        Op::Gen => (Box::new(|| g::ed448_generate_key().to_vec()), None),
        Op::Random(k) => {
            let x = hkey(k);
            (
                Box::new(move || {
                    let mut rng = crate::case::ScriptRng { data: x.to_vec(), pos: 0, mode: 0 };
                    let s = SigningKey::random(&mut rng);
                    [&s.to_bytes()[..], s.verifying_key().as_bytes()].concat()
                }),
                None,
            )
        }
        Op::VerifyBad(k, m, w) => {
            let (p, q) = crate::history::bad_input(w, &pb(k), &sg(k, m).try_into().unwrap());
            let y = hmsg(m);
            let w = r::verify(&p, &q, &y).accept();
            (Box::new(move || show(g::ed448_verify(&p, &q, &y))), Some(acc(w)))
        }
        Op::BadCalls => (Box::new(crate::history::bad_calls), Some(b"refused".to_vec())),
        Op::BadHex | Op::BadJson(_) => (
            Box::new(|| acc(serde_json::from_str::<SigningKey>("\"0g\"").is_err())),
            Some(acc(true)),
        ),
    };
    Ready { call, want, alone: None }
}

fn a() -> Vec<Op> {
    vec![
        Op::Derive(3),
        Op::Derive(5),
        Op::Derive(0),
        Op::Derive(1),
        Op::Sign(3, 3),
        Op::Sign(5, 3),
        Op::Sign(0, 4),
        Op::Verify(3, 3, 3, 3),
        Op::Verify(5, 5, 3, 3),
        Op::Verify(3, 5, 3, 3),
        Op::VerifyErr(0, 0, 4, 4),
        Op::VerifyFlip(3, 3, 8),
        Op::VerifyBad(3, 3, 6),
        Op::VerifyBad(3, 3, 7),
        Op::Prehash(1, 3),
        Op::SignNonce(0, 1, 3),
        Op::SignSeed(3, 3),
        Op::Point(3),
        Op::Expand(0),
        Op::Json(3),
        Op::Random(5),
        Op::Gen,
        Op::BadCalls,
    ]
}
/// (name, bound, programs)
fn groups(th: bool) -> Vec<(&'static str, Vec<Prog>)> {
    let a = a();
    let mut v = vec![];
    let h = if th { a.len() } else { 14 };
    let mut seq = vec![];
    for i in 0..h * h * h {
        seq.push(Prog { warm: vec![], threads: vec![vec![a[i / h / h], a[i / h % h], a[i % h]]], gap: 0 });
    }
    v.push(("one thread, three calls, all sequences from a fresh process (quick: 14-call alphabet, thorough: 23)", seq));
    let mut one = vec![];
    for i in 0..a.len() {
        for j in i..a.len() {
            one.push(Prog { warm: vec![], threads: vec![vec![a[i]], vec![a[j]]], gap: 0 });
        }
    }
    v.push(("two threads, one call each, all pairs of the 23-call alphabet, from a fresh process", one));
    let b: Vec<Op> = if th { a.clone() } else { a[..9].to_vec() };
    let mut warm = vec![];
    for w in &b {
        for i in 0..b.len() {
            for j in i..b.len() {
                warm.push(Prog { warm: vec![*w], threads: vec![vec![b[i]], vec![b[j]]], gap: 0 });
            }
        }
    }
    v.push(("the same after one earlier call (quick: 9-call alphabet)", warm));
    let c: Vec<Op> = vec![Op::Derive(3), Op::Derive(5), Op::Sign(3, 3), Op::Sign(0, 4), Op::Verify(3, 3, 3, 3), Op::Verify(3, 5, 3, 3), Op::Gen];
    let n = if th { 7 } else { 5 };
    let mut two = vec![];
    for i in 0..n * n {
        for j in i..n * n {
            two.push(Prog { warm: vec![], threads: vec![vec![c[i / n], c[i % n]], vec![c[j / n], c[j % n]]], gap: 0 });
        }
    }
    v.push(("two threads, two calls each (quick: 5-call alphabet, thorough: 7)", two));
    let mut three = vec![];
    for i in 0..c.len() {
        for j in i..c.len() {
            for k in j..c.len() {
                three.push(Prog { warm: vec![], threads: vec![vec![c[i]], vec![c[j]], vec![c[k]]], gap: 0 });
            }
        }
    }
    v.push(("three threads, one call each, all triples of a 7-call alphabet", three));
    // whatever is shared out among threads by number or address (slots, pools, shards) comes round
    let mut far = vec![];
    for gap in [1u32, 2, 3, 59, 63, 83, 99, 255] {
        for i in 0..5 {
            for j in i..5 {
                far.push(Prog { warm: vec![], threads: vec![vec![c[i]], vec![c[j]]], gap });
            }
        }
    }
    v.push(("two threads, one call each, 1 to 255 other threads having come and gone between their creation, all pairs of a 5-call alphabet", far));
    v
}

struct Exec {
    points: Vec<Point>,
    newconf: Vec<u64>,
    accesses: u64,
    overflow: bool,
    diverged: bool,
    blocks: u64,
    fail: Option<String>,
    hung: bool,
}
/// runs in the child, never returns
unsafe fn child(rp: *mut Report, p: &Prog, m: &HashMap<Op, Ready>) -> ! {
    alarm(60);
    rt_child(rp);
    let fail = |s: String| {
        let rr = &mut *rp;
        if rr.failed == 0 {
            let b = s.as_bytes();
            let n = b.len().min(4095);
            rr.msg[..n].copy_from_slice(&b[..n]);
            rr.msg[n] = 0;
            rr.failed = 1;
        }
    };
    let judge = |o: &Op, got: Result<Vec<u8>, String>| -> Option<String> {
        let seen = got.clone().map(|v| match o {
            Op::Verify(..) | Op::VerifyErr(..) | Op::VerifyFlip(..) | Op::VerifyBad(..) => crate::history::verdict(&v),
            _ => v,
        });
        if let (Ok(v), Some(a)) = (&got, &m[o].alone) {
            if v != a {
                return Some(format!("{:?} answered {}, but alone in a fresh process {}", o, String::from_utf8_lossy(v), String::from_utf8_lossy(a)));
            }
        }
        match (seen, &m[o].want) {
            (Err(e), _) => Some(format!("{:?} panicked: {}", o, e)),
            (Ok(v), Some(w)) if v != *w => Some(format!("{:?} answered {} instead of {}", o, hex(&v), hex(w))),
            (Ok(v), None) => match o {
                Op::Random(_) if v[57..] != r::derive_public(&v[..57].try_into().unwrap()) => Some("SigningKey::random: keys do not belong together".into()),
                _ => None,
            },
            _ => None,
        }
    };
    for o in &p.warm {
        let got = crate::engine::lib(|| (m[o].call)());
        if let Some(s) = judge(o, got) {
            fail(format!("before the threads start: {}", s));
        }
    }
    let (ready, wait) = std::sync::mpsc::channel();
    let hs: Vec<_> = p
        .threads
        .iter()
        .enumerate()
        .map(|(t, ops)| {
            let known = if t == 0 && p.gap > 0 { Some((&*(&m[&ops[0]].call as *const Call), ready.clone())) } else { None };
            let pause = known.is_some();
            let calls: Vec<&'static Call> = ops.iter().map(|o| &*(&m[o].call as *const Call)).collect();
            let h = std::thread::spawn(move || {
                if let Some((c, ready)) = known {
                    let _ = ready.send(std::panic::catch_unwind(std::panic::AssertUnwindSafe(c)).map_err(|_| crate::engine::panic_msg()));
                }
                rt_thread_start(t as i32);
                let mut out = vec![];
                for c in calls {
                    rt_region(1);
                    let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(c));
                    rt_region(0);
                    out.push(v.map_err(|_| crate::engine::panic_msg()));
                }
                rt_thread_end();
                out
            });
            if pause {
                if let Some(s) = wait.recv().ok().and_then(|got| judge(&ops[0], got)) {
                    fail(format!("thread 0, its first call: {}", s));
                }
                for g in 0..p.gap {
                    let o = &p.threads[g as usize % p.threads.len()][0];
                    let c: &'static Call = &*(&m[o].call as *const Call);
                    let got = std::thread::spawn(move || std::panic::catch_unwind(std::panic::AssertUnwindSafe(c)).map_err(|_| crate::engine::panic_msg())).join();
                    if let Some(s) = got.ok().and_then(|got| judge(o, got)) {
                        fail(format!("a thread that came and went: {}", s));
                    }
                }
            }
            h
        })
        .collect();
    rt_go();
    let mut gen = vec![];
    for (t, h) in hs.into_iter().enumerate() {
        for (o, got) in p.threads[t].iter().zip(h.join().unwrap_or_default()) {
            if let (Op::Gen, Ok(k)) = (o, &got) {
                if gen.contains(k) {
                    fail(format!("two calls of ed448_generate_key returned the same key {}", hex(k)));
                }
                gen.push(k.clone());
            }
            if let Some(s) = judge(o, got) {
                fail(format!("thread {}: {}", t, s));
            }
        }
    }
    _exit(0)
}

pub struct Stats {
    pub programs: u64,
    pub execs: u64,
    pub points: u64,
    pub max_points: u64,
    pub accesses: u64,
    pub blocks: u64,
    pub diverged: u64,
    pub hung: u64,
    pub conflicts: u64,
    pub complete: bool,
    pub groups: Vec<String>,
}

struct Pool {
    slots: Vec<*mut Report>,
}
impl Pool {
    unsafe fn start(&self, slot: usize, p: &Prog, m: &HashMap<Op, Ready>, conf: &[u64], prefix: &[u8]) -> i32 {
        let q: *mut Report = self.slots[slot];
        let rr = &mut *q;
        rr.nthreads = p.threads.len() as u32;
        rr.plen = prefix.len() as u32;
        rr.prefix[..prefix.len()].copy_from_slice(prefix);
        rr.nconf = conf.len() as u32;
        rr.conf[..conf.len()].copy_from_slice(conf);
        (rr.npoints, rr.overflow, rr.diverged, rr.deadlock, rr.done, rr.nnew, rr.failed) = (0, 0, 0, 0, 0, 0, 0);
        (rr.accesses, rr.switches, rr.blocks, rr.granules) = (0, 0, 0, 0);
        let pid = fork();
        if pid == 0 {
            child(self.slots[slot], p, m)
        }
        assert!(pid > 0, "fork");
        pid
    }
    unsafe fn collect(&self, slot: usize, st: i32) -> Exec {
        let rr = &*self.slots[slot];
        let sig = st & 0x7f;
        let mut fail = None;
        // ended by the alarm or from outside: no verdict
        let hung = sig != 0 && !crate::guard::is_crash(sig);
        if rr.failed != 0 {
            let n = rr.msg.iter().position(|&c| c == 0).unwrap_or(0);
            fail = Some(String::from_utf8_lossy(&rr.msg[..n]).to_string());
        } else if rr.deadlock != 0 {
            fail = Some("deadlock: every thread waits".into());
        } else if sig != 0 && !hung {
            fail = Some(format!("the process died of signal {}", sig));
        }
        Exec {
            points: rr.pt[..rr.npoints as usize].to_vec(),
            newconf: rr.newconf[..rr.nnew as usize].to_vec(),
            accesses: rr.accesses,
            overflow: rr.overflow != 0,
            diverged: rr.diverged != 0,
            blocks: rr.blocks,
            fail,
            hung,
        }
    }
}

#[derive(Clone)]
struct Job {
    prog: usize,
    prefix: Vec<u8>,
    /// preemptions the prefix spends
    cost: u32,
    /// generation of the conflict set the prefix was computed with
    gen: u32,
}

/// Runs all schedules of the programs with at most `bound` preemptions.
fn run_group(pool: &Pool, m: &HashMap<Op, Ready>, progs: &[Prog], bound: u32, per_prog: u64, deadline: Instant, st: &mut Stats) -> Result<(), (Prog, Vec<u8>, String)> {
    use std::collections::VecDeque;
    let mut conf: Vec<Vec<u64>> = vec![vec![]; progs.len()];
    let mut gen = vec![0u32; progs.len()];
    let mut ran = vec![0u64; progs.len()];
    // by number of preemptions: shallow schedules of every program before deep ones of any
    let mut q: Vec<VecDeque<Job>> = vec![VecDeque::new(); bound as usize + 1];
    for i in 0..progs.len() {
        q[0].push_back(Job { prog: i, prefix: vec![], cost: 0, gen: 0 });
    }
    let mut running: HashMap<i32, (usize, Job)> = HashMap::new();
    let mut free: Vec<usize> = (0..pool.slots.len()).collect();
    let mut bad = None;
    loop {
        while bad.is_none() && !free.is_empty() {
            if Instant::now() > deadline {
                if q.iter().any(|x| !x.is_empty()) {
                    st.complete = false;
                }
                q.iter_mut().for_each(|x| x.clear());
            }
            let Some(j) = q.iter_mut().find_map(|x| x.pop_front()) else { break };
            if j.gen != gen[j.prog] {
                continue;
            }
            if ran[j.prog] >= per_prog {
                st.complete = false;
                continue;
            }
            ran[j.prog] += 1;
            let s = free.pop().unwrap();
            let pid = unsafe { pool.start(s, &progs[j.prog], m, &conf[j.prog], &j.prefix) };
            running.insert(pid, (s, j));
        }
        if running.is_empty() {
            break;
        }
        let mut status = 0;
        let pid = unsafe { waitpid(-1, &mut status, 0) };
        let Some((s, j)) = running.remove(&pid) else { continue };
        let e = unsafe { pool.collect(s, status) };
        free.push(s);
        st.execs += 1;
        st.points += e.points.len() as u64;
        st.max_points = st.max_points.max(e.points.len() as u64);
        st.accesses += e.accesses;
        st.blocks += e.blocks;
        if e.overflow {
            st.complete = false;
        }
        let choices: Vec<u8> = e.points.iter().map(|p| p.choice).collect();
        if let Some(f) = e.fail {
            bad = bad.or(Some((progs[j.prog].clone(), choices, f)));
            continue;
        }
        if e.hung {
            st.hung += 1;
            st.complete = false;
            continue;
        }
        if e.diverged {
            st.diverged += 1;
            st.complete = false;
            continue;
        }
        if j.gen != gen[j.prog] {
            continue;
        }
        if !e.newconf.is_empty() {
            // memory not known to be shared turned out to be: start this program over with it
            let c = &mut conf[j.prog];
            c.extend(e.newconf);
            c.sort();
            c.dedup();
            if c.len() > MAXCONF {
                c.truncate(MAXCONF);
                st.complete = false;
            }
            gen[j.prog] += 1;
            if gen[j.prog] < 40 {
                q[0].push_back(Job { prog: j.prog, prefix: vec![], cost: 0, gen: gen[j.prog] });
            } else {
                st.complete = false;
            }
            continue;
        }
        for i in j.prefix.len()..e.points.len() {
            let p = e.points[i];
            let cost = j.cost + p.cur_enabled as u32; // up to i the run followed default choices
            if cost > bound {
                continue;
            }
            for t in 0..8u8 {
                if p.enabled >> t & 1 == 1 && t != p.choice {
                    let mut prefix = choices[..i].to_vec();
                    prefix.push(t);
                    q[cost as usize].push_back(Job { prog: j.prog, prefix, cost, gen: j.gen });
                }
            }
        }
    }
    st.programs += progs.len() as u64;
    st.conflicts += conf.iter().map(|c| c.len() as u64).sum::<u64>();
    match bad {
        Some(b) => Err(b),
        None => Ok(()),
    }
}

/// the answer of this one call in a process of its own (this process never calls into the crate)
unsafe fn alone(c: &Call) -> Option<Vec<u8>> {
    use std::io::{Read, Write};
    use std::os::fd::FromRawFd;
    let mut f = [0i32; 2];
    if pipe(f.as_mut_ptr()) != 0 {
        return None;
    }
    let pid = fork();
    if pid == 0 {
        alarm(60);
        // a panic is reported by the exploration itself
        let ok = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(c)) {
            Ok(v) => std::fs::File::from_raw_fd(f[1]).write_all(&v).is_ok(),
            Err(_) => false,
        };
        _exit(!ok as i32)
    }
    close(f[1]);
    let mut b = vec![];
    let r = std::fs::File::from_raw_fd(f[0]).read_to_end(&mut b);
    let mut st = 0;
    waitpid(pid, &mut st, 0);
    (pid > 0 && r.is_ok() && st == 0).then_some(b)
}

fn setup(ops: impl Iterator<Item = Op>, n: usize) -> (Pool, HashMap<Op, Ready>) {
    unsafe { rt_init() };
    let pool = Pool { slots: (0..n).map(|_| unsafe { rt_new_report() }).collect() };
    let mut m = HashMap::new();
    for o in ops {
        m.entry(o).or_insert_with(|| {
            let mut x = ready(o);
            if x.want.is_some() {
                x.alone = unsafe { alone(&x.call) };
            }
            x
        });
    }
    (pool, m)
}

/// `mc sched <tier> <out>`: explores and writes a summary for the C15 check to take in
pub fn main(tier: &str, out: &str) -> i32 {
    let th = tier == "thorough";
    let t0 = Instant::now();
    let gs = groups(th);
    let ops: Vec<Op> = gs.iter().flat_map(|g| g.1.iter()).flat_map(|p| p.warm.iter().chain(p.threads.iter().flatten()).copied().collect::<Vec<_>>()).collect();
    let (pool, m) = setup(ops.into_iter(), crate::engine::threads());
    let mut st = Stats { programs: 0, execs: 0, points: 0, max_points: 0, accesses: 0, blocks: 0, diverged: 0, hung: 0, conflicts: 0, complete: true, groups: vec![] };
    let (bound, per_prog, secs) = if th { (3, 20_000, 3600) } else { (2, 600, 180) };
    let mut bad = None;
    for (i, (name, progs)) in gs.iter().enumerate() {
        let before = st.execs;
        let deadline = t0 + std::time::Duration::from_secs(secs * (i as u64 + 1) / gs.len() as u64);
        let r = run_group(&pool, &m, progs, bound, per_prog, deadline, &mut st);
        eprintln!("  schedules: {}: {} programs, {} executions, {:.1}s", name, progs.len(), st.execs - before, t0.elapsed().as_secs_f64());
        st.groups.push(format!("{}: {} programs, {} executions", name, progs.len(), st.execs - before));
        if let Err(b) = r {
            bad = Some(b);
            break;
        }
    }
    let j = serde_json::json!({
        "programs": st.programs, "executions": st.execs, "scheduling_points": st.points, "max_points_in_one_execution": st.max_points,
        "memory_accesses_instrumented": st.accesses, "blocking_waits": st.blocks, "shared_written_locations": st.conflicts,
        "diverged": st.diverged, "inconclusive": st.hung,
        "preemption_bound": bound, "complete_within_bound": st.complete, "groups": st.groups, "wall_s": t0.elapsed().as_secs_f64(),
        "violation": bad.as_ref().map(|(p, c, f)| serde_json::json!({"case": {"program": p, "choices": hex(c)}, "message": f})),
    });
    std::fs::write(out, serde_json::to_string(&j).unwrap()).expect("write summary");
    bad.is_some() as i32
}

pub fn replay(v: &serde_json::Value) -> i32 {
    let p: Prog = serde_json::from_value(v["program"].clone()).expect("program");
    let choices = unhex(v["choices"].as_str().expect("choices"));
    let ops: Vec<Op> = p.warm.iter().chain(p.threads.iter().flatten()).copied().collect();
    let (pool, m) = setup(ops.into_iter(), 1);
    // the conflict set decides where the scheduling points are: find it first
    let mut conf: Vec<u64> = vec![];
    let mut settled = false;
    for _ in 0..80 {
        let prefix: &[u8] = if settled { &choices } else { &[] };
        let pid = unsafe { pool.start(0, &p, &m, &conf, prefix) };
        let mut s = 0;
        unsafe { waitpid(pid, &mut s, 0) };
        let e = unsafe { pool.collect(0, s) };
        if let Some(f) = e.fail {
            println!("violation: {}", f);
            return 1;
        }
        if e.newconf.is_empty() {
            if settled {
                break;
            }
            settled = true;
        }
        conf.extend(e.newconf);
        conf.sort();
        conf.dedup();
    }
    println!("held");
    0
}
