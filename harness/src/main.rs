mod case;
mod containers;
mod embed;
mod engine;
mod fresh;
mod guard;
#[cfg(feature = "int_field")]
mod field;
mod group;
mod history;
mod refm;
#[cfg(feature = "sched")]
mod sched;
#[cfg(feature = "int_scalar")]
mod scalarc;
mod selftest;
mod spaces;
mod util;

use case::Case;
use engine::Fail;
use std::sync::OnceLock;
use std::time::{Duration, Instant};

struct Ctx {
    id: String,
    tier: String,
    t0: Instant,
}
static CTX: OnceLock<Ctx> = OnceLock::new();

fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or("/verif".into())
}
fn jstr(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
fn features() -> String {
    [
        ("int_field", cfg!(feature = "int_field")),
        ("int_scalar", cfg!(feature = "int_scalar")),
        ("int_point", cfg!(feature = "int_point")),
        ("pt_methods", cfg!(feature = "pt_methods")),
    ]
    .iter()
    .map(|(n, b)| format!("{}={}", n, b))
    .collect::<Vec<_>>()
    .join(" ")
}
fn write_replay(id: &str, space: &str, case: &str, msg: &str) -> String {
    let dir = format!("{}/evidence/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{}/{}.json", dir, id);
    let body = format!(
        "{{\"property\":{},\"space\":{},\"message\":{},\"case\":{}}}\n",
        jstr(id),
        jstr(space),
        jstr(msg),
        case
    );
    std::fs::write(&p, body).expect("write replay");
    p
}

pub fn report_hang(space: &str, c: &Case, hang: Duration) -> ! {
    let x = CTX.get().unwrap();
    let msg = format!("call did not return within {} s", hang.as_secs());
    let p = write_replay(&x.id, space, &c.json(), &msg);
    println!("{}: {} in space {}: {}", x.id, msg, space, c.json());
    println!("VIOLATION property={} replay={}", x.id, p);
    evidence(&engine::Report::empty(), 1, 0);
    std::process::exit(1)
}

fn evidence(r: &engine::Report, violations: u64, checks: usize) {
    let x = CTX.get().unwrap();
    let spaces: Vec<String> = r
        .spaces
        .iter()
        .map(|s| {
            format!(
                "{{\"name\":{},\"bound\":{},\"size\":{},\"explored\":{},\"distinct_outcomes\":{},\"complete\":{},\"wall_s\":{:.2}}}",
                jstr(&s.name), jstr(&s.bound), s.size, s.explored, s.distinct, s.complete, s.wall
            )
        })
        .collect();
    let samples: Vec<String> = r
        .samples
        .iter()
        .map(|(s, c, o)| {
            let c = if c.len() > 600 { format!("{}...", &c.chars().take(600).collect::<String>()) } else { c.clone() };
            format!("{{\"space\":{},\"case\":{},\"result\":{}}}", jstr(s), jstr(&c), jstr(o))
        })
        .collect();
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"explanation\": {},\n  \"reference_selfchecks\": {},\n  \"outcome_digest\": \"{:016x}\",\n  \"hooks\": {},\n  \"schedules_inside_calls\": {},\n  \"spaces\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        jstr(&x.id),
        jstr(&x.tier),
        std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0),
        r.states,
        r.calls,
        r.cases,
        r.complete && violations == 0,
        jstr("every member of every listed space was executed on the crate built from /repo and compared with the reference model; states = distinct outcomes seen (28-bit fingerprints, so a lower bound), transitions = calls into the crate, traces_validated_against_impl = cases compared with the model"),
        checks,
        r.digest,
        jstr(&features()),
        sched_summary().map(|v| v.to_string()).unwrap_or("null".into()),
        spaces.join(",\n   "),
        samples.join(",\n   "),
        jstr("the reference model (harness/src/refm.rs) is Ed448 as in RFC 8032; it is validated on every run against 1216 vectors produced by OpenSSL and an independent Python implementation"),
        x.t0.elapsed().as_secs_f64(),
        violations
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    std::fs::write(format!("{}/evidence/{}.json", root(), x.id), body).expect("write evidence");
}

/// what the instrumented build explored just before (C15 only)
fn sched_summary() -> Option<serde_json::Value> {
    let p = std::env::var("MC_SCHED").ok()?;
    serde_json::from_str(&std::fs::read_to_string(p).ok()?).ok()
}

fn replay(path: &str) -> i32 {
    let s = std::fs::read_to_string(path).expect("read replay");
    let v: serde_json::Value = serde_json::from_str(&s).expect("parse replay");
    if !v["case"]["program"].is_null() {
        #[cfg(feature = "sched")]
        return sched::replay(&v["case"]);
        #[cfg(not(feature = "sched"))]
        {
            println!("a schedule: replay it with target/sched/x86_64-unknown-linux-gnu/release/mc");
            return 2;
        }
    }
    let c: Case = match serde_json::from_value(v["case"].clone()) {
        Ok(c) => c,
        Err(e) => {
            println!("cannot replay: {}", e);
            return 2;
        }
    };
    println!("replaying {}", c.json());
    match engine::run_guarded(&c) {
        Ok(h) => {
            println!("held, outcome {:016x}", h);
            0
        }
        Err(Fail::Violation(m)) => {
            println!("violation: {}", m);
            1
        }
        Err(Fail::Engine(m)) => {
            println!("engine error: {}", m);
            2
        }
    }
}

/// the exploring process died: say in which case
fn died(a: &[String], sig: i32) -> i32 {
    let (id, tier) = (a[1].clone(), a.get(2).cloned().unwrap_or("quick".into()));
    println!("the exploring process died of signal {}", sig);
    if !guard::is_crash(sig) {
        return 2;
    }
    let _ = CTX.set(Ctx { id: id.clone(), tier: tier.clone(), t0: Instant::now() });
    let p = spaces::PROPS.iter().find(|p| p.id == id).unwrap();
    let mut sp = (p.spaces)(tier == "thorough");
    if let Ok(o) = std::env::var("MC_SPACE") {
        sp.retain(|s| s.name.contains(&o));
    }
    let Some((space, c, alone)) = guard::suspects(&sp) else { return 2 };
    let msg = format!("the process died of signal {} during the call{}", sig, if alone { "" } else { " (one of those then running)" });
    let path = write_replay(&id, &space, &c.json(), &msg);
    println!("{}: space {}: {}\n  case {}", id, space, msg, c.json());
    println!("VIOLATION property={} replay={}", id, path);
    evidence(&engine::Report::empty(), 1, 0);
    1
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    engine::install_hook();
    let sub = a.get(1).map(|s| s.as_str()).unwrap_or("");
    if sub == "genkeys" {
        use std::io::Write;
        for _ in 0..3 {
            std::io::stdout().write_all(&libgoldilocks::goldilocks::ed448_generate_key()).unwrap();
        }
        return;
    }
    if spaces::PROPS.iter().any(|p| p.id == sub) {
        match guard::split() {
            None => {}
            Some(Ok(rc)) => std::process::exit(rc),
            Some(Err(sig)) => std::process::exit(died(&a, sig)),
        }
    }
    if sub == "C15" || (sub == "replay" && std::fs::read_to_string(&a[2]).is_ok_and(|s| s.contains("\"C15\""))) {
        fresh::start(if sub == "replay" { 1 } else { engine::threads() });
    }
    if a.get(1).map(|s| s.as_str()) == Some("replay") {
        std::process::exit(replay(&a[2]));
    }
    #[cfg(feature = "sched")]
    if a.get(1).map(|s| s.as_str()) == Some("sched") {
        std::process::exit(sched::main(&a[2], &a[3]));
    }
    let id = a.get(1).expect("property id").clone();
    let tier = a.get(2).cloned().unwrap_or("quick".into());
    let th = tier == "thorough";
    let _ = CTX.set(Ctx { id: id.clone(), tier: tier.clone(), t0: Instant::now() });
    let t0 = Instant::now();
    let checks = match selftest::run() {
        Ok(n) => n,
        Err(e) => {
            println!("reference model self test failed: {}", e);
            std::process::exit(2);
        }
    };
    if let Some(v) = sched_summary() {
        if !v["violation"].is_null() {
            let (c, m) = (v["violation"]["case"].to_string(), v["violation"]["message"].as_str().unwrap_or("").to_string());
            let path = write_replay(&id, "schedules inside calls", &c, &m);
            println!("{}: schedules inside calls: {}\n  case {}", id, m, c);
            println!("VIOLATION property={} replay={}", id, path);
            evidence(&engine::Report::empty(), 1, checks);
            std::process::exit(1);
        }
    }
    let p = spaces::PROPS.iter().find(|p| p.id == id).expect("unknown property");
    let only = std::env::var("MC_SPACE").ok();
    let mut sp = (p.spaces)(th);
    if let Some(o) = only {
        sp.retain(|s| s.name.contains(&o));
    }
    let cap = std::env::var("MC_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if th { 14_400 } else { 780 });
    eprintln!("{} {} ({} reference checks, {} spaces, {})", id, tier, checks, sp.len(), features());
    let r = engine::explore(sp, t0 + Duration::from_secs(cap), Duration::from_secs(120));
    if let Some(e) = &r.engine_error {
        println!("engine error: {}", e);
        evidence(&r, 0, checks);
        std::process::exit(2);
    }
    if let Some((s, c, m)) = &r.violation {
        let path = write_replay(&id, s, c, m);
        println!("{}: space {}: {}\n  case {}", id, s, m, c);
        println!("VIOLATION property={} replay={}", id, path);
        evidence(&r, 1, checks);
        std::process::exit(1);
    }
    evidence(&r, 0, checks);
    println!(
        "{} held: {} spaces, {} cases, {} calls, {} distinct outcomes, complete={}, {:.1} s, digest {:016x}",
        id, r.spaces.len(), r.cases, r.calls, r.states, r.complete, t0.elapsed().as_secs_f64(), r.digest
    );
}
