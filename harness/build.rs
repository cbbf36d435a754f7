//! Only the instrumented build (feature "sched") needs anything: the scheduler runtime, in C so
//! that it is not instrumented itself.
use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=rt/rt.c");
    println!("cargo:rerun-if-changed=build.rs");
    if std::env::var_os("CARGO_FEATURE_SCHED").is_none() {
        return;
    }
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{}/rt.o", out);
    let ok = |c: &mut Command| assert!(c.status().expect("spawn").success(), "{:?}", c);
    ok(Command::new("gcc").args(["-O2", "-fno-builtin", "-Wall", "-c", "rt/rt.c", "-o", &obj]));
    // a plain object on the link line, so that its definitions win over libc's
    println!("cargo:rustc-link-arg-bins={}", obj);
}
