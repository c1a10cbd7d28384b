//! Compiles the scheduler (plain C, not instrumented) and links it in.
use std::path::PathBuf;
use std::process::Command;

fn main() {
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap()).join("sched.o");
    let ok = Command::new("gcc")
        .args(["-O2", "-g0", "-Wall", "-Wno-builtin-declaration-mismatch", "-fno-stack-protector", "-fPIE", "-c", "sched.c", "-o"])
        .arg(&out)
        .status()
        .expect("gcc")
        .success();
    assert!(ok, "gcc failed");
    println!("cargo:rerun-if-changed=sched.c");
    println!("cargo:rustc-link-arg={}", out.display());
}
