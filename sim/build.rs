use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{out}/rt.o");
    let ok = Command::new("gcc")
        .args(["-std=gnu11", "-O2", "-g", "-fPIC", "-Wall", "-c", "rt/rt.c", "-o", &obj])
        .status()
        .expect("gcc")
        .success();
    assert!(ok, "compiling rt/rt.c failed");
    println!("cargo:rustc-link-arg={obj}");
    for f in ["rt/rt.c", "rt/rt.h", "rt/fs.inc"] {
        println!("cargo:rerun-if-changed={f}");
    }
}
