use std::process::Command;
use std::{env, fs};

// Compiles the instrumented Lua once per number type, all four in parallel.
fn main() {
    let out = env::var("OUT_DIR").unwrap();
    let vm = format!("{}/../vm", env::var("CARGO_MANIFEST_DIR").unwrap());
    println!("cargo:rerun-if-changed={vm}/lv_vm.c");
    println!("cargo:rerun-if-changed={vm}/lv.h");
    println!("cargo:rerun-if-changed={vm}/cover.c");
    for entry in fs::read_dir(format!("{vm}/lua")).unwrap() {
        println!("cargo:rerun-if-changed={}", entry.unwrap().path().display());
    }
    let mut children = Vec::new();
    for (kind, tag) in ["d", "f", "l", "i"].iter().enumerate() {
        let object = format!("{out}/lv_{tag}.o");
        let child = Command::new("gcc")
            .args(["-O1", "-w", "-fwrapv", "-fPIC", "-std=gnu11", "-c"])
            .arg(format!("-DLV_NUM_KIND={kind}"))
            .arg(format!("-DLVP(x)=lv_{tag}_##x"))
            .arg(format!("{vm}/lv_vm.c"))
            .args(["-o", &object])
            .spawn()
            .expect("gcc");
        children.push((child, object));
    }
    let object = format!("{out}/cover.o");
    let child = Command::new("gcc")
        .args(["-O2", "-fPIC", "-std=gnu11", "-c"])
        .arg(format!("{vm}/cover.c"))
        .args(["-o", &object])
        .spawn()
        .expect("gcc");
    children.push((child, object));
    let archive = format!("{out}/liblv.a");
    let _ = fs::remove_file(&archive);
    let mut ar = Command::new("ar");
    ar.args(["crs", &archive]);
    for (mut child, object) in children {
        assert!(child.wait().unwrap().success(), "gcc failed");
        ar.arg(object);
    }
    assert!(ar.status().unwrap().success(), "ar failed");
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=lv");
    println!("cargo:rustc-link-lib=m");
}
