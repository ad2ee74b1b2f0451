use std::process::Command;
// The functions the symbolic executor models are compiled from C, outside the reach of LTO.
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let ok = Command::new("gcc").args(["-O1", "-c", "shim.c", "-o"]).arg(format!("{}/shim.o", out)).status().unwrap().success()
        && Command::new("ar").args(["crs"]).arg(format!("{}/libsymshim.a", out)).arg(format!("{}/shim.o", out)).status().unwrap().success();
    assert!(ok);
    println!("cargo:rustc-link-search=native={}", out);
    println!("cargo:rustc-link-lib=static=symshim");
    println!("cargo:rerun-if-changed=shim.c");
    println!("cargo:rerun-if-changed=build.rs");
}
