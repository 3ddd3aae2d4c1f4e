use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let src = std::path::Path::new(&std::env::var("CARGO_MANIFEST_DIR").unwrap()).join("../rt/rt.c");
    let ok = Command::new("gcc")
        .args(["-O1", "-c", "-o"])
        .arg(format!("{out}/rt.o"))
        .arg(&src)
        .status()
        .unwrap()
        .success();
    assert!(ok);
    println!("cargo:rustc-link-arg={out}/rt.o");
    println!("cargo:rerun-if-changed={}", src.display());
}
