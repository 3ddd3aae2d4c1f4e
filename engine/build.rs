// Links the engine against the LLVM that the pinned rustc itself uses (so the bitcode reader always
// matches the compiler) and against the system z3.
use std::process::Command;
fn main() {
    let rustc = std::env::var("RUSTC").unwrap_or_else(|_| "rustc".into());
    let out = Command::new(rustc).args(["--print", "sysroot"]).output().expect("rustc");
    let sysroot = String::from_utf8(out.stdout).unwrap().trim().to_string();
    let lib = format!("{sysroot}/lib");
    let mut found = None;
    for e in std::fs::read_dir(&lib).unwrap() {
        let n = e.unwrap().file_name().into_string().unwrap();
        if n.starts_with("libLLVM.so") {
            found = Some(n);
        }
    }
    let so = found.expect("libLLVM.so in the toolchain");
    println!("cargo:rustc-link-search=native={lib}");
    println!("cargo:rustc-link-arg=-l:{so}");
    println!("cargo:rustc-link-arg=-Wl,-rpath,{lib}");
    println!("cargo:rustc-link-arg=-l:libz3.so.4");
    println!("cargo:rerun-if-changed=build.rs");
}
