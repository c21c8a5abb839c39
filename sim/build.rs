// Compiles the C caller against the header that aga8's own build script generated for this tree.
use std::path::PathBuf;
use std::process::Command;
fn main() {
    println!("cargo:rustc-check-cfg=cfg(have_shim)");
    println!("cargo:rerun-if-changed=shim/shim.c");
    println!("cargo:rerun-if-env-changed=AGA8_HEADER");
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    let hdr = match std::env::var("AGA8_HEADER") {
        Ok(h) => PathBuf::from(h),
        Err(_) => return,
    };
    println!("cargo:rerun-if-changed={}", hdr.display());
    let log = hdr.with_file_name("shim-build.log");
    let _ = std::fs::remove_file(&log);
    let r = Command::new("gcc")
        .args(["-std=c11", "-O1", "-Wall", "-Werror=implicit-function-declaration", "-Werror=incompatible-pointer-types", "-c", "shim/shim.c", "-o"])
        .arg(out.join("shim.o"))
        .arg(format!("-DAGA8_HEADER=\"{}\"", hdr.display()))
        .output()
        .expect("gcc");
    if !r.status.success() {
        std::fs::write(&log, &r.stderr).unwrap();
        return;
    }
    let a = out.join("libaga8shim.a");
    let _ = std::fs::remove_file(&a);
    let r = Command::new("ar").arg("crs").arg(&a).arg(out.join("shim.o")).status().expect("ar");
    assert!(r.success());
    println!("cargo:rustc-link-search=native={}", out.display());
    println!("cargo:rustc-link-lib=static=aga8shim");
    println!("cargo:rustc-cfg=have_shim");
}
