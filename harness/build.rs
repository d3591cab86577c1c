// Compiles the sanitizer-coverage callbacks (they need the caller's return address).
use std::{env, path::PathBuf, process::Command};
fn main() {
    println!("cargo:rerun-if-changed=src/cov.c");
    let out = PathBuf::from(env::var("OUT_DIR").unwrap());
    let obj = out.join("cov.o");
    let lib = out.join("libvpcov.a");
    let ok = Command::new("gcc")
        .args(["-O2", "-fPIC", "-c", "src/cov.c", "-o"])
        .arg(&obj)
        .status()
        .expect("gcc")
        .success();
    assert!(ok, "gcc failed");
    let _ = std::fs::remove_file(&lib);
    let ok = Command::new("ar").arg("crs").arg(&lib).arg(&obj).status().expect("ar").success();
    assert!(ok, "ar failed");
    println!("cargo:rustc-link-search=native={}", out.display());
    println!("cargo:rustc-link-lib=static:+whole-archive=vpcov");
}
