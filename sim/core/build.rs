use std::{env, path::PathBuf, process::Command};
fn main() {
    let src = PathBuf::from(env::var("CARGO_MANIFEST_DIR").unwrap()).join("../rt/rt.c");
    let out = PathBuf::from(env::var("OUT_DIR").unwrap());
    let obj = out.join("rt.o");
    let lib = out.join("libpdrt.a");
    assert!(Command::new("gcc").args(["-O2", "-fPIC", "-fno-strict-aliasing", "-c"]).arg(&src).arg("-o").arg(&obj).status().unwrap().success());
    let _ = std::fs::remove_file(&lib);
    assert!(Command::new("ar").arg("crs").arg(&lib).arg(&obj).status().unwrap().success());
    println!("cargo:rustc-link-search=native={}", out.display());
    println!("cargo:rustc-link-lib=static:+whole-archive=pdrt");
    println!("cargo:rustc-link-lib=m");
    println!("cargo:rerun-if-changed={}", src.display());
}
