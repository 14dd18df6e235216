//! Compiles the C side of the checkers against the repository's C headers.
use std::path::{Path, PathBuf};
use std::process::Command;

fn unit(here: &Path, inc: &Path, out: &Path, name: &str, cfg: &str) {
    println!("cargo:rustc-check-cfg=cfg({cfg})");
    println!("cargo:rerun-if-changed={}", here.join(format!("{name}.c")).display());
    let object = out.join(format!("{name}.o"));
    let gcc = Command::new("gcc").args(["-std=c11", "-O1", "-Wall", "-Werror=implicit-function-declaration", "-Werror=incompatible-pointer-types", "-Werror=int-conversion", "-c", "-I"]).arg(inc)
        .arg(here.join(format!("{name}.c"))).arg("-o").arg(&object).output().expect("gcc");
    if !gcc.status.success() {
        println!("cargo:warning={}", String::from_utf8_lossy(&gcc.stderr).replace('\n', " | "));
        println!("cargo:rustc-cfg={cfg}");
        return;
    }
    let ar = Command::new("ar").args(["crs"]).arg(out.join(format!("lib{name}.a"))).arg(&object).status().expect("ar");
    assert!(ar.success());
    println!("cargo:rustc-link-lib=static={name}");
}

fn main() {
    let here = PathBuf::from(std::env::var("CARGO_MANIFEST_DIR").unwrap());
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    let inc = here.join("../../repo/include");
    println!("cargo:rerun-if-changed={}", inc.join("m68000/m68000.h").display());
    println!("cargo:rerun-if-changed={}", inc.join("m68000/m68000-ffi.h").display());
    println!("cargo:rustc-link-search=native={}", out.display());
    unit(&here, &inc, &out, "shim", "header_broken");
    unit(&here, &inc, &out, "head", "head_broken");
}
