use std::env;
use std::path::PathBuf;
use std::process::Command;

// Compiles the C shim against the public C header (no external build crates needed).
fn main() {
    println!("cargo::rustc-check-cfg=cfg(dcp_verif)");
    println!("cargo:rerun-if-changed=src/shim.c");
    println!("cargo:rerun-if-changed=/repo/include/dcv_color_primitives.h");
    if env::var_os("CARGO_FEATURE_CAPI").is_none() {
        return;
    }
    let out = PathBuf::from(env::var("OUT_DIR").unwrap());
    let (obj, lib) = (out.join("shim.o"), out.join("libdcpshim.a"));
    let ok = |c: &mut Command| c.status().map(|s| s.success()).unwrap_or(false);
    let mut cc = Command::new("cc");
    if env::var("CARGO_CFG_TARGET_POINTER_WIDTH").is_ok_and(|w| w == "32") {
        // no 32-bit development files: a list of missing functions is all that headers want
        std::fs::create_dir_all(out.join("gnu")).unwrap();
        std::fs::write(out.join("gnu/stubs-32.h"), "").unwrap();
        cc.args(["-m32", "-fno-stack-protector"]).arg("-I").arg(&out).args(["-idirafter", "/usr/include/x86_64-linux-gnu"]);
    }
    assert!(
        ok(cc.args(["-O1", "-g", "-fPIC", "-I/repo/include", "-c", "src/shim.c", "-o"]).arg(&obj)),
        "C shim does not compile against the public header"
    );
    let _ = std::fs::remove_file(&lib);
    assert!(ok(Command::new("ar").arg("crs").arg(&lib).arg(&obj)), "ar");
    println!("cargo:rustc-link-search=native={}", out.display());
    println!("cargo:rustc-link-lib=static=dcpshim");
}
