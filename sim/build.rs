//! Builds the C client from the published header, if there is a C compiler.
use std::path::Path;
use std::process::Command;

fn cc(out: &Path, src: &str) -> bool {
    let o = out.join("client.o");
    Command::new("gcc").args(&["-O1", "-fPIC", "-Werror=implicit-function-declaration", "-I/repo/ffi/src/include", "-c", src, "-o"]).arg(&o)
        .output().map(|x| x.status.success()).unwrap_or(false)
}
fn main() {
    println!("cargo:rerun-if-env-changed=VERIF_CUT");
    if std::env::var_os("VERIF_CUT").is_some() { println!("cargo:rustc-cfg=plain"); }
    println!("cargo:rerun-if-changed=client/client.c");
    println!("cargo:rerun-if-changed=/repo/ffi/src/include/credential.h");
    if std::env::var("CARGO_FEATURE_C").is_err() { return; }
    let out = std::env::var("OUT_DIR").unwrap();
    let out = Path::new(&out);
    let empty = out.join("empty.c");
    std::fs::write(&empty, "#include <stdint.h>\n#include <stdlib.h>\nint vp_empty(void) { return 0; }\n").unwrap();
    if !cc(out, empty.to_str().unwrap()) { return; }
    if !cc(out, "client/client.c") { println!("cargo:rustc-cfg=client_broken"); return; }
    let lib = out.join("libvpclient.a");
    let _ = std::fs::remove_file(&lib);
    if !Command::new("ar").arg("crs").arg(&lib).arg(out.join("client.o")).status().map(|x| x.success()).unwrap_or(false) { return; }
    println!("cargo:rustc-link-search=native={}", out.display());
    println!("cargo:rustc-link-lib=static=vpclient");
    println!("cargo:rustc-cfg=client");
}
