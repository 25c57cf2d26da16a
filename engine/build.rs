fn main() {
    let d = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib";
    if std::env::var("SYMLLVM_SYSTEM_Z3").is_err() && std::path::Path::new(d).join("libz3.so").exists() {
        println!("cargo:rustc-link-search=native={}", d);
        println!("cargo:rustc-link-arg=-Wl,-rpath,{}", d);
    }
    println!("cargo:rustc-link-lib=dylib=z3");
}
