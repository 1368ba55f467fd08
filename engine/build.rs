fn main() {
    let dir = std::env::var("SX_Z3_DIR").unwrap_or("/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib".into());
    println!("cargo:rustc-link-search=native={}", dir);
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}", dir);
}
