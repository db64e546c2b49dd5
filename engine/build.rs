fn main() {
    let d = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib";
    println!("cargo:rustc-link-search=native={}", d);
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}", d);
    println!("cargo:rustc-link-lib=dylib=z3");
}
