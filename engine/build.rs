fn main() {
    // libz3.so (Debian libz3-dev) lives in the default library path.
    println!("cargo:rustc-link-lib=z3");
    println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
    println!("cargo:rerun-if-changed=build.rs");
}
