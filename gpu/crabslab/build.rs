fn main() {
    println!("cargo:rustc-cfg=target_arch=\"spirv\"");
    println!("cargo:rerun-if-changed=build.rs");
}
