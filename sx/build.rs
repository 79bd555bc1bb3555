fn main() {
	println!("cargo:rustc-link-lib=dylib=z3");
	println!("cargo:rerun-if-changed=build.rs");
}
