fn main() {
  // let dlsym() find the simulator's getrandom in the executable
  println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol=getrandom");
  println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol=getentropy");
  println!("cargo:rerun-if-changed=build.rs");
}
