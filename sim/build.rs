use std::{env, process::Command};
fn main() {
    let out = env::var("OUT_DIR").unwrap();
    let obj = format!("{out}/simrt.o");
    println!("cargo:rerun-if-changed=rt/simrt.c");
    println!("cargo:rerun-if-changed=rt/simrt.h");
    let st = Command::new("gcc").args(["-O2", "-Wall", "-fPIC", "-c", "rt/simrt.c", "-o", &obj]).status().unwrap();
    assert!(st.success());
    println!("cargo:rustc-link-arg={obj}");
}
