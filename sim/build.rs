use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{out}/simrt.o");
    let st = Command::new("gcc")
        .args(["-O2", "-g1", "-fno-omit-frame-pointer", "-c", "rt/simrt.c", "-o", &obj])
        .status()
        .expect("gcc");
    assert!(st.success());
    let stubs = format!("{out}/napi_stubs.o");
    assert!(Command::new("gcc").args(["-O1", "-c", "rt/napi_stubs.c", "-o", &stubs]).status().expect("gcc").success());
    println!("cargo:rerun-if-changed=rt/napi_stubs.c");
    println!("cargo:rustc-link-arg={stubs}");
    println!("cargo:rerun-if-changed=rt/simrt.c");
    println!("cargo:rustc-link-arg={obj}");
    println!("cargo:rustc-link-arg=-rdynamic");
    println!("cargo:rustc-link-arg=-ldl");
}
