fn main() {
    let o = std::env::var("OUT_DIR").unwrap();
    let obj = format!("{o}/rt.o");
    let ok = std::process::Command::new("gcc")
        .args(["-O2", "-fno-builtin", "-fno-stack-protector", "-ftls-model=local-exec", "-c", "rt/rt.c", "-o", &obj])
        .status()
        .expect("gcc");
    assert!(ok.success(), "gcc rt.c");
    println!("cargo:rustc-link-arg={obj}");
    println!("cargo:rustc-link-arg=-ldl");
    println!("cargo:rerun-if-changed=rt/rt.c");
    println!("cargo:rerun-if-changed=build.rs");
}
