fn main() {
    // main.rs as it is, reachable from outside
    println!("cargo:rerun-if-changed=/repo/src/main.rs");
    println!("cargo:rerun-if-changed=build.rs");
    let s = std::fs::read_to_string("/repo/src/main.rs").expect("main.rs");
    // inner attributes are not allowed in an included file
    let mut t = String::new();
    for l in s.lines() {
        if l.trim_start().starts_with("#![") || l.trim_start().starts_with("//!") { t.push('\n'); continue; }
        t.push_str(l);
        t.push('\n');
    }
    t.push_str("\npub fn __sim_run() { let _ = main(); }\n");
    std::fs::write(format!("{}/server_main.rs", std::env::var("OUT_DIR").unwrap()), t).unwrap();
}
