//! Makes the command line tool a module: its inner comments and attributes go, and its main function becomes reachable.
fn main() {
    let p = "/repo/src/bin/layout.rs";
    println!("cargo:rerun-if-changed={}", p);
    let s = std::fs::read_to_string(p).unwrap_or_else(|_| "fn main() {}".to_string());
    let t: Vec<&str> = s.lines().filter(|l| !l.trim_start().starts_with("//!") && !l.trim_start().starts_with("#![")).collect();
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(out + "/cli.rs", t.join("\n") + "\npub fn run() {\n    main();\n}\n").unwrap();
}
