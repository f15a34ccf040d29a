// Lists every contract (`pub fn rq_*` / `rqb_*`) of this crate for the runner.
use std::{env, fs, path::Path};
fn main() {
    let mut out = String::from("pub fn registry() -> Vec<(&'static str, fn())> { vec![\n");
    let mut files: Vec<_> = fs::read_dir("src").unwrap().map(|e| e.unwrap().path()).collect();
    files.sort();
    for p in files {
        let m = p.file_stem().unwrap().to_str().unwrap().to_string();
        if m == "main" { continue; }
        let t = fs::read_to_string(&p).unwrap();
        let mut add = |n: &str| out.push_str(&format!("(\"{n}\", crate::{}{n} as fn()),\n", if m == "lib" { String::new() } else { format!("{m}::") }));
        for l in t.lines() {
            let l = l.trim_start();
            if l.starts_with("//") { continue; }
            let mut rest = l;
            // names handed to macros stand on lines of their own
            while let Some(i) = rest.find("rq") {
                let s = &rest[i..];
                let n: String = s.chars().take_while(|c| c.is_ascii_alphanumeric() || *c == '_').collect();
                let ok = i == 0 || !rest.as_bytes()[i - 1].is_ascii_alphanumeric() && rest.as_bytes()[i - 1] != b'_';
                if ok && (n.starts_with("rq_") || n.starts_with("rqb_")) { add(&n); }
                rest = &s[n.len().max(1)..];
            }
        }
    }
    out.push_str("] }\n");
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("registry.rs"), out).unwrap();
    println!("cargo:rerun-if-changed=src");
}
