// Embeds the repository's templates, so that the symbolic build renders the current ones.
use std::{fs, path::Path};
fn walk(d: &Path, out: &mut Vec<String>) {
    if let Ok(rd) = fs::read_dir(d) {
        let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        v.sort();
        for p in v { if p.is_dir() { walk(&p, out) } else { out.push(p.to_string_lossy().into_owned()) } }
    }
}
fn main() {
    let root = "/repo/src/tool/templates";
    println!("cargo:rerun-if-changed={}", root);
    let mut f = vec![];
    walk(Path::new(root), &mut f);
    let mut s = String::from("pub static FILES: &[(&str, &str)] = &[\n");
    for p in &f { println!("cargo:rerun-if-changed={}", p); s += &format!("({:?}, include_str!({:?})),\n", p.strip_prefix("/repo/").unwrap(), p); }
    s += "];\n";
    fs::write(Path::new(&std::env::var("OUT_DIR").unwrap()).join("files.rs"), s).unwrap();
}
