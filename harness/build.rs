use std::fmt::Write;
fn main() {
    println!("cargo:rerun-if-changed=corpus");
    let root = std::env::var("CARGO_MANIFEST_DIR").unwrap() + "/corpus";
    let mut out = format!("const TEMPLATE: &str = include_str!({:?});\n", format!("{root}/template.xml"));
    for (name, dir) in [("PROJECTS", "projects"), ("BLOCKS", "blocks")] {
        let mut fs: Vec<_> = std::fs::read_dir(format!("{root}/{dir}")).unwrap().map(|x| x.unwrap().path()).collect();
        fs.sort();
        writeln!(out, "const {name}: &[(&str, &str)] = &[").unwrap();
        for f in fs { writeln!(out, "({:?}, include_str!({:?})),", f.file_stem().unwrap().to_str().unwrap(), f.to_str().unwrap()).unwrap(); }
        writeln!(out, "];").unwrap();
    }
    std::fs::write(std::env::var("OUT_DIR").unwrap() + "/corpus.rs", out).unwrap();
}
