//! Mechanical translation of the macro-expanded dash7 crate into Verus input.
//! usage: xlate EXPANDED.rs CONTRACTS.json OUT.rs INDEX.json
//! The translation is documented, rule by rule, in /verif/DESIGN.md ("Extraction").
mod emit;
mod info;
mod rewrite;
mod inline;
mod iter;
mod mem;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[1]).expect("expanded source");
    let con: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("contracts")).expect("contracts json");
    let mut file = match syn::parse_file(&src) {
        Ok(f) => f,
        Err(e) => { eprintln!("xlate: cannot parse expansion: {e}"); std::process::exit(3) }
    };
    let mut info = info::Info::default();
    info.collect(&file.items, "");
    mem::run(&mut file);
    inline::run(&mut file, &con, &mut info);
    let (text, index) = emit::emit(&file, &con, &info);
    std::fs::write(&a[3], text).unwrap();
    std::fs::write(&a[4], serde_json::to_string_pretty(&index).unwrap()).unwrap();
}
