//! Mechanical extraction of the real contract source into the Verus subset.
//! Usage: extract CONFIG.json  (prints JSON on stdout)
mod load;
mod tx;
use serde_json::{json, Value};

fn main() {
    let cfg: Value = serde_json::from_str(&std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap()).unwrap();
    let mut db = load::Db::new();
    load::load_crate(&mut db, cfg["root"].as_str().unwrap(), &cfg["skip_modules"]);
    let out = tx::run(&db, &cfg);
    println!("{}", serde_json::to_string(&json!(out)).unwrap());
}
