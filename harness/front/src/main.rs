mod util;
mod pool;
mod analyze;
mod hist;
mod parse;
mod diag;
mod md;
mod proj;
use std::io::Read;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "probe" => {
            // modules on stdin, separated by lines "//// name"
            let mut s = String::new();
            std::io::stdin().read_to_string(&mut s).unwrap();
            let mut mods: Vec<(String, String)> = vec![];
            for l in s.lines() {
                if let Some(n) = l.strip_prefix("//// ") { mods.push((n.into(), String::new())); continue; }
                if mods.is_empty() { mods.push(("main".into(), String::new())); }
                let b = &mut mods.last_mut().unwrap().1; b.push_str(l); b.push('\n');
            }
            for (n, t) in &mods {
                println!("== fmt {n}\n{}", util::format(t));
            }
            for d in util::diagnose(&mods) { println!("{d:?}"); }
        }
        "diag" => pool::run(diag::case),
        "load" => pool::run(proj::load),
        "proj" => pool::run(proj::case),
        "md" => pool::run(md::case),
        "hist" => pool::run(hist::case),
        "parse" => pool::run(parse::case),
        "analyze" => pool::run(analyze::case),
        _ => panic!("unknown command"),
    }
}
