use cairo_m_compiler_semantic::db::{project_validate_semantics, Crate, SemanticDatabaseImpl};
use cairo_m_compiler_semantic::File;
use std::collections::HashMap;
use std::path::PathBuf;
fn mk(db: &SemanticDatabaseImpl, mods: &[(&str, &str)]) -> Crate {
    let mut m = HashMap::new();
    for (n, t) in mods { m.insert(n.to_string(), File::new(db, t.to_string(), format!("{n}.cm"))); }
    Crate::new(db, m, mods[0].0.to_string(), PathBuf::from("."), "c".to_string())
}
/// "Code@start" of every diagnostic of the first module.
fn diags(mods: &[(&str, &str)]) -> Vec<String> {
    let mods: Vec<(String, String)> = mods.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let r: Vec<(&str, &str)> = mods.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
        let db = SemanticDatabaseImpl::default();
        let c = mk(&db, &r);
        let mut v: Vec<String> = project_validate_semantics(&db, c).all().iter()
            .map(|d| format!("{:?}@{}:{}", d.code, d.file_path, d.span.start)).collect();
        v.sort();
        v
    }).unwrap().join().unwrap()
}
fn expect<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) {
    if got != want { eprintln!("{what}: expected {want:?}, got {got:?}"); std::process::exit(1); }
}
