use std::collections::HashMap;
use std::path::PathBuf;
use cairo_m_compiler_diagnostics::Diagnostic;
use cairo_m_compiler_semantic::db::{project_validate_semantics, Crate, SemanticDatabaseImpl};
use cairo_m_compiler_semantic::File;

pub fn mk_crate(db: &SemanticDatabaseImpl, mods: &[(String, String)]) -> Crate {
    let mut m = HashMap::new();
    for (n, t) in mods {
        m.insert(n.clone(), File::new(db, t.clone(), format!("{n}.cm")));
    }
    Crate::new(db, m, mods[0].0.clone(), PathBuf::from("."), "vcrate".to_string())
}
pub fn diagnose(mods: &[(String, String)]) -> Vec<Diagnostic> {
    let db = SemanticDatabaseImpl::default();
    let c = mk_crate(&db, mods);
    project_validate_semantics(&db, c).all().to_vec()
}
pub fn format(t: &str) -> String {
    let db = SemanticDatabaseImpl::default();
    let f = File::new(&db, t.to_string(), "f.cm".to_string());
    cairo_m_formatter::format_source_file(&db, f, &Default::default())
}
