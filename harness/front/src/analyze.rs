//! Analyse a set of modules with a fresh database and project what the model talks about.
use cairo_m_compiler_diagnostics::Diagnostic;
use cairo_m_compiler_parser::parser::Expression;
use cairo_m_compiler_semantic::db::{module_semantic_index, project_validate_semantics, Crate, SemanticDatabaseImpl};
use cairo_m_compiler_semantic::type_resolution::{definition_semantic_type, expression_semantic_type};
use cairo_m_compiler_semantic::semantic_index::DefinitionId;
use cairo_m_compiler_semantic::types::TypeId;
use cairo_m_compiler_semantic::File;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::path::PathBuf;

pub fn diag_json(d: &Diagnostic) -> Value {
    json!([format!("{:?}", d.code), format!("{:?}", d.severity), d.file_path, d.span.start, d.span.end, d.message,
        d.related_spans.iter().map(|(s, m)| json!([s.start, s.end, m])).collect::<Vec<_>>()])
}

pub fn mods_of(c: &Value) -> Vec<(String, String)> {
    c["mods"].as_array().unwrap().iter()
        .map(|m| (m[0].as_str().unwrap().to_string(), m[1].as_str().unwrap().to_string())).collect()
}

pub fn mk(db: &SemanticDatabaseImpl, mods: &[(String, String)], entry: &str) -> Crate {
    let mut m = HashMap::new();
    for (n, t) in mods { m.insert(n.clone(), File::new(db, t.clone(), format!("{n}.cm"))); }
    Crate::new(db, m, entry.to_string(), PathBuf::from("."), "vcrate".to_string())
}

pub fn facts(db: &SemanticDatabaseImpl, krate: Crate, want: &Value) -> Value {
    let w = |k: &str| want.as_array().map(|a| a.iter().any(|x| x == k)).unwrap_or(false);
    let mut out = serde_json::Map::new();
    if w("diag") {
        let all = project_validate_semantics(db, krate);
        out.insert("diag".into(), json!(all.all().iter().map(diag_json).collect::<Vec<_>>()));
    }
    let mut names: Vec<String> = krate.modules(db).keys().cloned().collect();
    names.sort();
    if w("lits") {
        let mut m = serde_json::Map::new();
        for n in &names {
            let Ok(ix) = module_semantic_index(db, krate, n.clone()) else { continue };
            let v: Vec<Value> = ix.all_expressions().filter_map(|(_, e)| match &e.ast_node {
                Expression::Literal(v, _) => Some(json!([e.ast_span.start, v.to_string()])),
                _ => None,
            }).collect();
            m.insert(n.clone(), json!(v));
        }
        out.insert("lits".into(), Value::Object(m));
    }
    if w("res") || w("types") {
        let mut res = serde_json::Map::new();
        let mut tys = serde_json::Map::new();
        let mut dtys = serde_json::Map::new();
        for n in &names {
            let file = krate.modules(db)[n];
            let Ok(ix) = module_semantic_index(db, krate, n.clone()) else { continue };
            if w("res") {
                let mut v = vec![];
                for (id, e) in ix.all_expressions() {
                    if let Expression::Identifier(name) = &e.ast_node {
                        let d = ix.definition_for_identifier_expr(id).map(|(_, d)| d.name_span.start as i64)
                            .or_else(|| ix.resolve_name_at_position(name.value(), e.scope_id, name.span()).map(|(_, d)| d.name_span.start as i64))
                            .unwrap_or(-1);
                        v.push(json!([name.span().start, d]));
                    }
                }
                res.insert(n.clone(), json!(v));
            }
            if w("types") {
                let mut v = vec![];
                for (id, e) in ix.all_expressions() {
                    let t = expression_semantic_type(db, krate, file, id, None);
                    v.push(json!([e.ast_span.start, e.ast_span.end, TypeId::format_type(db, t)]));
                }
                tys.insert(n.clone(), json!(v));
                let mut v = vec![];
                for (id, d) in ix.all_definitions() {
                    let t = definition_semantic_type(db, krate, DefinitionId::new(db, file, id));
                    v.push(json!([d.name_span.start, d.name, TypeId::format_type(db, t)]));
                }
                dtys.insert(n.clone(), json!(v));
            }
        }
        if w("res") { out.insert("res".into(), Value::Object(res)); }
        if w("types") { out.insert("types".into(), Value::Object(tys)); out.insert("dtypes".into(), Value::Object(dtys)); }
    }
    Value::Object(out)
}

pub fn case(c: &Value) -> Value {
    let mods = mods_of(c);
    let db = SemanticDatabaseImpl::default();
    let entry = c["entry"].as_str().map(|s| s.to_string()).unwrap_or_else(|| mods[0].0.clone());
    let k = mk(&db, &mods, &entry);
    facts(&db, k, &c["want"])
}
