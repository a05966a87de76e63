//! Replay a history of edits, additions, removals, entry changes and queries on one long-lived database
//! and on delta trackers; after each query also ask a fresh database about the current sources.
use crate::analyze::{diag_json, facts, mk};
use cairo_m_compiler_semantic::db::{module_all_diagnostics, project_validate_semantics, Crate, SemanticDatabaseImpl};
use cairo_m_compiler_semantic::delta_diagnostics::DeltaDiagnosticsTracker;
use cairo_m_compiler_semantic::File;
use salsa::Setter;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::path::PathBuf;
use crate::pool::guarded;

fn diags(c: &cairo_m_compiler_diagnostics::DiagnosticCollection) -> Value { json!(c.all().iter().map(diag_json).collect::<Vec<_>>()) }

fn fresh(cur: &BTreeMap<String, String>, entry: &str) -> (SemanticDatabaseImpl, Crate) {
    let db = SemanticDatabaseImpl::default();
    let v: Vec<(String, String)> = cur.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    let k = mk(&db, &v, entry);
    (db, k)
}

pub fn case(c: &Value) -> Value {
    let mut db = SemanticDatabaseImpl::default();
    let mut entry = c["entry"].as_str().unwrap_or("main").to_string();
    let krate = Crate::new(&db, HashMap::new(), entry.clone(), PathBuf::from("."), "vcrate".to_string());
    let mut cur: BTreeMap<String, String> = BTreeMap::new();
    let mut files: HashMap<String, File> = HashMap::new();   // also of removed modules
    let mut trackers: HashMap<i64, DeltaDiagnosticsTracker> = HashMap::new();
    let mut out = vec![];
    for op in c["ops"].as_array().unwrap() {
        let m = op["m"].as_str().unwrap_or("").to_string();
        match op["op"].as_str().unwrap() {
            "set" => {
                let t = op["t"].as_str().unwrap().to_string();
                if cur.contains_key(&m) {
                    files[&m].set_text(&mut db).to(t.clone());
                } else {
                    let reuse = op["reuse"].as_bool().unwrap_or(false);
                    if reuse && files.contains_key(&m) {
                        files[&m].set_text(&mut db).to(t.clone());
                    } else {
                        let f = File::new(&db, t.clone(), format!("{m}.cm"));
                        files.insert(m.clone(), f);
                    }
                    let mut ms = krate.modules(&db).clone();
                    ms.insert(m.clone(), files[&m]);
                    krate.set_modules(&mut db).to(ms);
                }
                cur.insert(m, t);
            }
            "del" => {
                let mut ms = krate.modules(&db).clone();
                ms.remove(&m);
                krate.set_modules(&mut db).to(ms);
                cur.remove(&m);
            }
            "entry" => { entry = m.clone(); krate.set_entry_point(&mut db).to(m); }
            "q" => {
                let w = if op["want"].is_array() { &op["want"] } else { &c["want"] };
                let got = guarded(|| facts(&db, krate, w));
                let want = guarded(|| { let (fdb, fk) = fresh(&cur, &entry); facts(&fdb, fk, w) });
                out.push(json!({"got": got, "want": want}));
            }
            "qm" => {
                let got = guarded(|| diags(&module_all_diagnostics(&db, krate, m.clone())));
                let want = guarded(|| { let (fdb, fk) = fresh(&cur, &entry); diags(&module_all_diagnostics(&fdb, fk, m.clone())) });
                out.push(json!({"got": got, "want": want}));
            }
            "delta" => {
                let k = op["k"].as_i64().unwrap_or(0);
                let mut t = trackers.remove(&k).unwrap_or_default();
                let got = guarded(|| diags(&t.get_project_diagnostics(&db, krate)));
                trackers.insert(k, t);
                let want = guarded(|| { let (fdb, fk) = fresh(&cur, &entry); diags(&DeltaDiagnosticsTracker::new().get_project_diagnostics(&fdb, fk)) });
                let full = guarded(|| { let (fdb, fk) = fresh(&cur, &entry); diags(&project_validate_semantics(&fdb, fk)) });
                out.push(json!({"got": got, "want": want, "full": full}));
            }
            "new" => { trackers.remove(&op["k"].as_i64().unwrap_or(0)); }
            o => panic!("op {o}"),
        }
    }
    json!({"out": out})
}
