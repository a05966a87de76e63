//! A directory tree on disk, and what project discovery says from places in it. Run with VT_THREADS=1: the working directory is the process's.
use crate::pool::guarded;
use cairo_m_compiler_semantic::db::{crate_from_project, SemanticDatabaseImpl};
use cairo_m_project::{discover_project, discover_workspace, find_project_manifest, Project};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
/// The path below the root, without `.` and `..`.
fn rel(root: &Path, p: &Path) -> String {
    let mut n = PathBuf::new();
    for c in p.components() {
        match c { std::path::Component::CurDir => {} std::path::Component::ParentDir => { n.pop(); } c => n.push(c) }
    }
    match n.strip_prefix(root) { Ok(r) => r.to_string_lossy().to_string(), Err(_) => format!("!{}", p.display()) }
}
fn dump(root: &Path, p: &Project, all: &[PathBuf]) -> Value {
    let files = match p.source_files() { Ok(f) => f, Err(e) => return json!({"root": rel(root, &p.root_directory), "name": p.name, "files": Value::Null, "why": e.to_string()}) };
    let mut fs: Vec<Value> = files.iter().map(|f| json!([rel(root, f), p.module_name_from_path(f).map_err(|_| Value::Null).ok()])).collect();
    fs.sort_by_key(|v| v.to_string());
    json!({"root": rel(root, &p.root_directory), "src": rel(root, &p.source_directory()), "name": p.name, "cname": p.config.name, "version": p.config.version, "entry": p.config.entry_point,
        "files": fs, "contains": all.iter().filter(|f| p.contains_path(f)).map(|f| rel(root, f)).collect::<Vec<_>>()})
}
pub fn case(c: &Value) -> Value {
    let tmp = tempfile::tempdir().unwrap();
    let root = tmp.path().canonicalize().unwrap();
    let mut all = vec![];
    for t in c["tree"].as_array().unwrap() {
        let p = root.join(t[0].as_str().unwrap());
        match t[1].as_str().unwrap() {
            "dir" => std::fs::create_dir_all(&p).unwrap(),
            "bytes" => { std::fs::write(&p, [0x66u8, 0x6e, 0xff, 0xfe]).unwrap(); all.push(p); }
            _ => { std::fs::write(&p, t[2].as_str().unwrap().replace("@ROOT@", root.to_str().unwrap())).unwrap(); all.push(p); }
        }
    }
    let subst = |s: &str| PathBuf::from(s.replace("@ROOT@", root.to_str().unwrap()));
    let mut out = vec![];
    for q in c["queries"].as_array().unwrap() {
        std::env::set_current_dir(root.join(q["cwd"].as_str().unwrap())).unwrap();
        let start = subst(q["start"].as_str().unwrap());
        let v = guarded(|| {
            let m = match find_project_manifest(&start) { Ok(Some(p)) => json!(rel(&root, &p)), Ok(None) => Value::Null, Err(e) => json!({"err": e.to_string()}) };
            let d = match discover_project(&start) {
                Err(e) => return json!({"k": "err", "e": e.to_string(), "m": m}),
                Ok(None) => return json!({"k": "none", "m": m}),
                Ok(Some(p)) => p,
            };
            let mut v = dump(&root, &d, &all);
            v["k"] = json!("ok"); v["m"] = m;
            if q["crate"] == true {
                let db = SemanticDatabaseImpl::default();
                v["crate"] = match crate_from_project(&db, d) {
                    Err(e) => json!({"err": e.all().iter().map(|x| x.message.clone()).collect::<Vec<_>>()}),
                    Ok(k) => json!({"modules": k.modules(&db).iter().map(|(n, f)| json!([n, rel(&root, Path::new(f.file_path(&db))), f.text(&db)])).collect::<Vec<_>>(),
                        "main": k.entry_point(&db), "root": rel(&root, &k.root_dir(&db)), "name": k.name(&db)}),
                };
            }
            v
        });
        out.push(v);
    }
    let mut ws = vec![];
    for w in c["ws"].as_array().unwrap() {
        std::env::set_current_dir(root.join(w["cwd"].as_str().unwrap())).unwrap();
        let start = subst(w["start"].as_str().unwrap());
        ws.push(guarded(|| match discover_workspace(&start) {
            Err(e) => json!({"k": "err", "e": e.to_string()}),
            Ok(w) => {
                let mut ps: Vec<Value> = w.projects.values().map(|p| { let mut d = dump(&root, p, &[]); d["ids"] = json!(w.projects.len()); d }).collect();
                ps.sort_by_key(|v| v["root"].to_string());
                let names: Vec<Value> = w.name_to_id.iter().map(|(n, i)| json!([n, w.projects.get(i).map(|p| p.name.clone())])).collect();
                json!({"k": "ok", "projects": ps, "names": names})
            }
        }));
    }
    std::env::set_current_dir("/").unwrap();
    json!({"q": out, "ws": ws})
}
/// {"load": [path]} -> what a project directory gives when it is found and analysed
pub fn load(c: &Value) -> Value {
    let p = PathBuf::from(c["load"].as_str().unwrap());
    guarded(|| {
        let d = match discover_project(&p) { Ok(Some(d)) => d, Ok(None) => return json!({"err": "no project"}), Err(e) => return json!({"err": e.to_string()}) };
        let (name, root) = (d.name.clone(), d.root_directory.to_string_lossy().to_string());
        let db = SemanticDatabaseImpl::default();
        let k = match crate_from_project(&db, d) { Ok(k) => k, Err(e) => return json!({"err": e.all().iter().map(|x| x.message.clone()).collect::<Vec<_>>()}) };
        let diags: Vec<String> = cairo_m_compiler_semantic::db::project_validate_semantics(&db, k).all().iter().chain(cairo_m_compiler_semantic::db::project_parse_diagnostics(&db, k).all())
            .map(|d| format!("{:?} {:?} {}", d.severity, d.code, d.message)).collect();
        json!({"name": name, "root": root, "modules": k.modules(&db).keys().collect::<Vec<_>>(), "main": k.entry_point(&db), "diags": diags})
    })
}
