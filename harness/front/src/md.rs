//! {"md": text | "path": file, "run": bool} -> the tests extracted from a markdown file, and the snapshots of a runner.
use cairo_m_test_utils::mdtest::{discover_markdown_files, extract_all_tests, extract_tests, MdTest, MdTestRunner};
use crate::pool::guarded;
use serde_json::{json, Value};
fn dump(t: &MdTest) -> Value {
    json!({"name": t.name, "src": t.cairo_source, "rust": t.rust_source, "files": t.files.len(), "file": t.location.file,
        "expected": t.metadata.expected_output, "error": t.metadata.expected_error, "rust-equiv": t.metadata.rust_equiv, "tags": t.metadata.tags, "ignore": t.metadata.ignore,
        "cfg": t.config.as_ref().map(|c| json!([c.mdtest.timeout, c.mdtest.max_steps, c.compiler.optimization_level]))})
}
pub fn case(c: &Value) -> Value {
    if c.get("all").is_some() {
        let all: Vec<Value> = extract_all_tests().unwrap().iter().map(|(p, t)| json!([p.to_string_lossy(), t.iter().map(dump).collect::<Vec<_>>()])).collect();
        return json!({"files": discover_markdown_files().iter().map(|p| p.to_string_lossy().to_string()).collect::<Vec<_>>(), "all": all});
    }
    let dir = tempfile::tempdir().unwrap();
    let p = match c.get("path") { Some(p) => p.as_str().unwrap().into(), None => dir.path().join("t.md") };
    if let Some(m) = c.get("md") { std::fs::write(&p, m.as_str().unwrap()).unwrap(); }
    if let Some(b) = c.get("bytes") { std::fs::write(&p, b.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect::<Vec<_>>()).unwrap(); }
    let ex = guarded(|| match extract_tests(&p) { Ok(t) => json!({"v": t.iter().map(dump).collect::<Vec<_>>()}), Err(e) => json!({"err": e.to_string()}) });
    let run = if ex.get("v").is_some() && c["run"] == true { guarded(|| {
        let r = MdTestRunner::new("Phase", |s: &str, n: &str| if s.contains("fail") { Err(format!("no {n}")) } else { Ok(format!("did {n}\n{s}")) });
        json!({"v": r.run_file(&p).iter().map(|s| json!([s.name, s.content, s.suffix])).collect::<Vec<_>>()})
    }) } else { Value::Null };
    json!({"ex": ex, "run": run, "at": p.to_string_lossy()})
}
