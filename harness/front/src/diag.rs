//! {"mk","init":[d],"ops":[..]} -> the answers of a collection after each operation;
//! {"t": text, "d": d} -> the rendering of one diagnostic; {"ctors": true} -> the constructors.
use cairo_m_compiler_diagnostics::{build_diagnostic_message, Diagnostic, DiagnosticCode as C, DiagnosticCollection, DiagnosticSeverity as S, DiagnosticSink, VecSink};
use chumsky::span::SimpleSpan;
use crate::pool::guarded;
use serde_json::{json, Value};

const CODES: &[C] = &[C::LexicalError, C::SyntaxError, C::UnexpectedToken, C::UnexpectedEndOfFile, C::InvalidCharacter, C::UndeclaredVariable, C::UnusedVariable, C::DuplicateDefinition,
    C::UseBeforeDefinition, C::UnresolvedImport, C::DuplicateParameter, C::DuplicateStructField, C::DuplicatePatternIdentifier, C::UndeclaredType, C::UnresolvedModule, C::TypeMismatch,
    C::InvalidFieldAccess, C::InvalidIndexAccess, C::InvalidIndexType, C::InvalidStructLiteral, C::InvalidFunctionCall, C::InvalidAssignment, C::InvalidReturnType, C::InvalidTypeDefinition,
    C::InvalidAssignmentTarget, C::MissingReturnValue, C::TupleIndexOutOfBounds, C::InvalidTupleIndexAccess, C::AssignmentToConst, C::IndexOutOfBounds, C::TypeInferenceError,
    C::ConstArrayByPointer, C::UnreachableCode, C::MissingReturn, C::BreakOutsideLoop, C::ContinueOutsideLoop, C::InternalError];
fn code(n: &str) -> C { *CODES.iter().find(|c| format!("{c:?}") == n).expect("code") }
fn sp(v: &Value, i: usize) -> SimpleSpan<usize> { SimpleSpan::from(v[i].as_u64().unwrap() as usize..v[i + 1].as_u64().unwrap() as usize) }
fn mk(d: &Value) -> Diagnostic {
    let m = d["m"].as_str().unwrap().to_string();
    let c = code(d["c"].as_str().unwrap_or("SyntaxError"));
    let mut x = match d["s"].as_str().unwrap() { "e" => Diagnostic::error(c, m), "w" => Diagnostic::warning(c, m), "i" => Diagnostic::info(c, m), _ => { let mut x = Diagnostic::info(c, m); x.severity = S::Hint; x } };
    x = x.with_location(d["f"].as_str().unwrap().into(), sp(&d["at"], 0));
    for r in d["rel"].as_array().map(|a| a.as_slice()).unwrap_or(&[]) { x = x.with_related_span(d["f"].as_str().unwrap().into(), sp(r, 0), r[2].as_str().unwrap().into()) }
    x
}
fn dump(d: &Diagnostic) -> Value {
    let s = match d.severity { S::Error => "e", S::Warning => "w", S::Info => "i", S::Hint => "h" };
    json!({"s": s, "c": format!("{:?}", d.code), "m": d.message, "f": d.file_path, "at": [d.span.start, d.span.end],
        "rel": d.related_spans.iter().map(|(s, m)| json!([s.start, s.end, m])).collect::<Vec<_>>()})
}
fn all<'a>(i: impl IntoIterator<Item = &'a Diagnostic>) -> Vec<Value> { i.into_iter().map(dump).collect() }
fn state(c: &DiagnosticCollection) -> Value {
    json!({"all": all(c.all()), "iter": all(c.iter()), "into": c.clone().into_iter().map(|d| dump(&d)).collect::<Vec<_>>(), "err": all(c.errors()), "warn": all(c.warnings()),
        "has": c.has_errors(), "len": c.len(), "empty": c.is_empty(), "sum": c.summary(), "disp": c.to_string(),
        "eq": *c == DiagnosticCollection::new(c.all().to_vec()) && *c == DiagnosticCollection::from(c.all().to_vec())})
}
pub fn case(c: &Value) -> Value {
    if c.get("ctors").is_some() {
        let f = || "dir/a.cm".to_string(); let s = SimpleSpan::from(3..7);
        let n = |d: Diagnostic| dump(&d);
        return json!({"codes": CODES.iter().map(|c| json!([format!("{c:?}"), u32::from(*c)])).collect::<Vec<_>>(), "ctors": {
            "undeclared_variable": n(Diagnostic::undeclared_variable(f(), "x'y", s)), "undeclared_type": n(Diagnostic::undeclared_type(f(), "x'y", s)),
            "unused_variable": n(Diagnostic::unused_variable(f(), "x'y", s)), "duplicate_definition": n(Diagnostic::duplicate_definition(f(), "x'y", s)),
            "use_before_definition": n(Diagnostic::use_before_definition(f(), "x'y", s)), "unreachable_code": n(Diagnostic::unreachable_code(f(), "x'y", s)),
            "missing_return": n(Diagnostic::missing_return(f(), "x'y", s)), "break_outside_loop": n(Diagnostic::break_outside_loop(f(), s)),
            "continue_outside_loop": n(Diagnostic::continue_outside_loop(f(), s)), "lexical_error": n(Diagnostic::lexical_error(f(), "x'y".into(), s)),
            "syntax_error": n(Diagnostic::syntax_error(f(), "x'y".into(), s)), "unexpected_token": n(Diagnostic::unexpected_token(f(), "x'y", "z", s)),
            "unresolved_import": n(Diagnostic::unresolved_import(f(), "x'y", s)) }});
    }
    if let Some(t) = c.get("t") {
        let t = t.as_str().unwrap();
        let g = |f: &dyn Fn() -> String| guarded(|| json!({"v": f()}));
        let d = mk(&c["d"]); let two = DiagnosticCollection::new(vec![d.clone(), d.clone()]);
        return json!({"plain": g(&|| build_diagnostic_message(t, &d, false)), "color": g(&|| build_diagnostic_message(t, &d, true)), "with": g(&|| d.display_with_source(t)),
            "colw": g(&|| two.display_with_source(t)), "colp": g(&|| two.display_without_color(t)), "disp": d.to_string()});
    }
    let ds = |v: &Value| v.as_array().unwrap().iter().map(mk).collect::<Vec<_>>();
    let init = ds(&c["init"]);
    let mut out = vec![];
    if c["mk"] == "sink" {
        let s = VecSink::default();
        for d in init { s.push(d) }
        out.push(json!({"all": all(&s.diagnostics())}));
        for o in c["ops"].as_array().unwrap() { for d in ds(&o["ds"]) { s.push(d) } out.push(json!({"all": all(&s.diagnostics())})); }
        return json!({"st": out, "end": all(&s.into_diagnostics())});
    }
    let mut k = match c["mk"].as_str().unwrap() { "new" => DiagnosticCollection::new(init), "from" => init.into(), _ => { let mut k = DiagnosticCollection::default(); k.extend(init); k } };
    out.push(state(&k));
    for o in c["ops"].as_array().unwrap() {
        match o["op"].as_str().unwrap() { "add" => for d in ds(&o["ds"]) { k.add(d) }, "extend" => k.extend(ds(&o["ds"])), "self" => { let x = k.clone(); k.extend(x) } _ => k.sort() }
        out.push(state(&k));
    }
    json!({"st": out})
}
