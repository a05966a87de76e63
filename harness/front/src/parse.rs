//! {"t": source, "want": ["ast","lex","fmt"], "fmts": [[width, indent, ...]]} -> syntax tree in post-order, tokens, formatted texts.
use crate::pool::guarded;
use cairo_m_compiler_parser::lexer::TokenType;
use cairo_m_compiler_parser::parser::*;
use cairo_m_compiler_semantic::db::SemanticDatabaseImpl;
use cairo_m_compiler_semantic::File;
use chumsky::span::SimpleSpan;
use logos::Logos;
use serde_json::{json, Value};

pub struct Dump(pub Vec<Value>);
type Sp = SimpleSpan<usize>;
impl Dump {
    fn n(&mut self, k: &str, at: String, c: usize, s: Option<Sp>) {
        match s { Some(s) => self.0.push(json!([k, at, c, s.start, s.end])), None => self.0.push(json!([k, at, c])) }
    }
    fn nm(&mut self, s: &Spanned<String>) { self.n("nm", s.value().clone(), 0, Some(s.span())) }
    fn num(&mut self, s: &Spanned<u64>) { self.n("num", s.value().to_string(), 0, Some(s.span())) }
    fn ty(&mut self, t: &Spanned<TypeExpr>) {
        let sp = Some(t.span());
        match t.value() {
            TypeExpr::Named(n) => {
                if n.span() != t.span() { self.n("nm-span", String::new(), 0, Some(n.span())) }
                self.n("tn", n.value().to_string(), 0, sp)
            }
            TypeExpr::Pointer(i) => { self.ty(i); self.n("tp", String::new(), 1, sp) }
            TypeExpr::Tuple(v) => { for x in v { self.ty(x) } self.n("tt", String::new(), v.len(), sp) }
            TypeExpr::FixedArray { element_type, size } => { self.ty(element_type); self.num(size); self.n("ta", String::new(), 2, sp) }
        }
    }
    fn ex(&mut self, e: &Spanned<Expression>) {
        let sp = Some(e.span());
        match e.value() {
            Expression::Literal(v, s) => self.n("lit", format!("{v}{}", s.clone().unwrap_or_default()), 0, sp),
            Expression::BooleanLiteral(b) => self.n("bool", b.to_string(), 0, sp),
            Expression::Identifier(s) => {
                if s.span() != e.span() { self.n("nm-span", String::new(), 0, Some(s.span())) }
                self.n("id", s.value().clone(), 0, sp)
            }
            Expression::UnaryOp { op, expr } => { self.ex(expr); self.n("un", op.to_string(), 1, sp) }
            Expression::BinaryOp { op, left, right } => { self.ex(left); self.ex(right); self.n("bin", op.to_string(), 2, sp) }
            Expression::FunctionCall { callee, args } => { self.ex(callee); for a in args { self.ex(a) } self.n("call", String::new(), 1 + args.len(), sp) }
            Expression::MemberAccess { object, field } => { self.ex(object); self.nm(field); self.n("mem", String::new(), 2, sp) }
            Expression::IndexAccess { array, index } => { self.ex(array); self.ex(index); self.n("idx", String::new(), 2, sp) }
            Expression::StructLiteral { name, fields } => {
                self.nm(name);
                for (n, v) in fields { self.nm(n); self.ex(v) }
                self.n("slit", String::new(), 1 + 2 * fields.len(), sp)
            }
            Expression::Tuple(v) => { for x in v { self.ex(x) } self.n("tup", String::new(), v.len(), sp) }
            Expression::TupleIndex { tuple, index } => { self.ex(tuple); self.n("tidx", index.to_string(), 1, sp) }
            Expression::ArrayLiteral(v) => { for x in v { self.ex(x) } self.n("arr", String::new(), v.len(), sp) }
            Expression::ArrayRepeat { element, count } => { self.ex(element); self.num(count); self.n("rep", String::new(), 2, sp) }
            Expression::Cast { expr, target_type } => { self.ex(expr); self.ty(target_type); self.n("cast", String::new(), 2, sp) }
            Expression::New { elem_type, count } => { self.ty(elem_type); self.ex(count); self.n("new", String::new(), 2, sp) }
            Expression::Parenthesized(i) => { self.ex(i); self.n("par", String::new(), 1, sp) }
        }
    }
    fn pat(&mut self, p: &Pattern) {
        match p {
            Pattern::Identifier(s) => self.nm(s),
            Pattern::Tuple(v) => { for x in v { self.pat(x) } self.n("pt", String::new(), v.len(), None) }
        }
    }
    fn cst(&mut self, c: &ConstDef, sp: Option<Sp>) {
        self.nm(&c.name);
        if let Some(t) = &c.ty { self.ty(t) }
        self.ex(&c.value);
        self.n("const", String::new(), 2 + c.ty.is_some() as usize, sp)
    }
    fn st(&mut self, s: &Spanned<Statement>) {
        let sp = Some(s.span());
        let e = String::new();
        match s.value() {
            Statement::Let { pattern, statement_type, value } => {
                self.pat(pattern);
                if let Some(t) = statement_type { self.ty(t) }
                self.ex(value);
                self.n("let", e, 2 + statement_type.is_some() as usize, sp)
            }
            Statement::Const(c) => self.cst(c, sp),
            Statement::Assignment { lhs, rhs } => { self.ex(lhs); self.ex(rhs); self.n("asg", e, 2, sp) }
            Statement::Return { value } => { if let Some(v) = value { self.ex(v) } self.n("ret", e, value.is_some() as usize, sp) }
            Statement::If { condition, then_block, else_block } => {
                self.ex(condition); self.st(then_block);
                if let Some(b) = else_block { self.st(b) }
                self.n("if", e, 2 + else_block.is_some() as usize, sp)
            }
            Statement::Expression(x) => { self.ex(x); self.n("es", e, 1, sp) }
            Statement::Block(v) => { for x in v { self.st(x) } self.n("blk", e, v.len(), sp) }
            Statement::Loop { body } => { self.st(body); self.n("loop", e, 1, sp) }
            Statement::While { condition, body } => { self.ex(condition); self.st(body); self.n("while", e, 2, sp) }
            Statement::For { init, condition, step, body } => { self.st(init); self.ex(condition); self.st(step); self.st(body); self.n("for", e, 4, sp) }
            Statement::Break => self.n("break", e, 0, sp),
            Statement::Continue => self.n("continue", e, 0, sp),
        }
    }
    pub fn module(&mut self, m: &ParsedModule) {
        for i in m.items() {
            match i {
                TopLevelItem::Function(f) => {
                    let d = f.value();
                    self.nm(&d.name);
                    for p in &d.params { self.nm(&p.name); self.ty(&p.type_expr) }
                    let r = &d.return_type;
                    if r.span() == SimpleSpan::from(0..0) { self.n("tt", String::new(), 0, None) } else { self.ty(r) }
                    for s in &d.body { self.st(s) }
                    self.n("fn", d.params.len().to_string(), 2 + 2 * d.params.len() + d.body.len(), Some(f.span()))
                }
                TopLevelItem::Struct(s) => {
                    let d = s.value();
                    self.nm(&d.name);
                    for (n, t) in &d.fields { self.nm(n); self.ty(t) }
                    self.n("struct", String::new(), 1 + 2 * d.fields.len(), Some(s.span()))
                }
                TopLevelItem::Const(c) => self.cst(c.value(), Some(c.span())),
                TopLevelItem::Use(u) => {
                    let d = u.value();
                    for p in &d.path { self.nm(p) }
                    let (at, k) = match &d.items {
                        UseItems::Single(n) => { self.nm(n); ("single".to_string(), 1) }
                        UseItems::List(v) => { for n in v { self.nm(n) } (format!("list{}", d.path.len()), v.len()) }
                    };
                    self.n("use", at, d.path.len() + k, Some(u.span()))
                }
            }
        }
        self.n("mod", String::new(), m.items().len(), None)
    }
}

pub fn ast(db: &SemanticDatabaseImpl, t: &str) -> Value {
    let f = File::new(db, t.to_string(), "f.cm".to_string());
    let o = cairo_m_compiler_parser::parse_file(db, f);
    let mut d = Dump(vec![]);
    if o.diagnostics.is_empty() { d.module(&o.module) }
    json!({"ok": o.diagnostics.is_empty(), "items": o.module.items().len(), "n": d.0,
           "diag": o.diagnostics.iter().map(|d| json!([format!("{:?}", d.code), d.message, d.span.start, d.span.end, d.file_path])).collect::<Vec<_>>()})
}
pub fn lex(t: &str) -> Value {
    let v: Vec<Value> = TokenType::lexer(t).spanned().map(|(r, s)| match r {
        Ok(k) => {
            let name = format!("{k:?}");
            let name = name.split(['(', ' ', '{']).next().unwrap().to_string();
            match k {
                TokenType::LiteralNumber(l) => json!([name, s.start, s.end, l.value.to_string(), l.suffix]),
                TokenType::Identifier(i) => json!([name, s.start, s.end, i]),
                _ => json!([name, s.start, s.end, format!("{k}")]),
            }
        }
        Err(e) => {
            let n = format!("{e:?}");
            json!(["ERR", s.start, s.end, if n.starts_with("InvalidNumber") { "num" } else { "char" }])
        }
    }).collect();
    json!(v)
}
pub fn fmt(db: &SemanticDatabaseImpl, t: &str, c: &Value) -> Value {
    let f = File::new(db, t.to_string(), "f.cm".to_string());
    let mut cfg = cairo_m_formatter::FormatterConfig::default();
    if let Some(w) = c.get("width").and_then(|v| v.as_u64()) { cfg.max_width = w as u16 as _; }
    if let Some(w) = c.get("indent").and_then(|v| v.as_u64()) { cfg.indent_width = w as u8 as _; }
    json!(cairo_m_formatter::format_source_file(db, f, &cfg))
}
pub fn case(c: &Value) -> Value {
    let t = c["t"].as_str().unwrap();
    let want: Vec<&str> = c["want"].as_array().unwrap().iter().map(|v| v.as_str().unwrap()).collect();
    let db = SemanticDatabaseImpl::default();
    let mut o = json!({});
    for w in want {
        let v = match w {
            "ast" => guarded(|| ast(&db, t)),
            "lex" => guarded(|| json!({"v": lex(t)})),
            "fmt" => json!(c["fmts"].as_array().unwrap().iter().map(|f| guarded(|| {
                let a = fmt(&db, t, f);
                let s = a.as_str().unwrap();
                // the result, formatted once more, and its tree and tokens
                let b = fmt(&db, s, f);
                json!({"a": a, "again": b == a, "b": if b == a { Value::Null } else { b }, "ast": ast(&db, s), "lex": lex(s)})
            })).collect::<Vec<_>>()),
            _ => panic!("want {w}"),
        };
        o[w] = v;
    }
    o
}
