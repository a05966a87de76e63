//! JSONL in, JSONL out, one case per line, several threads; a panic of the code under test is data.
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{atomic::{AtomicUsize, Ordering}, Arc, Mutex};

thread_local! { static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

pub fn guarded<F: FnOnce() -> Value>(f: F) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            let loc = LAST.with(|l| l.borrow().clone());
            json!({"panic": m, "at": loc})
        }
    }
}

pub fn run<F: Fn(&Value) -> Value + Send + Sync + 'static>(f: F) {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|c| *c.borrow_mut() = l);
    }));
    let lines: Arc<Vec<String>> = Arc::new(std::io::stdin().lock().lines().map(|l| l.unwrap()).filter(|l| !l.trim().is_empty()).collect());
    let next = Arc::new(AtomicUsize::new(0));
    let f = Arc::new(f);
    let out = Arc::new(Mutex::new(std::io::BufWriter::new(std::io::stdout())));
    let n: usize = std::env::var("VT_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let mut hs = vec![];
    for _ in 0..n {
        let (lines, next, f, out) = (lines.clone(), next.clone(), f.clone(), out.clone());
        hs.push(std::thread::Builder::new().stack_size(256 << 20).spawn(move || loop {
            let i = next.fetch_add(1, Ordering::Relaxed);
            if i >= lines.len() { break; }
            let c: Value = serde_json::from_str(&lines[i]).expect("case json");
            let mut r = guarded(|| f(&c));
            if let Value::Object(m) = &mut r { m.insert("i".into(), json!(i)); }
            let s = serde_json::to_string(&r).unwrap();
            let mut o = out.lock().unwrap();
            o.write_all(s.as_bytes()).unwrap();
            o.write_all(b"\n").unwrap();
        }).unwrap());
    }
    for h in hs { h.join().unwrap(); }
    out.lock().unwrap().flush().unwrap();
}
