//! JSONL in, JSONL out, one case per line. Cases run in child processes (the same program): a panic is data, and
//! so is a child that dies or does not answer in time; what the programs under test print goes nowhere.
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::{atomic::{AtomicUsize, Ordering}, Arc, Mutex};

thread_local! { static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
extern "C" {
    fn dup(fd: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; fn open(p: *const std::ffi::c_char, flags: i32, ...) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32; fn alarm(s: u32) -> u32;
}
pub fn guarded<F: FnOnce() -> Value>(f: F) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into());
            json!({"panic": m, "at": LAST.with(|l| l.borrow().clone())})
        }
    }
}
fn child(f: fn(&Value) -> Value, limit: u32) {
    let gb = 3u64;
    unsafe { setrlimit(9, &[gb << 30, gb << 30]); }
    let mut real = unsafe { let fd = dup(1); let null = open(b"/dev/null\0".as_ptr() as *const _, 1); dup2(null, 1); use std::os::fd::FromRawFd; std::fs::File::from_raw_fd(fd) };
    std::panic::set_hook(Box::new(|i| { let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default(); LAST.with(|c| *c.borrow_mut() = l); }));
    let t = std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
        for line in std::io::stdin().lock().lines() {
            let c: Value = serde_json::from_str(&line.unwrap()).expect("case json");
            unsafe { alarm(limit); }
            let r = guarded(|| f(&c));
            unsafe { alarm(0); }
            let mut s = serde_json::to_string(&r).unwrap(); s.push('\n');
            real.write_all(s.as_bytes()).unwrap();
        }
    }).unwrap();
    t.join().unwrap();
}
pub fn run(f: fn(&Value) -> Value) {
    let limit = std::env::var("VT_CASE_S").ok().and_then(|s| s.parse().ok()).unwrap_or(10u32);
    if std::env::var("VT_CHILD").is_ok() { return child(f, limit); }
    let lines: Arc<Vec<String>> = Arc::new(std::io::stdin().lock().lines().map(|l| l.unwrap()).filter(|l| !l.trim().is_empty()).collect());
    let next = Arc::new(AtomicUsize::new(0));
    let dead = Arc::new(AtomicUsize::new(0));
    let out = Arc::new(Mutex::new(std::io::BufWriter::new(std::io::stdout())));
    let n: usize = std::env::var("VT_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let mut hs = vec![];
    for _ in 0..n {
        let (lines, next, out, dead) = (lines.clone(), next.clone(), out.clone(), dead.clone());
        hs.push(std::thread::spawn(move || {
            let start = || Command::new(std::env::current_exe().unwrap()).args(std::env::args().skip(1)).env("VT_CHILD", "1")
                .stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
            let mut p = start(); let mut rd = BufReader::new(p.stdout.take().unwrap());
            loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= lines.len() { break; }
                let mut ans = String::new();
                let sent = dead.load(Ordering::Relaxed) < 40 && writeln!(p.stdin.as_mut().unwrap(), "{}", lines[i]).is_ok();
                if sent { let _ = rd.read_line(&mut ans); }
                let mut r: Value = if ans.ends_with('\n') { serde_json::from_str(&ans).unwrap() }
                    else if dead.load(Ordering::Relaxed) >= 40 { json!({"crash": "too many cases died already"}) }
                    else {
                        dead.fetch_add(1, Ordering::Relaxed);
                        drop(p.stdin.take());
                        let st = p.wait().map(|s| s.to_string()).unwrap_or_default();
                        let mut e = String::new(); if let Some(mut x) = p.stderr.take() { let _ = x.read_to_string(&mut e); }
                        p = start(); rd = BufReader::new(p.stdout.take().unwrap());
                        json!({"crash": format!("{st} {}", e.chars().take(300).collect::<String>())})
                    };
                if let Value::Object(m) = &mut r { m.insert("i".into(), json!(i)); }
                let s = serde_json::to_string(&r).unwrap();
                let mut o = out.lock().unwrap();
                o.write_all(s.as_bytes()).unwrap(); o.write_all(b"\n").unwrap();
            }
            drop(p.stdin.take()); let _ = p.wait();
        }));
    }
    for h in hs { h.join().unwrap(); }
    out.lock().unwrap().flush().unwrap();
}
