//! Recorded executions: one JSON object per line, spread over several files.
use crate::scalar::{Sc, Tol};
use std::fmt::Write as _;
use std::fs::File;
use std::io::{BufWriter, Write};

pub struct Log {
    files: Vec<BufWriter<File>>,
    cur: usize,
    scenarios: usize,
    pub lines: u64,
    judge: String,
}
pub fn vals<T: Sc>(v: &[T]) -> String {
    let mut s = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&x.js());
    }
    s.push(']');
    s
}
pub fn map<T: Sc>(m: &[(String, Vec<T>)]) -> String {
    let mut s = String::from("{");
    for (i, (k, v)) in m.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "\"{}\":{}", k, vals(v));
    }
    s.push('}');
    s
}
pub fn esc(s: &str) -> String {
    s.chars().filter(|c| !c.is_control() && *c != '"' && *c != '\\').take(200).collect()
}
impl Log {
    pub fn new(dir: &str, name: &str, files: usize, judge: &[String]) -> Log {
        std::fs::create_dir_all(dir).unwrap();
        Log {
            files: (0..files).map(|k| BufWriter::new(File::create(format!("{dir}/{name}.{k}.ndjson")).unwrap())).collect(),
            cur: 0,
            scenarios: 0,
            lines: 0,
            judge: judge.iter().map(|j| format!("\"{j}\"")).collect::<Vec<_>>().join(","),
        }
    }
    /// Starts a scenario; `settings` belong to the scalar type.
    pub fn begin(&mut self, t: &Tol, what: &str) {
        self.cur = self.scenarios % self.files.len();
        self.scenarios += 1;
        let j = self.judge.clone();
        self.line(&format!(
            "{{\"e\":\"begin\",\"what\":\"{}\",\"judge\":[{}],\"rel\":\"{}\",\"crel\":\"{}\",\"prec\":\"{}\",\"floor\":\"{}\",\"kmax\":\"{}\",\"clear\":{}}}",
            esc(what), j, t.rel, t.crel, t.prec, t.floor, t.kmax, what.starts_with("degenerate")
        ));
    }
    /// Carries out a scenario; a panic in the library outside of the recorded calls ends it, too.
    pub fn scenario(&mut self, f: impl FnOnce(&mut Log)) {
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(self))).is_err() {
            self.aborted()
        }
    }
    pub fn aborted(&mut self) {
        self.line("{\"e\":\"panic\",\"op\":\"scenario\",\"msg\":\"\"}");
    }
    pub fn line(&mut self, s: &str) {
        self.lines += 1;
        writeln!(self.files[self.cur], "{s}").unwrap();
    }
    pub fn scenarios(&self) -> usize {
        self.scenarios
    }
    pub fn flush(&mut self) {
        for f in &mut self.files {
            f.flush().unwrap();
        }
    }
}
