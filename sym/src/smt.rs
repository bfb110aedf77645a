//! Long-lived SMT solver processes driven over pipes.
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Z3 {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
    pub cmd: Vec<String>,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
}

fn spawn(cmd: &[String]) -> Z3 {
    let mut child = Command::new(&cmd[0])
        .args(&cmd[1..])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("cannot start solver");
    let stdin = child.stdin.take().unwrap();
    let out = child.stdout.take().unwrap();
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            match l {
                Ok(l) => {
                    if tx.send(l).is_err() {
                        break;
                    }
                }
                Err(_) => break,
            }
        }
    });
    Z3 { child, stdin, rx, cmd: cmd.to_vec() }
}

impl Drop for Z3 {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Z3 {
    pub fn new(cmd: &[&str]) -> Z3 {
        spawn(&cmd.iter().map(|s| s.to_string()).collect::<Vec<_>>())
    }
    fn restart(&mut self) {
        let c = self.cmd.clone();
        let n = spawn(&c);
        let old = std::mem::replace(self, n);
        drop(old);
    }
    /// Runs a self-contained script (declarations and assertions), then asks for `values`.
    pub fn run(&mut self, script: &str, values: &[String], timeout_ms: u64, st: &mut Stats) -> (Res, Vec<f64>) {
        let t0 = Instant::now();
        let r = self.run_inner(script, values, timeout_ms);
        let dt = t0.elapsed().as_secs_f64();
        st.queries += 1;
        st.time += dt;
        if dt > st.max_time {
            st.max_time = dt;
        }
        match r.0 {
            Res::Sat => st.sat += 1,
            Res::Unsat => st.unsat += 1,
            Res::Unknown => st.unknown += 1,
        }
        r
    }
    fn run_inner(&mut self, script: &str, values: &[String], timeout_ms: u64) -> (Res, Vec<f64>) {
        let head = format!(
            "(reset)\n(set-option :timeout {})\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 18)\n",
            timeout_ms
        );
        let ask = "(check-sat)\n(echo \"@@done\")\n";
        if self.stdin.write_all(head.as_bytes()).is_err()
            || self.stdin.write_all(script.as_bytes()).is_err()
            || self.stdin.write_all(ask.as_bytes()).is_err()
            || self.stdin.flush().is_err()
        {
            self.restart();
            return (Res::Unknown, vec![]);
        }
        let lim = Duration::from_millis(timeout_ms * 2 + 3000);
        let lines = match self.collect(lim) {
            Some(l) => l,
            None => {
                self.restart();
                return (Res::Unknown, vec![]);
            }
        };
        if lines.iter().any(|l| l.contains("(error")) {
            let tl = lines.iter().find(|l| l.contains("(error")).unwrap();
            if !tl.contains("timeout") && !tl.contains("canceled") {
                eprintln!("solver error: {}", tl);
                if std::env::var("SYM_DUMP").is_ok() {
                    eprintln!("{}", script);
                }
            }
            return (Res::Unknown, vec![]);
        }
        let mut res = Res::Unknown;
        for l in &lines {
            match l.trim() {
                "sat" => res = Res::Sat,
                "unsat" => res = Res::Unsat,
                _ => {}
            }
        }
        let mut vals = vec![];
        if res == Res::Sat && !values.is_empty() {
            for v in values {
                let q = format!("(get-value ({}))\n(echo \"@@done\")\n", v);
                if self.stdin.write_all(q.as_bytes()).is_err() || self.stdin.flush().is_err() {
                    self.restart();
                    return (Res::Unknown, vec![]);
                }
                match self.collect(Duration::from_secs(5)) {
                    Some(ls) => {
                        let s = ls.join(" ");
                        vals.push(parse_value(&s, v).unwrap_or(f64::NAN));
                    }
                    None => {
                        self.restart();
                        return (Res::Unknown, vec![]);
                    }
                }
            }
        }
        (res, vals)
    }
    fn collect(&mut self, lim: Duration) -> Option<Vec<String>> {
        let end = Instant::now() + lim;
        let mut v = vec![];
        loop {
            let now = Instant::now();
            if now >= end {
                return None;
            }
            match self.rx.recv_timeout(end - now) {
                Ok(l) => {
                    if l.trim_matches('"') == "@@done" {
                        return Some(v);
                    }
                    v.push(l);
                }
                Err(_) => return None,
            }
        }
    }
}

fn parse_value(s: &str, name: &str) -> Option<f64> {
    let s = s.trim();
    let s = s.strip_prefix("((")?.strip_prefix(name)?;
    let s = s.strip_suffix("))")?;
    let toks: Vec<String> = s
        .replace('(', " ( ")
        .replace(')', " ) ")
        .split_whitespace()
        .map(|x| x.to_string())
        .collect();
    let mut p = 0;
    fn ex(t: &[String], p: &mut usize) -> Option<f64> {
        let x = t.get(*p)?.clone();
        *p += 1;
        if x == "(" {
            let op = t.get(*p)?.clone();
            *p += 1;
            let mut args = vec![];
            while t.get(*p)? != ")" {
                args.push(ex(t, p)?);
            }
            *p += 1;
            match op.as_str() {
                "-" if args.len() == 1 => Some(-args[0]),
                "-" => Some(args[0] - args[1]),
                "+" => Some(args.iter().sum()),
                "*" => Some(args.iter().product()),
                "/" => Some(args[0] / args[1]),
                "to_real" => Some(args[0]),
                _ => None,
            }
        } else {
            x.trim_end_matches('?').parse::<f64>().ok()
        }
    }
    ex(&toks, &mut p)
}

/// One-shot run of another solver on the same script (second opinion / fallback).
pub fn oneshot(cmd: &[&str], script: &str, timeout_ms: u64, st: &mut Stats) -> Res {
    let t0 = Instant::now();
    let mut c = match Command::new(cmd[0])
        .args(&cmd[1..])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(_) => return Res::Unknown,
    };
    let text = format!("(set-logic ALL)\n{}(check-sat)\n", script);
    let mut si = c.stdin.take().unwrap();
    let wr = std::thread::spawn(move || {
        let _ = si.write_all(text.as_bytes());
    });
    let out = c.stdout.take().unwrap();
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        let v: Vec<String> = BufReader::new(out).lines().map_while(|l| l.ok()).collect();
        let _ = tx.send(v);
    });
    let r = match rx.recv_timeout(Duration::from_millis(timeout_ms)) {
        Ok(v) => {
            if v.iter().any(|l| l.contains("(error")) {
                Res::Unknown
            } else if v.iter().any(|l| l.trim() == "unsat") {
                Res::Unsat
            } else if v.iter().any(|l| l.trim() == "sat") {
                Res::Sat
            } else {
                Res::Unknown
            }
        }
        Err(_) => Res::Unknown,
    };
    let _ = c.kill();
    let _ = c.wait();
    let _ = wr.join();
    let dt = t0.elapsed().as_secs_f64();
    st.queries += 1;
    st.time += dt;
    match r {
        Res::Sat => st.sat += 1,
        Res::Unsat => st.unsat += 1,
        Res::Unknown => st.unknown += 1,
    }
    r
}
