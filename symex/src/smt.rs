//! SMT solver processes. Any line starting with "(error" makes the answer Unknown.
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Default)]
pub struct Stats {
    pub queries: AtomicU64,
    pub cached: AtomicU64,
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub unknown: AtomicU64,
    pub micros: AtomicU64,
    pub fallback: AtomicU64,
    pub cross: AtomicU64,
    pub cross_disagree: AtomicU64,
}
pub static STATS: Stats = Stats {
    queries: AtomicU64::new(0),
    cached: AtomicU64::new(0),
    sat: AtomicU64::new(0),
    unsat: AtomicU64::new(0),
    unknown: AtomicU64::new(0),
    micros: AtomicU64::new(0),
    fallback: AtomicU64::new(0),
    cross: AtomicU64::new(0),
    cross_disagree: AtomicU64::new(0),
};
static CACHE: Mutex<Option<HashMap<String, Res>>> = Mutex::new(None);
pub static DUMP: std::sync::OnceLock<String> = std::sync::OnceLock::new();

struct Proc {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
}

impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn spawn(cmd: &str, args: &[&str]) -> Proc {
    let mut child = Command::new(cmd)
        .args(args)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| panic!("cannot start {}: {}", cmd, e));
    let stdin = child.stdin.take().unwrap();
    let out = child.stdout.take().unwrap();
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        let r = BufReader::new(out);
        for l in r.lines() {
            match l {
                Ok(l) => {
                    if tx.send(l).is_err() {
                        break;
                    }
                }
                Err(_) => break,
            }
        }
    });
    Proc { child, stdin, rx }
}

#[derive(Default)]
pub struct Solver {
    z3: Option<Proc>,
}

pub struct Query {
    pub decls: String,
    pub asserts: String,
    pub linear: bool,
}

impl Solver {
    pub fn new() -> Solver {
        Solver { z3: None }
    }

    fn run(&mut self, script: &str, timeout: Duration) -> Vec<String> {
        if self.z3.is_none() {
            self.z3 = Some(spawn("z3-new", &["-in", "-smt2"]));
        }
        let p = self.z3.as_mut().unwrap();
        let ok = p.stdin.write_all(script.as_bytes()).and_then(|_| p.stdin.flush()).is_ok();
        let mut lines = vec![];
        let end = Instant::now() + timeout + Duration::from_millis(1500);
        let mut dead = !ok;
        while !dead {
            let now = Instant::now();
            if now >= end {
                dead = true;
                break;
            }
            match p.rx.recv_timeout(end - now) {
                Ok(l) => {
                    if l == "<done>" {
                        break;
                    }
                    lines.push(l);
                }
                Err(RecvTimeoutError::Timeout) | Err(RecvTimeoutError::Disconnected) => dead = true,
            }
        }
        if dead {
            self.z3 = None;
            lines.insert(0, "unknown".into());
        }
        lines
    }

    fn oneshot(cmd: &str, args: &[&str], script: &str, timeout: Duration) -> Vec<String> {
        let mut p = spawn(cmd, args);
        let _ = p.stdin.write_all(script.as_bytes());
        let _ = p.stdin.write_all(b"\n(exit)\n");
        let _ = p.stdin.flush();
        let end = Instant::now() + timeout;
        let mut lines = vec![];
        loop {
            let now = Instant::now();
            if now >= end {
                break;
            }
            match p.rx.recv_timeout(end - now) {
                Ok(l) => lines.push(l),
                Err(_) => break,
            }
        }
        lines
    }

    fn verdict(lines: &[String]) -> Res {
        if lines.iter().any(|l| l.starts_with("(error")) {
            if std::env::var("SYMEX_DEBUG").is_ok() {
                eprintln!("solver error: {:?}", lines);
            }
            return Res::Unknown;
        }
        for l in lines {
            match l.trim() {
                "sat" => return Res::Sat,
                "unsat" => return Res::Unsat,
                "unknown" | "timeout" => return Res::Unknown,
                _ => {}
            }
        }
        Res::Unknown
    }

    /// Decide satisfiability. `deep` enables the other back ends when z3 gives up.
    pub fn check(&mut self, q: &Query, ms: u64, deep: bool) -> Res {
        let key = format!("{}{}", q.decls, q.asserts);
        if let Some(m) = CACHE.lock().unwrap().as_ref() {
            if let Some(r) = m.get(&key) {
                STATS.cached.fetch_add(1, Relaxed);
                return *r;
            }
        }
        let t0 = Instant::now();
        STATS.queries.fetch_add(1, Relaxed);
        let logic = if q.linear { "QF_LRA" } else { "QF_NRA" };
        let script = format!(
            "(reset)\n(set-option :timeout {})\n(set-logic {})\n{}{}(check-sat)\n(echo \"<done>\")\n",
            ms, logic, q.decls, q.asserts
        );
        let mut r = Solver::verdict(&self.run(&script, Duration::from_millis(ms)));
        if r == Res::Unknown && deep {
            STATS.fallback.fetch_add(1, Relaxed);
            let body = format!("(set-logic {})\n{}{}", logic, q.decls, q.asserts);
            let s2 = format!("{}(check-sat-using (try-for qfnra-nlsat {}))\n", body, ms);
            let s3 = format!("{}(check-sat)\n", body);
            let d = Duration::from_millis(ms);
            // the alternatives race; the first definite answer wins
            let (tx, rx) = channel();
            for k in 0..4 {
                let tx = tx.clone();
                let (s2, s3) = (s2.clone(), s3.clone());
                std::thread::spawn(move || {
                    let l = match k {
                        0 => Solver::oneshot("z3-new", &["-in", "-smt2"], &s2, d),
                        1 => Solver::oneshot("z3", &["-in", "-smt2"], &s3, d),
                        2 => Solver::oneshot("cvc5", &["--lang=smt2", "--nl-ext-tplanes", "-q"], &s3, d),
                        _ => Solver::oneshot("z3-new", &["-in", "-smt2", "smt.arith.solver=6", "smt.random_seed=7"], &s3, d),
                    };
                    let _ = tx.send(Solver::verdict(&l));
                });
            }
            drop(tx);
            while let Ok(v) = rx.recv() {
                if v != Res::Unknown {
                    r = v;
                    break;
                }
            }
        }
        STATS.micros.fetch_add(t0.elapsed().as_micros() as u64, Relaxed);
        match r {
            Res::Sat => STATS.sat.fetch_add(1, Relaxed),
            Res::Unsat => STATS.unsat.fetch_add(1, Relaxed),
            Res::Unknown => STATS.unknown.fetch_add(1, Relaxed),
        };
        if let Some(dir) = DUMP.get() {
            let n = STATS.queries.load(Relaxed);
            let _ = std::fs::write(
                format!("{}/q{:06}-{:?}-{}ms.smt2", dir, n, r, t0.elapsed().as_millis()),
                format!("(set-logic {})\n{}{}(check-sat)\n", logic, q.decls, q.asserts),
            );
        }
        let mut c = CACHE.lock().unwrap();
        let m = c.get_or_insert_with(HashMap::new);
        if m.len() < 400_000 && r != Res::Unknown {
            m.insert(key, r);
        }
        r
    }

    /// A second solver's opinion on a query already decided (translation cross-check).
    pub fn cross_check(q: &Query, ms: u64) -> Res {
        let logic = if q.linear { "QF_LRA" } else { "QF_NRA" };
        let s = format!("(set-logic {})\n{}{}(check-sat)\n", logic, q.decls, q.asserts);
        STATS.cross.fetch_add(1, Relaxed);
        Solver::verdict(&Solver::oneshot(
            "cvc5",
            &["--lang=smt2", "--nl-ext-tplanes", "-q"],
            &s,
            Duration::from_millis(ms),
        ))
    }

    /// Values (as decimals) of the given names in some model.
    pub fn model(&mut self, q: &Query, names: &[String], ms: u64) -> (Res, HashMap<String, f64>) {
        let t0 = Instant::now();
        STATS.queries.fetch_add(1, Relaxed);
        let logic = if q.linear { "QF_LRA" } else { "QF_NRA" };
        let gv = if names.is_empty() { String::new() } else { format!("(get-value ({}))\n", names.join(" ")) };
        let script = format!(
            "(reset)\n(set-option :timeout {})\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 30)\n(set-logic {})\n{}{}(check-sat)\n{}(echo \"<done>\")\n",
            ms, logic, q.decls, q.asserts, gv
        );
        let lines = self.run(&script, Duration::from_millis(ms));
        STATS.micros.fetch_add(t0.elapsed().as_micros() as u64, Relaxed);
        let mut r = Res::Unknown;
        let mut rest = String::new();
        for l in &lines {
            let s = l.trim();
            if r == Res::Unknown && s == "sat" {
                r = Res::Sat;
            } else if r == Res::Unknown && s == "unsat" {
                r = Res::Unsat;
            } else if s != "unknown" && s != "timeout" {
                rest.push_str(s);
                rest.push(' ');
            }
        }
        let mut m = HashMap::new();
        if r == Res::Sat {
            if rest.contains("(error") {
                return (Res::Unknown, m);
            }
            let toks = tokenize(&rest);
            let mut pos = 0;
            let e = parse(&toks, &mut pos);
            if let Some(Sx::L(items)) = e {
                for it in items {
                    if let Sx::L(kv) = it {
                        if kv.len() == 2 {
                            if let Sx::A(n) = &kv[0] {
                                if let Some(v) = eval(&kv[1]) {
                                    m.insert(n.clone(), v);
                                }
                            }
                        }
                    }
                }
            }
        }
        match r {
            Res::Sat => STATS.sat.fetch_add(1, Relaxed),
            Res::Unsat => STATS.unsat.fetch_add(1, Relaxed),
            Res::Unknown => STATS.unknown.fetch_add(1, Relaxed),
        };
        (r, m)
    }
}

enum Sx {
    A(String),
    L(Vec<Sx>),
}

fn tokenize(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '(' | ')' => {
                if !cur.is_empty() {
                    v.push(std::mem::take(&mut cur));
                }
                v.push(c.to_string());
            }
            c if c.is_whitespace() => {
                if !cur.is_empty() {
                    v.push(std::mem::take(&mut cur));
                }
            }
            c => cur.push(c),
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}

fn parse(t: &[String], p: &mut usize) -> Option<Sx> {
    let x = t.get(*p)?;
    *p += 1;
    if x == "(" {
        let mut l = vec![];
        while t.get(*p)? != ")" {
            l.push(parse(t, p)?);
        }
        *p += 1;
        Some(Sx::L(l))
    } else {
        Some(Sx::A(x.clone()))
    }
}

fn eval(s: &Sx) -> Option<f64> {
    match s {
        Sx::A(a) => a.trim_end_matches('?').parse().ok(),
        Sx::L(l) => {
            if let Sx::A(op) = l.first()? {
                match (op.as_str(), l.len()) {
                    ("-", 2) => Some(-eval(&l[1])?),
                    ("-", 3) => Some(eval(&l[1])? - eval(&l[2])?),
                    ("+", _) => l[1..].iter().map(eval).sum(),
                    ("/", 3) => Some(eval(&l[1])? / eval(&l[2])?),
                    ("*", _) => l[1..].iter().map(eval).product(),
                    _ => None,
                }
            } else {
                None
            }
        }
    }
}
