//! Replays and searches for inputs on which the real crate breaks a property.
//!   fxdreplay search --prop C02 --seconds 10 --seed 1 --threads 8 --out FILE
//!   fxdreplay replay FILE
//! The expected results come from an independent exact integer oracle (big.rs, dec.rs, judge.rs).
mod big;
mod dec;
mod gen;
mod judge;
mod outcome;
mod trace;

use big::Pow;
use dec::Dec;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Cmp,
    Hash,
    Round,
    RoundEq,
    Parse,
    Reparse,
    Format,
    PrintParse,
    FromInt,
    ToInt,
    Access,
}

const OPS: [(Op, &str); 16] = [
    (Op::Add, "add"),
    (Op::Sub, "sub"),
    (Op::Mul, "mul"),
    (Op::Div, "div"),
    (Op::Rem, "rem"),
    (Op::Cmp, "cmp"),
    (Op::Hash, "hash"),
    (Op::Round, "round"),
    (Op::RoundEq, "roundeq"),
    (Op::Parse, "parse"),
    (Op::Reparse, "reparse"),
    (Op::Format, "format"),
    (Op::PrintParse, "printparse"),
    (Op::FromInt, "fromint"),
    (Op::ToInt, "toint"),
    (Op::Access, "access"),
];

#[derive(Clone, Debug)]
pub struct Case {
    pub op: Op,
    pub a: Dec,
    pub b: Dec,
    pub dst: Dec,
    pub n: i64,
    pub bytes: Vec<u8>,
}

impl Case {
    pub fn new(op: Op) -> Case {
        Case { op, a: Dec::ZERO, b: Dec::ZERO, dst: Dec::ZERO, n: 0, bytes: vec![] }
    }
    fn ser(&self) -> String {
        let name = OPS.iter().find(|x| x.0 == self.op).unwrap().1;
        let hex: String = self.bytes.iter().map(|b| format!("{:02x}", b)).collect();
        format!(
            "op={}\na={}\nb={}\ndst={}\nn={}\nbytes={}\n",
            name,
            self.a.ser(),
            self.b.ser(),
            self.dst.ser(),
            self.n,
            hex
        )
    }
    pub fn line(&self) -> String {
        let name = OPS.iter().find(|x| x.0 == self.op).unwrap().1;
        let hex: String = self.bytes.iter().map(|b| format!("{:02x}", b)).collect();
        format!("{}|{}|{}|{}|{}|{}", name, self.a.ser(), self.b.ser(), self.dst.ser(), self.n, hex)
    }
    fn de(s: &str) -> Option<Case> {
        let mut c = Case::new(Op::Add);
        let mut seen = false;
        for l in s.lines() {
            let (k, v) = match l.split_once('=') {
                Some(x) => x,
                None => continue,
            };
            match k {
                "op" => {
                    c.op = OPS.iter().find(|x| x.1 == v)?.0;
                    seen = true;
                }
                "a" => c.a = Dec::de(v),
                "b" => c.b = Dec::de(v),
                "dst" => c.dst = Dec::de(v),
                "n" => c.n = v.parse().ok()?,
                "bytes" => {
                    c.bytes = (0..v.len() / 2).map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).unwrap()).collect()
                }
                _ => {}
            }
        }
        if seen {
            Some(c)
        } else {
            None
        }
    }
    fn human(&self) -> String {
        let name = OPS.iter().find(|x| x.0 == self.op).unwrap().1;
        match self.op {
            Op::Parse | Op::Reparse => format!(
                "{} {:?} (reset={}) into {}",
                name,
                String::from_utf8_lossy(&self.bytes),
                self.n & 1 == 1,
                self.dst.show()
            ),
            Op::FromInt => format!("{} {} / {}", name, self.n, self.n as u64),
            _ => format!(
                "{} a={} b={} n={} dst={}",
                name,
                self.a.show(),
                self.b.show(),
                self.n,
                self.dst.show()
            ),
        }
    }
}

pub fn ops_of(prop: &str) -> Vec<Op> {
    use Op::*;
    match prop {
        "C01" => vec![Add, Sub, Mul, Div, Rem, Round, Parse, FromInt, Access],
        "C02" => vec![Add],
        "C03" => vec![Sub],
        "C04" => vec![Mul],
        "C05" => vec![Div],
        "C06" => vec![Rem],
        "C07" => vec![Cmp],
        "C08" => vec![Hash],
        "C09" => vec![Parse],
        "C10" => vec![Format],
        "C11" => vec![PrintParse, Reparse],
        "C12" => vec![Round, RoundEq],
        "C13" => vec![FromInt],
        "C14" => vec![ToInt, FromInt],
        "C15" => vec![Add, Sub, Mul, Div, Rem, Round, Parse],
        "C16" => vec![Add, Sub, Mul, Div, Rem],
        "C17" => vec![Access],
        "C18" => vec![Add, Sub, Mul, Div, Rem, Cmp, Hash, Round, Parse, Format, FromInt, ToInt, Access],
        "C19" => vec![Add, Sub, Mul, Div, Rem, Round],
        _ => vec![],
    }
}

fn key(c: &Case) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (c.op as u8).hash(&mut h);
    (c.a.neg, c.a.intg, c.a.frac, c.a.lsu).hash(&mut h);
    (c.b.neg, c.b.intg, c.b.frac, c.b.lsu).hash(&mut h);
    c.n.hash(&mut h);
    c.bytes.hash(&mut h);
    h.finish()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| -> Option<String> { args.iter().position(|x| x == k).map(|i| args[i + 1].clone()) };
    std::panic::set_hook(Box::new(|_| {}));
    match args.get(1).map(|s| s.as_str()) {
        Some("search") => search(&get),
        Some("replay") => replay(&args[2]),
        Some("trace") => {
            let num = |k: &str, d: u64| get(k).and_then(|s| s.parse().ok()).unwrap_or(d);
            trace::trace(&get("--prop").expect("--prop"), num("--n", 1000), num("--seed", 1))
        }
        Some("case") => {
            // one labelled line per property, for crafting demonstrations
            let s = std::fs::read_to_string(&args[2]).unwrap();
            let c = Case::de(&s).unwrap();
            let p = Pow::new();
            for i in 1..=19 {
                let prop = format!("C{:02}", i);
                println!("{} {:?}", prop, judge::judge(&prop, &c, &p));
            }
        }
        _ => {
            eprintln!("usage: fxdreplay search|replay");
            std::process::exit(2);
        }
    }
}

fn replay(file: &str) {
    let s = std::fs::read_to_string(file).expect("replay file");
    let c = match Case::de(&s) {
        Some(c) => c,
        None => {
            println!("no input in {} (the file names a failed obligation only)", file);
            std::process::exit(3);
        }
    };
    let prop = s.lines().find_map(|l| l.strip_prefix("property=")).unwrap_or("C18").to_string();
    println!("property {}: {}", prop, c.human());
    let (tx, rx) = std::sync::mpsc::channel();
    let c2 = c.clone();
    let p2 = prop.clone();
    std::thread::spawn(move || {
        let p = Pow::new();
        let _ = tx.send(judge::judge(&p2, &c2, &p));
    });
    match rx.recv_timeout(Duration::from_secs(20)) {
        Ok(None) => {
            println!("holds");
        }
        Ok(Some(m)) => {
            println!("BROKEN: {}", m);
            std::process::exit(1);
        }
        Err(_) => {
            println!("BROKEN: does not terminate within 20 s");
            std::process::exit(1);
        }
    }
}

fn search(get: &dyn Fn(&str) -> Option<String>) {
    let prop = get("--prop").expect("--prop");
    let secs: f64 = get("--seconds").and_then(|s| s.parse().ok()).unwrap_or(10.0);
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let threads: usize = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let out = get("--out").unwrap_or_else(|| "/dev/null".into());
    let ops = ops_of(&prop);
    let stop = Arc::new(AtomicBool::new(false));
    let count = Arc::new(AtomicU64::new(0));
    let nontriv = Arc::new(AtomicU64::new(0));
    let found: Arc<Mutex<Option<(Case, String)>>> = Arc::new(Mutex::new(None));
    let slots: Vec<Arc<Mutex<Option<(Instant, Case)>>>> = (0..threads).map(|_| Arc::new(Mutex::new(None))).collect();
    let samples: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let start = Instant::now();
    let mut hs = vec![];
    for t in 0..threads {
        let (ops, stop, count, nontriv, found, slot, prop, samples) = (
            ops.clone(),
            stop.clone(),
            count.clone(),
            nontriv.clone(),
            found.clone(),
            slots[t].clone(),
            prop.clone(),
            samples.clone(),
        );
        hs.push(std::thread::spawn(move || {
            let p = Pow::new();
            let mut r = gen::Rng::new(seed.wrapping_mul(1000003).wrapping_add(t as u64));
            let mut seen: HashSet<u64> = HashSet::new();
            let mut n = 0u64;
            let mut k = 0usize;
            while !stop.load(Ordering::Relaxed) {
                let op = ops[k % ops.len()];
                k += 1;
                let c = gen::case(&mut r, op, &p);
                *slot.lock().unwrap() = Some((Instant::now(), c.clone()));
                let v = judge::judge(&prop, &c, &p);
                n += 1;
                if seen.len() < 400_000 && judge::nontrivial(&c) {
                    seen.insert(key(&c));
                }
                if t == 0 && n <= 3 {
                    samples.lock().unwrap().push(c.human());
                }
                if n % 64 == 0 {
                    count.fetch_add(64, Ordering::Relaxed);
                }
                if let Some(m) = v {
                    let mut f = found.lock().unwrap();
                    if f.is_none() {
                        *f = Some((c, m));
                    }
                    stop.store(true, Ordering::Relaxed);
                }
            }
            count.fetch_add(n % 64, Ordering::Relaxed);
            nontriv.fetch_add(seen.len() as u64, Ordering::Relaxed);
            *slot.lock().unwrap() = None;
        }));
    }
    let mut hung: Option<Case> = None;
    'w: while !stop.load(Ordering::Relaxed) {
        std::thread::sleep(Duration::from_millis(20));
        for s in &slots {
            if let Some((at, c)) = &*s.lock().unwrap() {
                if at.elapsed() > Duration::from_secs(10) {
                    hung = Some(c.clone());
                    break 'w;
                }
            }
        }
        if start.elapsed().as_secs_f64() > secs {
            break;
        }
    }
    stop.store(true, Ordering::Relaxed);
    if hung.is_none() {
        for h in hs {
            // a call that does not return is reported below
            let t0 = Instant::now();
            while !h.is_finished() && t0.elapsed() < Duration::from_secs(15) {
                std::thread::sleep(Duration::from_millis(5));
            }
            if h.is_finished() {
                if h.join().is_err() {
                    eprintln!("worker died");
                    std::process::exit(2);
                }
            } else {
                for s in &slots {
                    if let Some((at, c)) = &*s.lock().unwrap() {
                        if at.elapsed() > Duration::from_secs(10) {
                            hung = Some(c.clone());
                        }
                    }
                }
            }
        }
    }
    let hit = match hung {
        Some(c) => Some((c, "the call does not terminate (10 s watchdog)".to_string())),
        None => found.lock().unwrap().clone(),
    };
    let esc = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"");
    let sm: Vec<String> = samples.lock().unwrap().iter().map(|s| format!("\"{}\"", esc(s))).collect();
    println!(
        "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"seconds\":{:.2},\"samples\":[{}],\"found\":{}}}",
        count.load(Ordering::Relaxed),
        nontriv.load(Ordering::Relaxed),
        start.elapsed().as_secs_f64(),
        sm.join(","),
        hit.is_some()
    );
    if let Some((c, m)) = hit {
        let body = format!(
            "# {}\n# {}\nproperty={}\n{}",
            c.human().replace('\n', " "),
            m.replace('\n', " "),
            prop,
            c.ser()
        );
        std::fs::write(&out, body).expect("write replay");
        std::process::exit(1);
    }
}
