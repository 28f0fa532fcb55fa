//! Running cases and reporting what was observed. Shared by all monitor programs.

use crate::cx::{self, Case, Cx};
use crate::gen::Gen;
use crate::util;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Args {
    pub seed: u64,
    pub worker: u64,
    pub workers: u64,
    pub cases: u64,
    pub secs: u64,
    pub index: u64,
    pub out: Option<String>,
    pub hang: u64,
}

pub fn args(v: &[String]) -> Args {
    let get = |name: &str| v.iter().position(|a| a == name).map(|i| v[i + 1].clone());
    let num = |name: &str, d: u64| get(name).map_or(d, |s| s.parse().expect("number"));
    Args {
        seed: num("--seed", 1),
        worker: num("--worker", 0),
        workers: num("--workers", 1),
        cases: num("--cases", 1000),
        secs: num("--secs", 600),
        index: num("--index", 0),
        out: get("--out"),
        hang: num("--hang", 60),
    }
}

pub static CASE: AtomicU64 = AtomicU64::new(u64::MAX);

/// Processor time of this process in seconds
#[cfg(not(miri))]
fn cpu() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
    (n(11) + n(12)) / 100
}

/// Ends the process when one case takes too much processor time
#[cfg(not(miri))]
pub fn watchdog(limit: u64) {
    std::thread::spawn(move || {
        let (mut last, mut since) = (u64::MAX, 0);
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = CASE.load(Ordering::Relaxed);
            let t = cpu();
            if now != last {
                last = now;
                since = t;
            } else if t >= since + limit && now != u64::MAX {
                eprintln!("HANG: case {} has used {} s of processor time", now, t - since);
                std::process::exit(97);
            }
        }
    });
}

fn seed_of(prop: &str, seed: u64, index: u64) -> u64 {
    util::mix(util::fnv(prop.as_bytes()) ^ util::mix(seed)).wrapping_add(util::mix(index))
}

pub enum End {
    Held,
    Violated(u64, String),
    Broken(u64, String),
}

pub fn one(prop: &str, f: fn(&mut Gen, &mut Cx) -> Case, a: &Args, index: u64, cx: &mut Cx) -> End {
    let mut g = Gen::new(seed_of(prop, a.seed, index));
    cx.evaluations += 1;
    match cx::guard(|| f(&mut g, cx)) {
        Ok(Ok(())) => End::Held,
        Ok(Err(e)) => End::Violated(index, e),
        Err(p) if p.ours() => End::Broken(index, p.text()),
        Err(p) => End::Violated(index, p.text()),
    }
}

pub fn run(prop: &str, f: fn(&mut Gen, &mut Cx) -> Case, a: &Args) -> (Cx, End) {
    let mut cx = Cx::default();
    let progress = a.out.as_ref().map(|o| std::fs::File::create(format!("{o}.progress")).unwrap());
    let start = Instant::now();
    for n in 0..a.cases {
        let index = a.worker + n * a.workers;
        CASE.store(index, Ordering::Relaxed);
        if let Some(p) = &progress {
            p.write_all_at(&index.to_le_bytes(), 0).unwrap();
        }
        match one(prop, f, a, index, &mut cx) {
            End::Held => (),
            end => return (cx, end),
        }
        if (cfg!(miri) || n % 16 == 0) && start.elapsed() > Duration::from_secs(a.secs) {
            cx.count("stopped by the time limit");
            break;
        }
    }
    (cx, End::Held)
}

pub fn report(prop: &str, cx: &Cx, end: &End, out: &Option<String>) -> i32 {
    let map = |m: &std::collections::BTreeMap<String, u64>| {
        m.iter().map(|(k, v)| format!("{}:{}", util::json(k), v)).collect::<Vec<_>>().join(",")
    };
    let list = |l: &[String]| l.iter().map(|s| util::json(s)).collect::<Vec<_>>().join(",");
    let (kind, index, text) = match end {
        End::Held => ("held", 0, ""),
        End::Violated(i, t) => ("violated", *i, t.as_str()),
        End::Broken(i, t) => ("broken", *i, t.as_str()),
    };
    if let Some(out) = out {
        let json = format!(
            "{{\"property\":{},\"end\":{},\"index\":{},\"text\":{},\"cases\":{},\"judgements\":{},\"distinct\":{},\"counts\":{{{}}},\"maxima\":{{{}}},\"samples\":[{}],\"findings\":[{}]}}\n",
            util::json(prop),
            util::json(kind),
            index,
            util::json(text),
            cx.evaluations,
            cx.judgements,
            cx.distinct.len(),
            map(&cx.counts),
            map(&cx.maxima),
            list(&cx.samples),
            list(&cx.findings),
        );
        let mut set: Vec<u8> = Vec::with_capacity(cx.distinct.len() * 8);
        cx.distinct.iter().for_each(|d| set.extend_from_slice(&d.to_le_bytes()));
        std::fs::write(format!("{out}.set"), set).unwrap();
        std::fs::write(out, json).unwrap();
    }
    let stdout = std::io::stdout();
    let mut o = stdout.lock();
    let _ = match end {
        End::Held => writeln!(
            o,
            "{} held: {} cases, {} distinct; {:?} {:?}",
            prop, cx.evaluations, cx.distinct.len(), cx.counts, cx.maxima
        ),
        End::Violated(i, t) => writeln!(o, "{} VIOLATED in case {}: {}", prop, i, t),
        End::Broken(i, t) => writeln!(o, "{} BROKEN in case {}: {}", prop, i, t),
    };
    match end {
        End::Held => 0,
        End::Violated(..) => 1,
        End::Broken(..) => 3,
    }
}

/// One long case
pub fn campaign(prop: &str, a: &Args, f: impl FnOnce(&mut Cx) -> Case) -> i32 {
    let mut cx = Cx::default();
    let end = match cx::guard(|| f(&mut cx)) {
        Ok(Ok(())) => End::Held,
        Ok(Err(e)) => End::Violated(0, e),
        Err(p) if p.ours() => End::Broken(0, p.text()),
        Err(p) => End::Violated(0, p.text()),
    };
    report(prop, &cx, &end, &a.out)
}

