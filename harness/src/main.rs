//! Runtime monitors for http-ntlm.
//!
//!     monitor run <property> --seed S --worker W --workers N --cases C --secs T --out FILE
//!     monitor case <property> --seed S --index I       (replays one case)
//!
//! Exit status 0: nothing found; 1: violation; anything else: the monitor itself failed.

mod codec;
mod crypto;
mod cx;
mod gen;
mod hs;
mod misc;
mod model;
mod real;
mod runner;
mod server;
mod sys;
mod util;
mod values;

use cx::{Case, Cx};
use gen::Gen;
use runner::{args, campaign, one, report, run, End, CASE};
use std::sync::atomic::Ordering;

#[global_allocator]
static METER: sys::Meter = sys::Meter;

fn case_fn(prop: &str) -> Option<fn(&mut Gen, &mut Cx) -> Case> {
    Some(match prop {
        "C01" => codec::c01,
        "C02" => codec::c02,
        "C03" => codec::c03,
        "C04" => |g, cx| if g.one_in(6) { hs::c04_hs(g, cx) } else { codec::c04(g, cx) },
        "C06" => codec::c06,
        "C07" => codec::c07,
        "C05" => misc::c05,
        "C12" => misc::c12,
        "C13" => misc::c13,
        "C20" => misc::c20,
        "C22" => misc::c22,
        "C08" => hs::c08,
        "C09" => hs::c09,
        "C10" => hs::c10,
        "C11" => hs::c11,
        "C14" => hs::c14,
        "C15" => hs::c15,
        "C16" => hs::c16,
        "C17" => hs::c17,
        "C18" => hs::c18,
        "C19" => hs::c19,
        "C24" => hs::c24,
        "C23" => codec::c23,
        "C21" => c21,
        "C26" => server::c26,
        "C27" => values::c27,
        "C28" => values::c28,
        "C30" => values::c30,
        "C31" => values::c31,
        _ => return None,
    })
}

/// Any workload of the other monitors, for the sanitizers: their verdicts are not this property's
fn c21(g: &mut Gen, cx: &mut Cx) -> Case {
    let all: &[(&str, fn(&mut Gen, &mut Cx) -> Case)] = &[
        ("decode", codec::c01),
        ("decode and compare", codec::c02),
        ("round trip", codec::c03),
        ("audit", codec::c04),
        ("setters", misc::c05),
        ("fault-injecting writers", codec::c23),
        ("handshake v1", hs::c08),
        ("handshake v2", hs::c09),
        ("any handshake", hs::c14),
        ("identities", hs::c15),
        ("histories", hs::c17),
        ("times", misc::c20),
        ("environment", misc::c22),
        ("server", server::c26),
        ("values", values::c30),
        ("again", values::c28),
    ];
    let (name, f) = all[g.below(all.len())];
    cx.count(&format!("workload: {name}"));
    let mut inner = Cx::default();
    match cx::guard(|| f(g, &mut inner)) {
        Ok(Ok(())) => (),
        Ok(Err(_)) => cx.count("another property is violated"),
        Err(p) if p.ours() => cx.count(&format!("harness: {}", p.text())),
        Err(_) => cx.count("another property is violated"),
    }
    for (k, v) in inner.counts {
        cx.add(&format!("{name}: {k}"), v);
    }
    cx.judgements += inner.judgements;
    cx.distinct.extend(inner.distinct.iter());
    if cx.samples.len() < 8 {
        cx.samples.extend(inner.samples.into_iter().take(1).map(|s| format!("{name}: {s}")));
    }
    Ok(())
}

/// NTLMv2 and a CHALLENGE with `n` bytes of target information: the response must fit 16 bits of length
fn pinned_c14(n: usize) -> i32 {
    let s = |v: &str| v.to_owned();
    let creds = hs::Creds {
        given: String::new(),
        user: s("User"),
        domain: s("Domain"),
        password: s("Password"),
        target: s("Server"),
        via_new: false,
        workstation: None,
    };
    let name = "n".repeat((n - 8) / 2);
    let m = model::Chal {
        flags: 0xe2898235 & !model::f::VERSION,
        name: None,
        challenge: [7; 8],
        infos: vec![model::Av::Name(1, name), model::Av::Eol],
        version: None,
    };
    match hs::observe(&creds, 3, &m) {
        Ok(_) => 0,
        Err(e) => {
            println!("{e}");
            1
        }
    }
}

/// Formats every log record and forgets it: a user may log at any level
struct Logger;

impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        struct Sink;
        impl std::fmt::Write for Sink {
            fn write_str(&mut self, _: &str) -> std::fmt::Result {
                Ok(())
            }
        }
        let _ = std::fmt::write(&mut Sink, *r.args());
    }
    fn flush(&self) {}
}

fn main() {
    let v: Vec<String> = std::env::args().collect();
    if v.len() < 3 {
        eprintln!("usage: monitor run|case <property> ..");
        std::process::exit(2);
    }
    if !cfg!(miri) {
        crypto::self_test();
    }
    cx::install_panic_hook();
    let a = args(&v);
    let prop = v[2].as_str();
    // half of the cases with logging, half without; C13 records the log itself
    if prop != "C13" && (if v[1] == "case" { a.index } else { a.worker }) % 2 == 1 && log::set_logger(&Logger).is_ok() {
        log::set_max_level(log::LevelFilter::Trace);
    }
    #[cfg(not(miri))]
    runner::watchdog(a.hang);
    let code = match v[1].as_str() {
        "run" => {
            let Some(f) = case_fn(prop) else { panic!("unknown property") };
            let (cx, end) = run(prop, f, &a);
            report(prop, &cx, &end, &a.out)
        }
        "case" => {
            let Some(f) = case_fn(prop) else { panic!("unknown property") };
            let mut cx = Cx::default();
            CASE.store(a.index, Ordering::Relaxed);
            let end = one(prop, f, &a, a.index, &mut cx);
            report(prop, &cx, &end, &a.out)
        }
        // the inputs of known findings: 1 while they fail
        "pinned" => match prop {
            "c14-target-info-65488" => pinned_c14(65488),
            _ => 2,
        },
        "emit" => {
            misc::emit(a.cases as usize);
            0
        }
        "twin" => hs::twin_main(prop),
        "os-random" => campaign(prop, &a, |cx| misc::c12_os(a.cases as usize, cx)),
        "threads" if prop == "C28" => campaign(prop, &a, |cx| values::c28_threads(a.seed, a.workers, a.cases, cx)),
        "threads" => campaign(prop, &a, |cx| misc::c17_threads(a.seed, a.workers, a.cases, cx)),
        "all-flags" => {
            let mut cx = Cx::default();
            let end = match codec::c06_all(a.worker as u32, a.workers as u32, &mut cx) {
                Ok(()) => End::Held,
                Err(e) => End::Violated(a.worker, e),
            };
            report(prop, &cx, &end, &a.out)
        }
        _ => 2,
    };
    misc::clean_scratch();
    std::process::exit(code);
}
