//! Monitor for the Windows client (src/win.rs): the real module and the real bindings, compiled for
//! this system, on top of a scripted SSPI that watches how it is used.
//!
//!     monitor run C25 --seed S --worker W --workers N --cases C --secs T --out FILE
//!     monitor case C25 --seed S --index I

#[path = "../../harness/src/cx.rs"]
#[allow(dead_code)]
mod cx;
#[path = "../../harness/src/gen.rs"]
#[allow(dead_code)]
mod gen;
#[path = "../../harness/src/runner.rs"]
#[allow(dead_code)]
mod runner;
mod sspi;
#[path = "../../harness/src/util.rs"]
#[allow(dead_code)]
mod util;

use cx::{Case, Cx};
use gen::Gen;
use http_ntlm::win::WinClient;
use sspi::{with, Plan};
use std::sync::atomic::Ordering;

/// Statuses of InitializeSecurityContext
const OK: i32 = 0;
const CONTINUE: i32 = 0x0009_0312;
const COMPLETE: i32 = 0x0009_0313;
const COMPLETE_AND_CONTINUE: i32 = 0x0009_0314;
const OTHER_SUCCESS: [i32; 5] = [0x0009_0315, 0x0009_0320, 0x0009_0321, 0x0009_0364, 1];
const ERRORS: [i32; 16] = [
    0x8009_0300u32 as i32, // insufficient memory
    0x8009_0301u32 as i32, // invalid handle
    0x8009_0302u32 as i32, // unsupported function
    0x8009_0303u32 as i32, // target unknown
    0x8009_0304u32 as i32, // internal error
    0x8009_0305u32 as i32, // package not found
    0x8009_0308u32 as i32, // invalid token
    0x8009_030cu32 as i32, // logon denied
    0x8009_030eu32 as i32, // no credentials
    0x8009_0311u32 as i32, // no authenticating authority
    0x8009_0318u32 as i32, // incomplete message
    0x8009_0321u32 as i32, // buffer too small
    0x8009_0322u32 as i32, // wrong principal
    0x8007_0057u32 as i32, // E_INVALIDARG
    0x8000_4005u32 as i32, // E_FAIL
    -1,
];

fn token(g: &mut Gen) -> Vec<u8> {
    let n = match g.below(12) {
        0 => 0,
        1 => g.pick(&[11_999, 12_000, 12_001, 13_000, 4096, 32_768, 65_535, 65_536, 65_537, 100_000]),
        2 => g.below(13_000),
        _ => g.len(300),
    };
    let n = gen::small(n, g);
    g.bytes(n)
}

fn plan(g: &mut Gen) -> Plan {
    let code = match g.below(16) {
        0..=3 => OK,
        4..=7 => CONTINUE,
        8 | 9 => COMPLETE,
        10 | 11 => COMPLETE_AND_CONTINUE,
        12 => g.pick(&OTHER_SUCCESS),
        _ => g.pick(&ERRORS),
    };
    let complete = if g.one_in(3) { g.pick(&ERRORS) } else { OK };
    Plan {
        acquire: if g.one_in(6) { g.pick(&ERRORS) } else { OK },
        init: code,
        token: token(g),
        // what a failing call leaves in the size of the output buffer: nothing new, or anything
        left: match g.below(4) {
            0 => None,
            1 => Some(0),
            2 => Some(12_000),
            _ => Some(g.below(12_001) as u32),
        },
        complete,
        release: if g.one_in(4) { g.pick(&ERRORS) } else { OK },
        flip: g.bool().then(|| g.u8() | 1),
        handle: (g.u64() as usize, g.u64() as usize),
        attributes: g.u32(),
        expiry: g.u64() as i64,
    }
}

fn c25(g: &mut Gen, cx: &mut Cx) -> Case {
    sspi::reset();
    let mut clients: Vec<(WinClient, u64)> = Vec::new();
    let mut trace = String::new();
    let ops = if cfg!(miri) { 2 + g.below(6) } else { 1 + g.below(24) };
    let mut owner = 0;
    for _ in 0..ops {
        let p = plan(g);
        let op = if clients.is_empty() { 0 } else { g.below(9) };
        let at = g.below(clients.len().max(1));
        let what;
        match op {
            0 if clients.len() < 4 => {
                owner += 1;
                let mut target = g.text(true, 200, 400);
                if g.one_in(8) {
                    target.insert(0, '\0');
                }
                what = format!("new({}) acquire={:#x}", util::short(&target), p.acquire);
                trace.push_str(&format!("{what}; "));
                with(|s| s.begin(owner, p.clone(), target.clone().into_bytes(), None));
                let r = cx::guard(|| WinClient::new(&target)).map_err(|e| format!("{} [{trace}]", e.text()))?;
                let (problem, acquired) = with(|s| (s.problem.take(), s.acquired.take()));
                if let Some(p) = problem {
                    return Err(format!("{p} [{trace}]"));
                }
                match (r, acquired) {
                    (Ok(c), Some(0)) => clients.push((c, owner)),
                    (Ok(_), a) => return Err(format!("new succeeded, acquiring gave {a:x?} [{trace}]")),
                    (Err(e), Some(0)) => {
                        drop(e);
                        // e.g. refused after all: nothing may be left
                        if with(|s| s.live_of(owner)) != (0, 0) {
                            return Err(format!("new failed and leaves handles [{trace}]"));
                        }
                        cx.count("new failed on its own");
                    }
                    (Err(e), a) => {
                        drop(e);
                        if a.is_none() && !target.contains('\0') {
                            return Err(format!("new failed without asking SSPI [{trace}]"));
                        }
                        if with(|s| s.live_of(owner)) != (0, 0) {
                            return Err(format!("new failed and leaves handles [{trace}]"));
                        }
                        cx.count("new failed");
                    }
                }
            }
            0 | 1 => {
                let (c, o) = clients.swap_remove(at);
                trace.push_str(&format!("drop #{o}; "));
                with(|s| s.begin(o, p, Vec::new(), None));
                cx::guard(|| drop(c)).map_err(|e| format!("{} [{trace}]", e.text()))?;
                let (problem, live) = with(|s| (s.problem.take(), s.live_of(o)));
                if let Some(p) = problem {
                    return Err(format!("{p} [{trace}]"));
                }
                if live != (0, 0) {
                    return Err(format!("dropped, but {} credentials and {} contexts are not released [{trace}]", live.0, live.1));
                }
                cx.count("clients dropped");
                continue;
            }
            _ => {
                let message = if op < 4 { None } else { Some(token(g)) };
                let o = clients[at].1;
                what = format!(
                    "{} #{o} init={:#x} token={} complete={:#x}",
                    message.as_ref().map_or("negotiate".to_owned(), |m| format!("challenge({} bytes)", m.len())),
                    p.init,
                    p.token.len(),
                    p.complete
                );
                trace.push_str(&format!("{what}; "));
                with(|s| s.begin(o, p.clone(), Vec::new(), Some(message.clone())));
                let c = &mut clients[at].0;
                let r = cx::guard(|| match &message {
                    None => c.negotiate().map(|b| b.to_vec()).map_err(drop),
                    Some(m) => c.challenge(m).map(|b| b.to_vec()).map_err(drop),
                })
                .map_err(|e| format!("{} [{trace}]", e.text()))?;
                let (problem, expected) = with(|s| (s.problem.take(), s.outcome.take()));
                if let Some(p) = problem {
                    return Err(format!("{p} [{trace}]"));
                }
                match (r, expected) {
                    (_, None) => return Err(format!("SSPI was not asked [{trace}]")),
                    (Ok(got), Some(Ok(want))) => {
                        if got != want {
                            return Err(format!("returned {}, SSPI produced {} [{trace}]", util::hexs(&got), util::hexs(&want)));
                        }
                        if with(|s| s.incomplete()) {
                            return Err(format!("the token was not completed [{trace}]"));
                        }
                        cx.count("tokens passed on");
                    }
                    (Ok(got), Some(Err(e))) => {
                        return Err(format!("returned {} although SSPI failed with {e:#x} [{trace}]", util::hexs(&got)))
                    }
                    (Err(()), Some(Ok(_))) => return Err(format!("failed although SSPI succeeded [{trace}]")),
                    (Err(()), Some(Err(_))) => cx.count("failures reported"),
                }
                cx.count(if message.is_some() { "challenge" } else { "negotiate" });
            }
        }
        cx.judged(util::fnv(trace.as_bytes()));
    }
    while let Some((c, o)) = clients.pop() {
        let p = plan(g);
        with(|s| s.begin(o, p, Vec::new(), None));
        cx::guard(|| drop(c)).map_err(|e| format!("{} [{trace}]", e.text()))?;
        if let Some(p) = with(|s| s.problem.take()) {
            return Err(format!("{p} [{trace}]"));
        }
    }
    let live = with(|s| s.live());
    if live != (0, 0) {
        return Err(format!("{} credentials and {} contexts are never released [{trace}]", live.0, live.1));
    }
    with(|s| {
        for (k, v) in &s.counts {
            cx.add(k, *v);
        }
    });
    cx.sample(|| trace);
    Ok(())
}

fn main() {
    let v: Vec<String> = std::env::args().collect();
    if v.len() < 3 {
        eprintln!("usage: monitor run|case C25 ..");
        std::process::exit(2);
    }
    cx::install_panic_hook();
    let a = runner::args(&v);
    #[cfg(not(miri))]
    runner::watchdog(a.hang);
    let code = match v[1].as_str() {
        "run" => {
            let (cx, end) = runner::run("C25", c25, &a);
            runner::report("C25", &cx, &end, &a.out)
        }
        "case" => {
            let mut cx = Cx::default();
            runner::CASE.store(a.index, Ordering::Relaxed);
            let end = runner::one("C25", c25, &a, a.index, &mut cx);
            runner::report("C25", &cx, &end, &a.out)
        }
        _ => 2,
    };
    std::process::exit(code);
}
