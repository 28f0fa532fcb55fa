//! C05 builders, C20 timestamps, C22 environment, C12 randomness, C13 silence, C17 concurrency.

use crate::codec::{self, lib_decode, Any, Kind};
use crate::crypto::*;
use crate::cx::{guard, Case, Cx};
use crate::gen::Gen;
use crate::hs::{self, field, history, plan, Plan, Seen, Ws};
use crate::model::*;
use crate::real::*;
use crate::sys;
use crate::util::*;
use http_ntlm::messages::structures as st;
use http_ntlm::messages::{Authenticate, Challenge, Flags, Negotiate};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::OsStrExt;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

fn lib<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    guard(f).map_err(|p| if p.ours() { panic!("{}", p.text()) } else { format!("{}: {}", what, p.text()) })
}

// --------------------------------------------------------------------------------------- C05

fn opt_text(g: &mut Gen) -> Option<String> {
    match g.below(4) {
        0 => None,
        1 => Some(String::new()),
        _ => Some(g.text(true, 60, usize::MAX)),
    }
}

pub fn c05(g: &mut Gen, cx: &mut Cx) -> Case {
    let mut log: Vec<String> = Vec::new();
    let r = match g.below(3) {
        0 => c05_neg(g, cx, &mut log),
        1 => c05_chal(g, cx, &mut log),
        _ => c05_auth(g, cx, &mut log),
    };
    r.map_err(|e| format!("{} [{}]", e, log.join(", ")))
}

fn other_bits(g: &mut Gen, own: u32) -> u32 {
    gen_flags(g) & !own
}

fn c05_neg(g: &mut Gen, cx: &mut Cx, log: &mut Vec<String>) -> Case {
    let own = f::DOMAIN_SUPPLIED | f::WORKSTATION_SUPPLIED;
    let (mut n, mut m) = if g.bool() {
        let n = Negotiate::default();
        let m = o_neg(&n);
        if m.domain.is_some() || m.workstation.is_some() || m.flags & own != 0 {
            return Err(format!("a new NEGOTIATE is {:?}", m));
        }
        (n, m)
    } else {
        let m = gen_neg(g, Opt { consistent: true, ..Opt::default() });
        log.push(format!("decoded {:.200?}", m));
        let mut m = Neg { domain: norm(&m.domain), workstation: norm(&m.workstation), ..m };
        m.flags = m.flags & !own | if m.domain.is_some() { f::DOMAIN_SUPPLIED } else { 0 } | if m.workstation.is_some() { f::WORKSTATION_SUPPLIED } else { 0 };
        match decode_any::<Negotiate>(&parts_neg(&m).canonical()) {
            Some((_, n)) => (n, m),
            None => return Ok(()),
        }
    };
    for _ in 0..1 + g.below(10) {
        match g.below(5) {
            0 | 1 => {
                let v = opt_text(g);
                log.push(format!("set_domain_name({:?})", v.as_deref().map(short)));
                lib("set_domain_name", || drop(n.set_domain_name(v.clone())))?;
                m.flags = m.flags & !f::DOMAIN_SUPPLIED | if v.is_some() { f::DOMAIN_SUPPLIED } else { 0 };
                m.domain = v;
            }
            2 | 3 => {
                let v = opt_text(g);
                log.push(format!("set_workstation({:?})", v.as_deref().map(short)));
                lib("set_workstation", || drop(n.set_workstation(v.clone())))?;
                m.flags = m.flags & !f::WORKSTATION_SUPPLIED | if v.is_some() { f::WORKSTATION_SUPPLIED } else { 0 };
                m.workstation = v;
            }
            _ => {
                let o = other_bits(g, own);
                n.negotiate_flags = Flags(n.negotiate_flags.0 & own | o);
                m.flags = m.flags & own | o;
                log.push(format!("flags {:08x}", o));
            }
        }
        let got = lib("getters", || o_neg(&n))?;
        if got != m {
            return Err(format!("the message is {:.600?}, must be {:.600?}", got, m));
        }
        cx.count("NEGOTIATE setter calls");
    }
    cx.judged(fnv(format!("{:?}", m).as_bytes()));
    cx.sample(|| log.join(", "));
    Ok(())
}

fn c05_chal(g: &mut Gen, cx: &mut Cx, log: &mut Vec<String>) -> Case {
    let own = f::REQUEST_TARGET | f::TARGET_INFO;
    let (mut c, mut m) = if g.bool() {
        let c = Challenge::default();
        let m = o_chal(&c);
        if m.name.is_some() || !m.infos.is_empty() || m.flags & own != 0 {
            return Err(format!("a new CHALLENGE is {:?}", m));
        }
        (c, m)
    } else {
        let mut m = gen_chal(g, Opt { consistent: true, max_infos: 500, ..Opt::default() });
        m.name = norm(&m.name);
        m.flags = m.flags & !f::REQUEST_TARGET | if m.name.is_some() { f::REQUEST_TARGET } else { 0 };
        if m.infos.iter().rev().skip(1).any(|a| *a == Av::Eol) {
            return Ok(());
        }
        log.push(format!("decoded {:.200?}", m));
        match decode_any::<Challenge>(&parts_chal(&m).canonical()) {
            Some((_, c)) => (c, m),
            None => return Ok(()),
        }
    };
    for _ in 0..1 + g.below(14) {
        match g.below(8) {
            0 => {
                let v = opt_text(g);
                log.push(format!("set_target_name({:?})", v.as_deref().map(short)));
                lib("set_target_name", || drop(c.set_target_name(v.clone())))?;
                m.flags = m.flags & !f::REQUEST_TARGET | if v.is_some() { f::REQUEST_TARGET } else { 0 };
                m.name = v;
            }
            1 => {
                let o = other_bits(g, own);
                c.negotiate_flags = Flags(c.negotiate_flags.0 & own | o);
                m.flags = m.flags & own | o;
                log.push(format!("flags {:08x}", o));
            }
            2 => {
                c.server_challenge = g.array::<8>().into();
                m.challenge = arr(&c.server_challenge);
            }
            _ => {
                let a = gen_av(g, Opt { nul: true, ..Opt::default() }, 200);
                log.push(format!("add {:.80?}", a));
                lib("adding target information", || add_info(&mut c, &a))?;
                let at = m.infos.len().saturating_sub(1);
                m.infos.insert(at, a);
                if at == 0 && m.infos.len() == 1 {
                    m.infos.push(Av::Eol);
                }
                m.flags |= f::TARGET_INFO;
            }
        }
        let got = lib("getters", || o_chal(&c))?;
        if got != m {
            return Err(format!("the message is {:.800?}, must be {:.800?}", got, m));
        }
        cx.count("CHALLENGE setter calls");
    }
    cx.max("target information pairs", m.infos.len() as u64);
    cx.judged(fnv(format!("{:?}", m).as_bytes()));
    cx.sample(|| log.join(", "));
    Ok(())
}

fn c05_auth(g: &mut Gen, cx: &mut Cx, log: &mut Vec<String>) -> Case {
    let own = f::KEY_EXCH;
    let (mut a, mut m) = if g.bool() {
        let a = Authenticate::default();
        let m = o_auth(&a);
        if m.flags & own != 0 || m.key.is_some() {
            return Err(format!("a new AUTHENTICATE is {:?}", m));
        }
        (a, m)
    } else {
        let m = gen_auth(g, Opt { consistent: true, max_infos: 200, ..Opt::default() });
        log.push(format!("built {:.200?}", m));
        let a = lib("building", || m_auth(&m))?;
        (a, m)
    };
    for _ in 0..1 + g.below(8) {
        match g.below(4) {
            0 => {
                let o = other_bits(g, own);
                a.negotiate_flags = Flags(a.negotiate_flags.0 & own | o);
                m.flags = m.flags & own | o;
                log.push(format!("flags {:08x}", o));
            }
            1 => {
                let v = opt_text(g);
                a.user = v.as_deref().map(|s| s.into());
                m.user = v;
            }
            _ => {
                let v: Option<[u8; 16]> = g.bool().then(|| g.array());
                log.push(format!("set_encrypted_random_session_key({:?})", v.map(|v| hex(&v))));
                lib("set_encrypted_random_session_key", || {
                    drop(a.set_encrypted_random_session_key(v.map(|v| v.into())))
                })?;
                m.flags = m.flags & !own | if v.is_some() { own } else { 0 };
                m.key = v;
            }
        }
        let got = lib("getters", || o_auth(&a))?;
        if got != m {
            return Err(format!("the message is {:.600?}, must be {:.600?}", got, m));
        }
        cx.count("AUTHENTICATE setter calls");
    }
    cx.judged(fnv(format!("{:?}", m).as_bytes()));
    cx.sample(|| log.join(", "));
    Ok(())
}

// --------------------------------------------------------------------------------------- C20

const EPOCH: i128 = 11_644_473_600 * 10_000_000;

/// `ns` nanoseconds after (before) January 1, 1970
fn instant(ns: i128) -> Option<SystemTime> {
    let d = Duration::new(u64::try_from(ns.unsigned_abs() / 1_000_000_000).ok()?, (ns.unsigned_abs() % 1_000_000_000) as u32);
    if ns >= 0 {
        UNIX_EPOCH.checked_add(d)
    } else {
        UNIX_EPOCH.checked_sub(d)
    }
}

fn nanos(t: SystemTime) -> i128 {
    match t.duration_since(UNIX_EPOCH) {
        Ok(d) => d.as_nanos() as i128,
        Err(e) => -(e.duration().as_nanos() as i128),
    }
}

fn gen_ns(g: &mut Gen) -> i128 {
    let near = |g: &mut Gen, c: i128| c + g.below(2001) as i128 - 1000;
    match g.below(12) {
        0 => near(g, 0),
        1 => near(g, -EPOCH * 100),
        2 => near(g, (u64::MAX as i128 - EPOCH) * 100),
        3 => (g.int(63) as i64 as i128) * 1_000_000_000 + g.below(1_000_000_000) as i128,
        4 => -((g.int(63) as i64 as i128) * 1_000_000_000 + g.below(1_000_000_000) as i128),
        5 => (g.u64() as i128 - EPOCH) * 100 + g.below(100) as i128,
        6 => ((1i128 << g.below(64)) - EPOCH) * 100 + g.below(400) as i128 - 200,
        7 => (((g.u32() as i128) << 32) - EPOCH) * 100 + g.below(400) as i128 - 200,
        8 => -(g.u64() as i128 % (EPOCH * 100)),
        9 => near(g, (i64::MAX as i128 / 100) * 100),
        _ => g.u32() as i128 * 1_000_000_000 + g.below(1_000_000_000) as i128,
    }
}

/// The FILETIMEs an instant may be converted to
fn ft_want(ns: i128) -> (i128, i128) {
    let floor = ns.div_euclid(100) + EPOCH;
    // before 1970 the part of an interval may be cut off towards either side
    (floor, if ns < 0 && ns % 100 != 0 { floor + 1 } else { floor })
}

pub fn c20(g: &mut Gen, cx: &mut Cx) -> Case {
    let mut seen: Vec<(i128, u64)> = Vec::new();
    for _ in 0..4 {
        let ns = gen_ns(g);
        let Some(t) = instant(ns) else { continue };
        let got = lib("converting a time", || st::FileTime::try_from(t))?;
        let (lo, hi) = ft_want(ns);
        let fits = |v: i128| (0..1 << 64).contains(&v);
        match got {
            Ok(ft) => {
                let v = o_time(&ft) as i128;
                if v != lo && v != hi {
                    return Err(format!("{} ns since 1970 are the FILETIME {}, must be {}", ns, v, lo));
                }
                let back = lib("converting back", || ft.to_system_time())?;
                match back {
                    Some(b) if (nanos(b) - ns).abs() < 100 && (nanos(b) - ns).rem_euclid(100) == (-ns).rem_euclid(100) => (),
                    _ => return Err(format!("{} ns since 1970 are the FILETIME {}, which is {:?}", ns, v, back.map(nanos))),
                }
                seen.push((ns, v as u64));
                cx.count("instants converted");
            }
            Err(_) if fits(lo) && fits(hi) => return Err(format!("{} ns since 1970 are not converted", ns)),
            Err(_) => cx.count("instants out of range rejected"),
        }
        cx.judged(mix(ns as u64));
    }
    for (a, x) in &seen {
        for (b, y) in &seen {
            if a < b && x > y {
                return Err(format!("order is not preserved: {} {} but {} {}", a, b, x, y));
            }
        }
    }
    // every FILETIME
    let v = match g.below(4) {
        0 => g.int(64),
        1 => gen_time(g),
        2 => (g.u32() as u64) << 32 | g.pick(&[0u64, 1, 0xffff_ffff, 0x8000_0000, 0x7fff_ffff]),
        _ => g.u64(),
    };
    let ft = m_time(v);
    let t = lib("converting a FILETIME", || ft.to_system_time())?;
    match t {
        None => return Err(format!("the FILETIME {} is no time", v)),
        Some(t) => {
            let want = (v as i128 - EPOCH) * 100;
            if nanos(t) != want {
                return Err(format!("the FILETIME {} is {} ns since 1970, must be {}", v, nanos(t), want));
            }
            match lib("converting back", || st::FileTime::try_from(t))? {
                Ok(b) if o_time(&b) == v => (),
                other => return Err(format!("the FILETIME {} becomes {:?}", v, other.map(|o| o_time(&o)))),
            }
        }
    }
    let raw = encode(&ft);
    if raw != v.to_le_bytes() || lib_decode(Kind::Time, &raw).map(|x| x.0) != Some(Any::Av(Av::Time(v))) {
        return Err(format!("the FILETIME {} does not survive encoding: {}", v, hex(&raw)));
    }
    if lib("as_u64", || ft.as_u64())? != v {
        return Err(format!("the FILETIME {} is {} as an integer", v, ft.as_u64()));
    }
    cx.judged(v);
    // the present
    if sys::INTERPOSED {
        let c = hs::gen_clock(g);
        sys::set_clock(Some(c));
        let n = lib("now", || o_time(&st::FileTime::now()));
        sys::set_clock(None);
        let n = n?;
        if n != hs::ticks(c.0, c.1) {
            return Err(format!("now is {} at {}.{:09} since 1970, must be {}", n, c.0, c.1, hs::ticks(c.0, c.1)));
        }
        cx.count("readings of the clock");
    }
    cx.sample(|| format!("{:?} {}", seen, v));
    Ok(())
}

// --------------------------------------------------------------------------------------- C22

thread_local! {
    static SCRATCH: RefCell<Option<std::path::PathBuf>> = const { RefCell::new(None) };
}

fn scratch() -> std::path::PathBuf {
    SCRATCH.with(|s| {
        s.borrow_mut()
            .get_or_insert_with(|| {
                let base = std::env::var("NTLM_SCRATCH").unwrap_or("/tmp".into());
                let d = std::path::PathBuf::from(base).join(format!("ntlm-monitor-{}", std::process::id()));
                std::fs::create_dir_all(&d).expect("scratch directory");
                d
            })
            .clone()
    })
}

pub fn clean_scratch() {
    SCRATCH.with(|s| {
        if let Some(d) = s.borrow_mut().take() {
            let _ = std::fs::remove_dir_all(d);
        }
    });
}

fn env_value(g: &mut Gen) -> Option<OsString> {
    match g.below(6) {
        0 => None,
        1 => {
            // not Unicode
            let n = 1 + g.below(6);
            let mut b: Vec<u8> = (0..n).map(|_| 1 + g.u8() % 0x7e).collect();
            b.push(g.pick(&[0xff, 0xc3, 0x80, 0xfe]));
            if g.bool() {
                b.push(b'x');
            }
            Some(OsStr::from_bytes(&b).to_owned())
        }
        2 if g.bool() => Some(OsString::new()),
        _ => {
            let max = if g.one_in(40) { 60_000 } else { 60 };
            let s = g.text(false, max, usize::MAX);
            let s: String = s.chars().map(|c| if c.to_uppercase().count() == 1 { c } else { 'x' }).collect();
            Some(s.into())
        }
    }
}

fn put(name: &str, v: &Option<OsString>) {
    match v {
        Some(v) => std::env::set_var(name, v),
        None => std::env::remove_var(name),
    }
}

/// Contents of /etc/hostname, and the workstation that follows from them (outer `None`: unclear)
fn hostname(g: &mut Gen) -> (Vec<u8>, Option<String>) {
    let ws = |g: &mut Gen| g.pick(&["", "", " ", "\t", "  \t", "\u{a0}", "\u{3000}", "\u{b}"]);
    let upper_safe = |s: String| -> String {
        s.chars().map(|c| if c.to_uppercase().count() == 1 && c != '\n' && c != '\r' { c } else { 'x' }).collect()
    };
    let mut line = String::new();
    for _ in 0..g.below(4) {
        line.push_str(ws(g));
        let t = upper_safe(g.text(true, 40, usize::MAX));
        line.push_str(&t);
        line.push_str(ws(g));
        if g.one_in(3) {
            line.push('.');
        }
    }
    let mut raw = line.clone().into_bytes();
    let mut text = true;
    if g.one_in(6) {
        let before_dot = line.find('.').unwrap_or(line.len());
        let at = (0..=before_dot).filter(|i| line.is_char_boundary(*i)).nth(g.below(3)).unwrap_or(0);
        raw.insert(at, g.pick(&[0xffu8, 0xc0, 0x80, 0xed]));
        text = String::from_utf8(raw.clone()).is_ok();
    }
    match g.below(5) {
        0 => (),
        1 => raw.extend_from_slice(b"\r\n"),
        _ => raw.extend_from_slice(b"\n"),
    }
    if g.one_in(4) && !raw.is_empty() {
        if raw.last() != Some(&b'\n') {
            raw.push(b'\n');
        }
        raw.extend_from_slice(b"other.line\nthird");
    }
    let name = line.split('.').next().unwrap().trim().to_uppercase();
    (raw, text.then_some(name))
}

pub fn c22(g: &mut Gen, cx: &mut Cx) -> Case {
    let r = if g.bool() { c22_fill(g, cx) } else { c22_workstation(g, cx) };
    sys::set_hostname(None);
    for n in ["COMPUTERNAME", "COMPUTERDNSNAME", "USERDOMAIN", "USERDNSDOMAIN"] {
        std::env::remove_var(n);
    }
    r
}

fn c22_workstation(g: &mut Gen, cx: &mut Cx) -> Case {
    let var = env_value(g);
    put("COMPUTERNAME", &var);
    let (raw, want_host) = hostname(g);
    let mut setup = format!("COMPUTERNAME {:?}", var.as_ref().map(|v| short(&format!("{:?}", v))));
    let mut want_host = want_host;
    if sys::INTERPOSED {
        match g.below(8) {
            0 | 1 => {
                let errno = g.pick(&[2, 13, 40, 20, 5, 23, 24, 12]);
                sys::set_hostname(Some(Err(errno)));
                want_host = None;
                setup += &format!(", opening /etc/hostname fails with {}", errno);
            }
            2 => {
                sys::set_hostname(Some(Ok(scratch().to_str().unwrap().to_owned())));
                want_host = None;
                setup += ", /etc/hostname is a directory";
            }
            _ => {
                let p = scratch().join("hostname");
                std::fs::write(&p, &raw).expect("scratch file");
                sys::set_hostname(Some(Ok(p.to_str().unwrap().to_owned())));
                setup += &format!(", /etc/hostname {:?}", String::from_utf8_lossy(&raw));
            }
        }
    } else {
        return Ok(());
    }
    let want = match var.as_ref().map(|v| v.to_str()) {
        Some(Some(v)) => v.to_owned(),
        _ => want_host.unwrap_or_default(),
    };
    let creds = hs::Creds {
        given: "u".into(),
        user: "u".into(),
        domain: "d".into(),
        password: "p".into(),
        target: "t".into(),
        via_new: g.bool(),
        workstation: None,
    };
    let level = g.pick(hs::ALL_LEVELS);
    let opens = sys::hostname_opens();
    let raw = lib(&format!("handshake [{}]", setup), || hs::quick_handshake(&creds, level))??;
    let got = field(&raw, 44).ok_or("workstation outside of the message")?;
    if got != utf16(&want) {
        return Err(format!("the workstation is {}, must be {} {} [{}]", hexs(got), hexs(&utf16(&want)), short(&want), setup));
    }
    cx.count(if sys::hostname_opens() > opens { "workstation from /etc/hostname" } else { "workstation from COMPUTERNAME" });
    cx.count(if want.is_empty() { "workstation absent" } else { "workstation present" });
    cx.judged(fnv(setup.as_bytes()));
    cx.sample(|| format!("{} -> {}", setup, short(&want)));
    Ok(())
}

fn c22_fill(g: &mut Gen, cx: &mut Cx) -> Case {
    let vars = [("COMPUTERNAME", 1u16, true), ("COMPUTERDNSNAME", 3, false), ("USERDOMAIN", 2, true), ("USERDNSDOMAIN", 4, false)];
    let mut c = Challenge::default();
    let pre = if g.bool() { Vec::new() } else { gen_avs(g, Opt::default(), 300) };
    pre.iter().for_each(|a| add_info(&mut c, a));
    let flags = gen_flags(g) & !f::TARGET_INFO | if pre.is_empty() { 0 } else { f::TARGET_INFO };
    c.negotiate_flags = Flags(flags);
    let mut all = pre.clone();
    let mut setup = format!("{:.300?}", pre);
    for _ in 0..1 + g.below(2) {
        let mut want = Vec::new();
        for (n, id, upper) in vars {
            let v = env_value(g);
            put(n, &v);
            setup += &format!("; {} {}", n, short(&format!("{:?}", v)));
            if let Some(Some(t)) = v.as_ref().map(|v| v.to_str()) {
                want.push(Av::Name(id, if upper { t.to_uppercase() } else { t.to_owned() }));
            }
        }
        lib(&format!("fill_from_env [{}]", setup), || c.fill_from_env())?;
        let got = o_avs(c.get_target_infos());
        let added = if got.is_empty() { &got[..] } else { &got[..got.len() - 1] };
        let tail = added.get(all.len()..).unwrap_or(&[]);
        let key = |a: &Av| format!("{:?}", a);
        let mut t: Vec<_> = tail.iter().map(key).collect();
        let mut w: Vec<_> = want.iter().map(key).collect();
        t.sort();
        w.sort();
        if added.get(..all.len()) != Some(&all[..]) || t != w {
            return Err(format!("target information {:.900?}, must be {:.300?} and {:.600?} [{}]", got, all, want, setup));
        }
        if !got.is_empty() && (got.last() != Some(&Av::Eol)) {
            return Err(format!("target information without terminator: {:.600?} [{}]", got, setup));
        }
        all = added.to_vec();
        cx.add("variables taken over", want.len() as u64);
        let want_flags = flags & !f::TARGET_INFO | if all.is_empty() { 0 } else { f::TARGET_INFO };
        if c.negotiate_flags.0 != want_flags {
            return Err(format!("flags {:08x}, must be {:08x} [{}]", c.negotiate_flags.0, want_flags, setup));
        }
    }
    cx.count("challenges filled");
    cx.judged(fnv(setup.as_bytes()));
    cx.sample(|| setup);
    Ok(())
}

// --------------------------------------------------------------------------------------- C12

/// The bytes the operating system delivered and no value has used yet; in any order, since the
/// library may take them apart as it likes
#[derive(Default)]
struct Pool {
    left: Vec<u8>,
    values: Vec<Vec<u8>>,
}

impl Pool {
    fn claim(&mut self, v: &[u8], what: &str, cx: &mut Cx) -> Case {
        self.left.extend(sys::take_rng_log());
        for (i, b) in v.iter().enumerate() {
            match self.left.iter().position(|l| l == b) {
                // oldest first
                Some(p) => drop(self.left.remove(p)),
                None if self.values.iter().any(|u| u.windows(8).any(|w| v.windows(8).any(|x| x == w))) => {
                    return Err(format!("{} {} has been used before", what, hex(v)))
                }
                None => {
                    return Err(format!(
                        "{} {} is not made of what the operating system delivered for it (byte {}, with {} bytes left)",
                        what,
                        hex(v),
                        i,
                        self.left.len()
                    ))
                }
            }
        }
        self.values.push(v.to_vec());
        cx.count(what);
        cx.judged(fnv(v));
        Ok(())
    }
}

/// With a recorded generator: every value is made of bytes the operating system delivered, and no
/// byte is used twice
pub fn c12(g: &mut Gen, cx: &mut Cx) -> Case {
    let mut pool = Pool::default();
    if g.one_in(4) {
        sys::script_rng(g.u64());
        let r = (|| {
            for _ in 0..1 + g.below(12) {
                let (v, what): (Vec<u8>, &str) = lib("random", || match g.below(6) {
                    0 | 1 => (st::ServerChallenge::random().to_vec(), "random server challenge"),
                    2 => (st::ClientChallenge::random().to_vec(), "random client challenge"),
                    3 => (st::ExportedSessionKey::random().to_vec(), "random session key"),
                    4 => (st::EncryptedRandomSessionKey::random().to_vec(), "random encrypted session key"),
                    _ => (st::SessionBaseKey::random().to_vec(), "random session base key"),
                })?;
                pool.claim(&v, what, cx)?;
            }
            Ok(())
        })();
        sys::unscript_rng();
        return r;
    }
    let mut watch = |s: Seen, cx: &mut Cx| -> Case {
        let Some(j) = s.judged else { return Ok(()) };
        let who = || format!("level {} {}", s.sim.level, s.sim.creds.text());
        if let Some(c) = j.client_challenge {
            pool.claim(&c, "client challenge", cx).map_err(|e| format!("{} [{}]", e, who()))?;
        }
        if let Some(k) = j.random_key {
            pool.claim(&k, "random session key", cx).map_err(|e| format!("{} [{}]", e, who()))?;
        }
        Ok(())
    };
    history(Plan { clients: 4, ops: 16, ..plan("C12") }, g, cx, Some(&mut watch))
}

/// What a source of values produced: kind and value
type Values = Vec<(u8, Vec<u8>)>;
const VALUE_KINDS: [&str; 4] = ["client challenge at level 1", "client challenge at level 3", "session key", "server challenge"];

/// The same user answering the same challenge over and over (every `vary`: another one)
fn draw(n: usize, vary: bool) -> Values {
    let mut v = Values::new();
    let mut g = Gen::new(77);
    let m = Chal { flags: 0xe28a8235 & !f::VERSION, name: None, challenge: [7; 8], infos: vec![], version: None };
    for i in 0..n {
        let tag = if vary { i.to_string() } else { String::new() };
        let creds = hs::Creds {
            given: "u".into(),
            user: format!("u{tag}"),
            domain: "d".into(),
            password: format!("p{tag}"),
            target: "t".into(),
            via_new: false,
            workstation: Some("WS1".into()),
        };
        let m = Chal { challenge: if vary { g.array() } else { m.challenge }, ..m.clone() };
        for level in [1, 3] {
            let Ok((j, _)) = hs::observe(&creds, level, &m) else { continue };
            if let Some(c) = j.client_challenge {
                v.push((level as u8 / 2, c.to_vec()));
            }
            if let Some(k) = j.random_key {
                v.push((2, k.to_vec()));
            }
        }
        v.push((3, st::ServerChallenge::random().to_vec()));
    }
    v
}

pub fn emit(n: usize) {
    let mut out = String::new();
    for (k, v) in draw(n, false) {
        out += &format!("{} {}\n", k, hex(&v));
    }
    print!("{}", out);
}

fn parse(text: &str) -> Values {
    text.lines().filter_map(|l| l.split_once(' ')).map(|(k, v)| (k.parse().unwrap(), unhex(v))).collect()
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn dup(fd: i32) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
}

/// With the real generator: no repetition across handshakes, threads, forks and processes; no bias
pub fn c12_os(n: usize, cx: &mut Cx) -> Case {
    std::env::set_var("COMPUTERNAME", "WS1");
    let mut sources: Vec<(String, Values)> = Vec::new();
    // something is drawn before forking, so that inherited state would show
    sources.push(("before forking".into(), draw(3, false)));
    for i in 0..6 {
        let path = scratch().join(format!("fork{i}"));
        let pid = unsafe { fork() };
        if pid == 0 {
            let mut out = String::new();
            for (k, v) in draw(4, i % 2 == 1) {
                out += &format!("{} {}\n", k, hex(&v));
            }
            let ok = std::fs::write(&path, out).is_ok();
            unsafe { _exit(!ok as i32) }
        }
        assert!(pid > 0, "fork");
        let mut status = 0;
        assert_eq!(unsafe { waitpid(pid, &mut status, 0) }, pid);
        assert_eq!(status, 0, "forked child");
        sources.push((format!("fork {i}"), parse(&std::fs::read_to_string(&path).expect("values"))));
    }
    sources.push(("after forking".into(), draw(n, false)));
    sources.push(("other users and challenges".into(), draw(n, true)));
    for i in 0..6 {
        let o = std::process::Command::new(std::env::current_exe().unwrap()).args(["emit", "-", "--cases", "4"]).output().expect("child");
        assert!(o.status.success(), "child process");
        sources.push((format!("process {i}"), parse(&String::from_utf8(o.stdout).unwrap())));
    }
    let threads: Vec<_> = (0..8).map(|i| std::thread::spawn(move || draw(n / 8 + 4, i % 2 == 1))).collect();
    for (i, t) in threads.into_iter().enumerate() {
        sources.push((format!("thread {i}"), t.join().expect("thread")));
    }
    let mut seen: HashMap<Vec<u8>, String> = HashMap::new();
    let mut per_kind: Vec<Vec<&[u8]>> = vec![Vec::new(); 4];
    for (source, values) in &sources {
        if values.is_empty() {
            panic!("{} produced nothing", source);
        }
        for (kind, v) in values {
            let here = format!("{} ({})", VALUE_KINDS[*kind as usize], source);
            if let Some(there) = seen.insert(v.clone(), here.clone()) {
                return Err(format!("{} is used as {} and as {}", hex(v), there, here));
            }
            per_kind[*kind as usize].push(v);
            cx.judged(fnv(v));
            cx.evaluations += 1;
        }
    }
    // halves do not repeat either
    let mut halves: HashSet<&[u8]> = HashSet::new();
    for v in per_kind.iter().flatten() {
        for h in v.chunks(8) {
            if !halves.insert(h) {
                return Err(format!("{} turns up twice", hex(h)));
            }
        }
    }
    for (kind, values) in per_kind.iter().enumerate() {
        let n = values.len() as f64;
        assert!(n > 500.0, "too few values: {} of {}", n, VALUE_KINDS[kind]);
        for bit in 0..values[0].len() * 8 {
            let ones = values.iter().filter(|v| v[bit / 8] >> (bit % 8) & 1 == 1).count() as f64;
            // 7 standard deviations
            if (ones - n / 2.0).abs() > 3.5 * n.sqrt() {
                return Err(format!("{}: bit {} is set in {} of {} values", VALUE_KINDS[kind], bit, ones, n));
            }
            // neighbouring values are independent
            let same = values.windows(2).filter(|w| (w[0][bit / 8] ^ w[1][bit / 8]) >> (bit % 8) & 1 == 0).count() as f64;
            if (same - (n - 1.0) / 2.0).abs() > 3.5 * n.sqrt() {
                return Err(format!("{}: bit {} repeats in {} of {} values", VALUE_KINDS[kind], bit, same, n));
            }
        }
        // within a value, bytes are independent of each other
        for i in 0..values[0].len() {
            for k in 0..i {
                let same = values.iter().filter(|v| v[i] == v[k]).count() as f64;
                if same > n / 256.0 + 7.0 * (n / 256.0).sqrt() + 3.0 {
                    return Err(format!("{}: bytes {} and {} agree in {} of {} values", VALUE_KINDS[kind], k, i, same, n));
                }
            }
        }
        // every byte value is as likely as the others
        let mut count = [0f64; 256];
        values.iter().flat_map(|v| v.iter()).for_each(|b| count[*b as usize] += 1.0);
        let e = n * values[0].len() as f64 / 256.0;
        for (b, c) in count.iter().enumerate() {
            if (c - e).abs() > 8.0 * e.sqrt() + 8.0 {
                return Err(format!("{}: the byte {:02x} is found {} times among {} bytes", VALUE_KINDS[kind], b, c, e * 256.0));
            }
        }
        cx.add(&format!("values of the real generator: {}", VALUE_KINDS[kind]), values.len() as u64);
    }
    cx.add("sources (threads, forks, processes)", sources.len() as u64);
    Ok(())
}

// --------------------------------------------------------------------------------------- C13

struct Capture;
static LOGGED: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());

impl log::Log for Capture {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        LOGGED.lock().unwrap().push(format!("{} {} {}", r.level(), r.target(), r.args()));
    }
    fn flush(&self) {}
}

/// Collects what is written to standard output and standard error
struct Silence {
    file: std::fs::File,
    saved: [i32; 2],
}

impl Silence {
    fn begin() -> Silence {
        use std::io::Write;
        use std::os::fd::AsRawFd;
        let path = scratch().join("output");
        let file = std::fs::File::options().read(true).append(true).create(true).open(path).expect("scratch file");
        file.set_len(0).expect("scratch file");
        std::io::stdout().flush().unwrap();
        let saved = unsafe { [dup(1), dup(2)] };
        assert!(saved[0] > 2 && saved[1] > 2);
        unsafe {
            dup2(file.as_raw_fd(), 1);
            dup2(file.as_raw_fd(), 2);
        }
        Silence { file, saved }
    }
    fn end(self) -> Vec<u8> {
        use std::io::{Read, Seek, Write};
        std::io::stdout().flush().unwrap();
        use std::os::fd::{FromRawFd, OwnedFd};
        for (i, fd) in self.saved.iter().enumerate() {
            unsafe {
                dup2(*fd, i as i32 + 1);
                drop(OwnedFd::from_raw_fd(*fd));
            }
        }
        let mut f = self.file;
        let mut out = Vec::new();
        f.rewind().unwrap();
        f.read_to_end(&mut out).unwrap();
        out
    }
}

fn base64(v: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in v.chunks_exact(3) {
        let n = (c[0] as u32) << 16 | (c[1] as u32) << 8 | c[2] as u32;
        for k in [18, 12, 6, 0] {
            s.push(A[(n >> k & 63) as usize] as char);
        }
    }
    s
}

fn joined(v: &[u8], sep: &str, f: impl Fn(&u8) -> String) -> Vec<u8> {
    v.iter().map(f).collect::<Vec<_>>().join(sep).into_bytes()
}

fn encodings(v: &[u8], full: bool) -> Vec<Vec<u8>> {
    let lower = joined(v, "", |b| format!("{:02x}", b));
    let upper = lower.to_ascii_uppercase();
    let mut o = vec![v.to_vec(), lower.clone(), upper.clone()];
    if full {
        for s in [&lower, &upper] {
            o.push(s.iter().flat_map(|b| [*b, 0]).collect());
        }
        let mut r = v.to_vec();
        r.reverse();
        o.push(r);
        for sep in [":", " ", "-", ", "] {
            o.push(joined(v, sep, |b| format!("{:02x}", b)));
            o.push(joined(v, sep, |b| format!("{:02X}", b)));
        }
        o.push(joined(v, ", ", |b| format!("{}", b)));
        o.push(joined(v, ", ", |b| format!("{:x}", b)));
        o.push(joined(v, ", ", |b| format!("0x{:02x}", b)));
        for skip in 0..3 {
            let b = base64(&v[skip.min(v.len())..]);
            if b.len() >= 12 {
                o.push(b.into_bytes());
            }
        }
    }
    o
}

struct Needles(Vec<(String, Vec<u8>)>);

impl Needles {
    fn secret(&mut self, what: &str, v: &[u8]) {
        let plain = |v: &[u8]| v.iter().collect::<HashSet<_>>().len() > 3;
        if v.len() < 8 || !plain(v) {
            return;
        }
        self.0.extend(encodings(v, true).into_iter().map(|e| (what.to_owned(), e)));
        if v.len() == 16 {
            for h in v.chunks(8).filter(|h| plain(h)) {
                self.0.extend(encodings(h, false).into_iter().map(|e| (format!("half of the {what}"), e)));
            }
        }
    }
    fn password(&mut self, p: &str) {
        for p in [p.to_owned(), p.to_uppercase(), p.to_lowercase()] {
            let be: Vec<u8> = p.encode_utf16().flat_map(|u| u.to_be_bytes()).collect();
            for raw in [p.as_bytes().to_vec(), utf16(&p), be] {
                self.0.extend(encodings(&raw, true).into_iter().map(|e| ("password".to_owned(), e)));
            }
            self.0.push(("password".to_owned(), p.escape_debug().to_string().into_bytes()));
            self.0.push(("password".to_owned(), p.escape_unicode().to_string().into_bytes()));
            // what the LM hash is computed from
            let head: String = p.chars().take(7).collect();
            self.0.push(("first half of the password".to_owned(), utf16(&head)));
            self.0.push(("first half of the password".to_owned(), head.into_bytes()));
        }
    }
    fn index(&self) -> Index<'_> {
        let mut filter = vec![false; 1 << 16];
        let mut at: HashMap<[u8; 4], Vec<usize>> = HashMap::new();
        for (i, (_, n)) in self.0.iter().enumerate().filter(|(_, (_, n))| n.len() >= 7) {
            let head: [u8; 4] = n[..4].try_into().unwrap();
            filter[fold(head)] = true;
            at.entry(head).or_default().push(i);
        }
        Index { needles: self, filter, at }
    }
}

fn fold(b: [u8; 4]) -> usize {
    (u32::from_le_bytes(b).wrapping_mul(0x9e37_79b1) >> 16) as usize
}

/// Finds any of the needles in one pass
struct Index<'a> {
    needles: &'a Needles,
    filter: Vec<bool>,
    at: HashMap<[u8; 4], Vec<usize>>,
}

impl Index<'_> {
    fn scan(&self, place: &str, hay: &[u8]) -> Case {
        for (pos, w) in hay.windows(4).enumerate() {
            let head: [u8; 4] = w.try_into().unwrap();
            if !self.filter[fold(head)] {
                continue;
            }
            for i in self.at.get(&head).into_iter().flatten() {
                let (what, n) = &self.needles.0[*i];
                if hay[pos..].starts_with(n) {
                    return Err(format!("{} contains the {} ({})", place, what, hexs(n)));
                }
            }
        }
        Ok(())
    }
}

pub fn c13(g: &mut Gen, cx: &mut Cx) -> Case {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        log::set_logger(&Capture).expect("no other logger");
        log::set_max_level(log::LevelFilter::Trace);
        // the monitor can see what it looks for
        log::warn!("probe");
        let quiet = Silence::begin();
        println!("out");
        eprintln!("err");
        assert_eq!(quiet.end(), b"out\nerr\n");
        assert_eq!(LOGGED.lock().unwrap().len(), 1);
        let mut probe = Needles(Vec::new());
        probe.secret("probe", b"0123456789abcdef");
        for hay in [&b"0123456789abcdef"[..], b"\x00\x010123456789abcdef", b"x8-9-a-b=30:31:32:33:34:35:36:37:38:39:61:62:63:64:65:66"] {
            assert!(probe.index().scan("", hay).is_err());
        }
        assert!(probe.index().scan("", b"0123456=30:31:32:33:34").is_ok());
    });
    LOGGED.lock().unwrap().clear();
    let mut messages: Vec<Vec<u8>> = Vec::new();
    let mut needles = Needles(Vec::new());
    let mut who = String::new();
    let mut watch = |s: Seen, _: &mut Cx| -> Case {
        if who.is_empty() || s.judged.is_none() {
            needles.password(&s.sim.creds.password);
            needles.secret("NT hash", &s.sim.sec.nt);
            s.sim.sec.lm.iter().for_each(|h| needles.secret("LM hash", h));
            s.sim.sec.v2.iter().for_each(|h| needles.secret("NTLMv2 hash", h));
            who = format!("level {} {}", s.sim.level, s.sim.creds.text());
        }
        if let Some(j) = s.judged {
            j.secret_keys.iter().for_each(|k| needles.secret("session key or what it is derived from", k));
        }
        messages.push(s.raw.to_vec());
        Ok(())
    };
    // whatever else the library does; the verdicts belong to others
    if g.one_in(6) {
        let mut ignored = Cx::default();
        let quiet = Silence::begin();
        let what = g.below(4);
        let _ = guard(|| match what {
            0 => c22(g, &mut ignored),
            1 => c05(g, &mut ignored),
            2 => c20(g, &mut ignored),
            _ => codec::c23(g, &mut ignored),
        });
        let output = quiet.end();
        cx.count("other operations observed");
        return if output.is_empty() {
            Ok(())
        } else {
            let what = ["reading the environment", "building messages", "converting timestamps", "encoding to a writer"][what];
            Err(format!("{} writes {:?} to standard output or standard error", what, String::from_utf8_lossy(&output[..output.len().min(600)])))
        };
    }
    // decoding on its own, of anything
    let hostile: Vec<_> = if g.one_in(3) {
        (0..1 + g.below(4))
            .map(|_| {
                let kind = codec::pick_kind(g);
                (kind, codec::gen_bytes(g, kind))
            })
            .collect()
    } else {
        Vec::new()
    };
    cx.add("byte strings decoded", hostile.len() as u64);
    let quiet = Silence::begin();
    hostile.iter().for_each(|(kind, b)| {
        // whether it panics is judged elsewhere (C01)
        let _ = guard(|| (codec::lib_decode(*kind, b).is_some(), codec::lib_verbose(*kind, b)));
    });
    if !hostile.is_empty() {
        let output = quiet.end();
        if !output.is_empty() {
            return Err(format!("decoding writes {:?} to standard output or standard error", String::from_utf8_lossy(&output[..output.len().min(600)])));
        }
        return Ok(());
    }
    let r = guard(|| history(Plan { clients: 1, ops: 3, ..plan("C13") }, g, cx, Some(&mut watch)));
    let output = quiet.end();
    r.map_err(|p| if p.ours() { panic!("{}", p.text()) } else { p.text() })??;
    let records = std::mem::take(&mut *LOGGED.lock().unwrap());
    if !output.is_empty() {
        return Err(format!("writes {:?} to standard output or standard error [{}]", String::from_utf8_lossy(&output[..output.len().min(600)]), who));
    }
    let needles_at = needles.index();
    for (i, m) in messages.iter().enumerate() {
        needles_at.scan(&format!("message {}", i), m).map_err(|e| format!("{}: {} [{}]", e, hexs(m), who))?;
    }
    for r in &records {
        needles_at.scan("a log record", r.as_bytes()).map_err(|e| format!("{}: {} [{}]", e, short(r), who))?;
    }
    cx.add("messages scanned", messages.len() as u64);
    cx.add("log records scanned", records.len() as u64);
    cx.add("encoded secrets searched for", needles.0.len() as u64);
    Ok(())
}

// --------------------------------------------------------------------------------------- C17

/// Many clients in many threads at the same time
pub fn c17_threads(seed: u64, threads: u64, histories: u64, cx: &mut Cx) -> Case {
    std::env::set_var("COMPUTERNAME", "WS1");
    let barrier = std::sync::Arc::new(std::sync::Barrier::new(threads as usize));
    let all: Vec<_> = (0..threads)
        .map(|t| {
            let barrier = barrier.clone();
            std::thread::spawn(move || {
                let mut cx = Cx::default();
                barrier.wait();
                sys::set_stumble(true);
                for i in 0..histories {
                    let mut g = Gen::new(mix(seed) ^ (t << 32 | i));
                    cx.evaluations += 1;
                    let p = Plan { ws: Ws::Fixed("WS1"), clients: 2, ops: 10, ..plan("C17") };
                    match guard(|| history(p, &mut g, &mut cx, None)) {
                        Ok(Ok(())) => (),
                        Ok(Err(e)) => return (cx, Some(Ok(format!("thread {t}, history {i}: {e}")))),
                        Err(p) => return (cx, Some(Err(p))),
                    }
                }
                (cx, None)
            })
        })
        .collect();
    let mut bad = None;
    for t in all {
        let (c, b) = t.join().expect("thread");
        cx.evaluations += c.evaluations;
        cx.judgements += c.judgements;
        c.counts.iter().for_each(|(k, v)| cx.add(&format!("concurrent: {k}"), *v));
        cx.distinct.extend(c.distinct);
        bad = bad.or(b);
    }
    cx.max("threads", threads);
    match bad {
        None => Ok(()),
        Some(Ok(e)) => Err(e),
        Some(Err(p)) if p.ours() => panic!("{}", p.text()),
        Some(Err(p)) => Err(p.text()),
    }
}
