//! C27, C28, C30, C31: what holds for every value and every call, whatever it is about.

use crate::codec::*;
use crate::crypto::utf16;
use crate::cx::{guard, Case, Cx, Panic};
use crate::gen::Gen;
use crate::hs::{self, gen_creds, quick_handshake, split_name, Any6, Creds, Ws};
use crate::model::*;
use crate::real::*;
use crate::sys;
use crate::util::*;
use http_ntlm::messages::structures as st;
use http_ntlm::messages::{Authenticate, Challenge, Flags, Negotiate};

/// A failure of the monitor stays one
fn theirs(p: Panic) -> Panic {
    if p.ours() {
        panic!("{}", p.text());
    }
    p
}

// --------------------------------------------------------------------------------------- C27

/// A size in bytes around a multiple of 2^16
fn edge(g: &mut Gen) -> usize {
    let k = 65536 * g.pick(&[1, 1, 1, 1, 1, 2, 2, 3, 4]);
    match g.below(10) {
        0..=3 => k - 4 + g.below(9),
        4 => k + g.below(300),
        5 => k - g.below(300),
        6 => k + g.dict_int().unwrap_or(0).min(70_000) as usize,
        7 => k + 1 + g.below(65_536),
        8 => 65_000 + g.below(1200),
        _ => k,
    }
}

/// A text of exactly `n` units (`utf16`: of two bytes each, otherwise bytes of UTF-8), without NUL
/// and separators
fn exact(g: &mut Gen, n: usize, utf16: bool) -> String {
    let len = |c: char| if utf16 { c.len_utf16() } else { c.len_utf8() };
    let class = g.below(16);
    let unit: Vec<char> = (0..1 + g.below(4))
        .map(|_| {
            let class = if g.one_in(4) { 7 } else { class };
            g.char(class, false)
        })
        .map(|c| if matches!(c, '\\' | '@') { 'q' } else { c })
        .collect();
    let (head, tail) = (g.below(8).min(n), g.below(8).min(n));
    let mut s: String = (0..head).map(|i| (b'a' + i as u8) as char).collect();
    let mut used = head;
    for c in unit.iter().cycle() {
        if used + len(*c) + tail > n {
            break;
        }
        s.push(*c);
        used += len(*c);
    }
    while used < n {
        s.push((b'A' + (n - used) as u8 % 26) as char);
        used += 1;
    }
    s
}

fn name_size(a: &Av) -> usize {
    match a {
        Av::Name(_, s) => utf16(s).len(),
        _ => 0,
    }
}

fn infos_of(a: &Any) -> &[Av] {
    match a {
        Any::Chal(m) => &m.infos,
        Any::Auth(Auth { nt: Some(Nt::Bare(b) | Nt::V2(_, b)), .. }) | Any::Nt(Nt::Bare(b) | Nt::V2(_, b)) => &b.infos,
        Any::Avs(v) => v,
        Any::Av(a) => std::slice::from_ref(a),
        _ => &[],
    }
}

/// Whether every length of the encoded value can be written down
fn fits(a: &Any) -> bool {
    infos_of(a).iter().all(|a| name_size(a) <= 65535)
        && parts(a).map_or(true, |p| p.fields.iter().all(|(_, _, data)| data.len() <= 65535))
}

/// Pairs that take exactly `n` bytes, or nearly
fn infos_of_size(g: &mut Gen, n: usize) -> Vec<Av> {
    let mut v = Vec::new();
    let o = Opt::default();
    let mut left = n.saturating_sub(4);
    let some = g.below(6);
    for _ in 0..some {
        let a = gen_av(g, o, 100);
        let size = enc_avs(std::slice::from_ref(&a)).len();
        if size + 200 < left {
            left -= size;
            v.push(a);
        }
    }
    if g.one_in(8) {
        // many short ones
        while left > 4000 {
            v.push(Av::Name(g.pick(&NAME_IDS), "ab".into()));
            left -= 8;
        }
    }
    // no name larger than fits
    while left >= 5 {
        let most = if g.bool() { 65_534 } else { 20_000 };
        let size = (left - 4).min(most) / 2;
        v.push(Av::Name(g.pick(&NAME_IDS), exact(g, size, true)));
        left -= 4 + 2 * size;
    }
    v.push(Av::Eol);
    v
}

fn gen_large(g: &mut Gen) -> (Kind, Any) {
    let o = Opt { consistent: true, ..Opt::default() };
    let n = edge(g);
    let kind = g.pick(&[Kind::Neg, Kind::Neg, Kind::Chal, Kind::Chal, Kind::Auth, Kind::Auth, Kind::Auth, Kind::Av, Kind::Avs, Kind::Nt, Kind::NtResp, Kind::Blob]);
    let mut a = gen_any(g, kind, o);
    match &mut a {
        Any::Neg(m) => {
            let s = Some(exact(g, n, false));
            if g.bool() {
                m.domain = s;
                m.flags |= f::DOMAIN_SUPPLIED;
            } else {
                m.workstation = s;
                m.flags |= f::WORKSTATION_SUPPLIED;
            }
            if g.one_in(8) {
                let k = edge(g);
                m.domain = Some(exact(g, k, false));
                m.flags |= f::DOMAIN_SUPPLIED;
            }
        }
        Any::Chal(m) => {
            match g.below(3) {
                0 => {
                    m.name = Some(exact(g, n / 2, true));
                    m.flags |= f::REQUEST_TARGET;
                }
                1 => {
                    m.infos = vec![Av::Name(g.pick(&NAME_IDS), exact(g, (n - 8) / 2, true)), Av::Eol];
                    m.flags |= f::TARGET_INFO;
                }
                _ => {
                    m.infos = infos_of_size(g, n);
                    m.flags |= f::TARGET_INFO;
                }
            }
        }
        Any::Auth(m) => {
            let size = if g.bool() { n / 2 } else { n / 2 - 1 };
            let s = Some(exact(g, size, true));
            match g.below(5) {
                0 => m.user = s,
                1 => m.domain = s,
                2 => m.workstation = s,
                k => {
                    let head = if k == 3 { 28 } else { 48 };
                    let b = Blob { time: gen_time(g), cc: g.array(), infos: infos_of_size(g, n - head) };
                    m.nt = Some(if k == 3 { Nt::Bare(b) } else { Nt::V2(g.array(), b) });
                    if let Some(Lm::V1(_)) = m.lm {
                        m.lm = Some(Lm::V2(g.array(), g.array()));
                    }
                }
            }
        }
        Any::Av(v) => *v = Av::Name(g.pick(&NAME_IDS), exact(g, n / 2, true)),
        Any::Avs(v) => {
            let long = Av::Name(g.pick(&NAME_IDS), exact(g, n / 2, true));
            *v = vec![];
            if g.bool() {
                *v = gen_avs(g, o, 300);
            }
            v.push(long);
            if g.bool() {
                v.push(gen_av(g, o, 60));
            }
            v.push(Av::Eol);
        }
        Any::Nt(Nt::Bare(b) | Nt::V2(_, b)) => b.infos = infos_of_size(g, n),
        _ => (),
    }
    (kind, a)
}

pub fn c27(g: &mut Gen, cx: &mut Cx) -> Case {
    if g.one_in(4) {
        return c27_client(g, cx);
    }
    let (kind, a) = gen_large(g);
    if ambiguous(&a) {
        cx.count("skipped: ambiguous NT response");
        return Ok(());
    }
    let what = || format!("{kind:?} {:.600?}", a);
    let fit = fits(&a);
    let r = guard(|| {
        let mut out = Vec::new();
        lib_encode_sink(kind, &a, &mut out).map(|n| (out, n))
    });
    let (out, n) = match r {
        Ok(Ok(r)) => r,
        Ok(Err(e)) if fit => return Err(format!("everything fits, but encoding fails: {e} [{}]", what())),
        Err(p) if fit => return Err(format!("everything fits, but encoding panics: {} [{}]", theirs(p).text(), what())),
        Ok(Err(_)) => {
            cx.count("too large: refused with an error");
            cx.judged(fnv(what().as_bytes()));
            return Ok(());
        }
        Err(p) => {
            theirs(p);
            cx.count("too large: refused");
            cx.judged(fnv(what().as_bytes()));
            return Ok(());
        }
    };
    if !fit {
        return Err(format!(
            "something is too large for its length, but encoding succeeds with {} bytes, of which a reader makes {:.600?} [{}]",
            out.len(),
            ref_decode(kind, &out),
            what()
        ));
    }
    if n != out.len() {
        return Err(format!("{} bytes encoded, {} claimed [{}]", out.len(), n, what()));
    }
    match ref_decode(kind, &out) {
        Ok((b, 0)) if norm_any(&b) == norm_any(&a) => (),
        Err(Some(e)) if cfg!(feature = "strict") && e == "forbidden flags" => cx.count("forbidden flags"),
        // a bare pair or list without end cannot be told from one with something behind it
        other => return Err(format!("a reader of the encoded message gets {:.600?} [{}]", other, what())),
    }
    if let Some(p) = parts(&a) {
        audit(&out, &p).map_err(|e| format!("{e} [{}]", what()))?;
    }
    cx.count("fits: complete");
    cx.count(&format!("kind_{kind:?}"));
    cx.max("largest message", out.len() as u64);
    cx.judged(fnv(&out));
    cx.sample(|| format!("{} -> {} bytes", what().chars().take(200).collect::<String>(), out.len()));
    Ok(())
}

/// A client with an identity, or a server with target information, of such a size
fn c27_client(g: &mut Gen, cx: &mut Cx) -> Case {
    let s = |v: &str| v.to_owned();
    let n = edge(g);
    let level = g.below(6) as u32;
    let mut c = Creds {
        given: s("User"),
        user: s("User"),
        domain: s("Domain"),
        password: s("Password"),
        target: s("Server"),
        via_new: false,
        workstation: Some(s("WS1")),
    };
    let mut infos = vec![];
    let which = g.below(7);
    match which {
        0 => c.user = exact(g, n / 2, true),
        1 => c.domain = exact(g, n / 2, true),
        2 => c.domain = exact(g, n, false),
        3 => c.workstation = Some(exact(g, n / 2, true)),
        4 => c.password = exact(g, n / 2, true),
        5 => c.target = exact(g, n / 2, true),
        _ => infos = infos_of_size(g, n),
    }
    if g.bool() {
        c.via_new = true;
        c.given = if g.bool() { format!("{}\\{}", c.domain, c.user) } else { format!("{}@{}", c.user, c.domain) };
        let (u, d) = split_name(&c.given);
        if (&u, &d) != (&c.user, &c.domain) {
            c.via_new = false;
        }
    }
    hs::environment(&c);
    let name_fits = |s: &str| utf16(s).len() <= 65535;
    let ws = c.workstation.as_deref().unwrap();
    let identity_fits = name_fits(&c.user) && name_fits(&c.domain) && c.domain.len() <= 65535 && name_fits(ws);
    // what the client adds to the server's information is not told here
    let size = enc_avs(&infos).len();
    let fit = identity_fits && size <= 65535 && (level < 3 || size <= 65200 - utf16(&c.target).len().min(65200));
    let what = || format!("level {level}, {} target {} information of {size} bytes", c.text(), short(&c.target));
    let mut refused = 0;
    macro_rules! step {
        ($e:expr) => {
            match $e {
                Ok(v) => Some(v),
                Err(p) if fit => return Err(format!("everything fits, but: {} [{}]", theirs(p).text(), what())),
                Err(p) => {
                    theirs(p);
                    refused += 1;
                    None
                }
            }
        };
    }
    let made = step!(guard(|| Any6::make(level, &c)));
    if let Some(mut client) = made {
        for _ in 0..1 + g.below(2) {
            if let Some(neg) = step!(client.negotiate()) {
                let m = dec_neg(&neg, false).map_err(|e| format!("NEGOTIATE is not decodable: {e} [{}]", what()))?;
                if norm(&m.domain).is_some() && m.domain.as_deref() != Some(&c.domain) {
                    return Err(format!("NEGOTIATE carries the domain {} [{}]", short(m.domain.as_deref().unwrap()), what()));
                }
                // and nothing of it when it carries none
                audit(&neg, &parts_neg(&m)).map_err(|e| format!("NEGOTIATE: {e} [{}]", what()))?;
                if m.domain.is_none() && utf16(&c.domain).len() <= 60_000 && c.domain.len() <= 60_000 {
                    return Err(format!("NEGOTIATE carries no domain [{}]", what()));
                }
            }
            let m = Chal {
                flags: if infos.is_empty() { 0xe2088235 } else { 0xe2888235 },
                name: None,
                challenge: g.array(),
                infos: infos.clone(),
                version: Some(Ver { major: 6, minor: 1, build: 7601, rev: 15 }),
            };
            let Some(real) = step!(guard(|| m_chal(&m))) else { break };
            step!(client.recv(real));
            for _ in 0..1 + g.below(2) {
                let Some(raw) = step!(client.authenticate()) else { continue };
                let a = match dec_auth(&raw, false) {
                    Ok(a) => a,
                    Err(None) => {
                        cx.count("ambiguous");
                        continue;
                    }
                    Err(Some(e)) => return Err(format!("AUTHENTICATE is not decodable: {e} [{} -> {}]", what(), hexs(&raw))),
                };
                for (name, got, want) in [("user", &a.user, c.user.as_str()), ("domain", &a.domain, &c.domain), ("workstation", &a.workstation, ws)] {
                    if got.as_deref().unwrap_or("") != want {
                        return Err(format!("AUTHENTICATE carries the {name} {} [{}]", short(got.as_deref().unwrap_or("")), what()));
                    }
                }
                if let Some(Nt::V2(_, b) | Nt::Bare(b)) = &a.nt {
                    let mut of_server = infos.iter().filter(|a| !matches!(a, Av::Eol | Av::Flags(_) | Av::Time(_) | Av::Bindings(_) | Av::Name(9, _)));
                    let mut at = b.infos.iter();
                    if let Some(lost) = of_server.find(|a| !at.any(|b| b == *a)) {
                        return Err(format!("the response lacks {:.200?} of the server's information [{}]", lost, what()));
                    }
                }
                cx.count("complete AUTHENTICATE messages");
                cx.judged(fnv(&raw));
            }
        }
    }
    if refused > 0 {
        cx.add("clients: calls refused", refused);
        cx.judged(fnv(what().as_bytes()));
    }
    cx.count(["clients: user", "clients: domain", "clients: domain", "clients: workstation", "clients: password", "clients: target", "clients: information"][which]);
    if !fit {
        cx.count("clients: too large");
    }
    cx.sample(|| format!("{}: {refused} calls refused", what()));
    Ok(())
}

// --------------------------------------------------------------------------------------- C28

/// Something that has nothing to do with the value at hand
fn disturb(g: &mut Gen) -> &'static str {
    match g.below(9) {
        0 => {
            let k = pick_kind(g);
            let b = gen_bytes(g, k);
            let _ = guard(|| lib_decode(k, &b).is_some());
            "decoding"
        }
        1 => {
            let k = pick_kind(g);
            let a = gen_any(g, k, Opt::default());
            let _ = guard(|| lib_encode(k, &a).1);
            "encoding"
        }
        2 => {
            let mut a = gen_creds(g, Ws::Fixed("WS1"));
            a.workstation = Some("WS1".into());
            let level = g.below(6) as u32;
            let _ = quick_handshake(&a, level);
            "handshake"
        }
        3 => {
            let l = g.pick(&[log::LevelFilter::Off, log::LevelFilter::Trace, log::LevelFilter::Warn, log::LevelFilter::Debug]);
            log::set_max_level(l);
            "log level"
        }
        4 => {
            for v in ["COMPUTERNAME", "USERDOMAIN", "RUST_LOG", "LANG", "LC_ALL", "NTLM_STRICT"] {
                match g.below(3) {
                    0 => std::env::remove_var(v),
                    1 => std::env::set_var(v, "C"),
                    _ => std::env::set_var(v, g.text(false, 40, 200)),
                }
            }
            "environment"
        }
        5 => {
            // something that is refused half-way
            let a = Any::Av(Av::Name(1, "x".repeat(if cfg!(miri) { 3 } else { 33_000 })));
            let _ = guard(|| lib_encode(Kind::Av, &a).1);
            "refused encoding"
        }
        6 => {
            let _ = guard(|| lib_decode(Kind::Chal, b"NTLMSSP\0\x02\0\0\0").is_some());
            let _ = guard(|| lib_decode(Kind::Auth, &SIG[..]).is_some());
            "failed decoding"
        }
        7 => {
            let sizes: Vec<Vec<u8>> = (0..8).map(|_| vec![0xa5; 1 + g.below(600)]).collect();
            drop(sizes);
            "heap"
        }
        _ => "nothing",
    }
}

type Decoded = (Option<(Any, Vec<u8>)>, bool, String);

fn decode_all(kind: Kind, b: &[u8]) -> Result<Decoded, String> {
    let v = guard(|| lib_decode(kind, b).map(|(v, r)| (v, r.to_vec()))).map_err(|p| theirs(p).text())?;
    let verbose = guard(|| lib_verbose(kind, b)).map_err(|p| theirs(p).text())?;
    let text = guard(|| match kind {
        Kind::Neg => format!("{:?}", decode_verbose::<Negotiate>(b)),
        Kind::Chal => format!("{:?}", decode_verbose::<Challenge>(b)),
        Kind::Auth => format!("{:?}", decode_verbose::<Authenticate>(b)),
        Kind::Avs => format!("{:?}", decode_verbose::<Vec<st::AvPair>>(b)),
        Kind::Nt => format!("{:?}", decode_verbose::<st::NtChallenge>(b)),
        _ => String::new(),
    })
    .map_err(|p| theirs(p).text())?;
    Ok((v, verbose, text))
}

/// Lets values be used from several threads even if their type would not allow it
struct Share<T>(T);
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}
impl<T: Copy> Share<T> {
    fn get(&self) -> T {
        self.0
    }
}

pub fn c28(g: &mut Gen, cx: &mut Cx) -> Case {
    let level = log::max_level();
    let r = if g.bool() { c28_decode(g, cx) } else { c28_encode(g, cx) };
    log::set_max_level(level);
    r
}

fn c28_decode(g: &mut Gen, cx: &mut Cx) -> Case {
    let kind = pick_kind(g);
    let b = if g.one_in(3) {
        let a = gen_any(g, kind, Opt::default());
        ref_encode(kind, &a, Some(g))
    } else {
        gen_bytes(g, kind)
    };
    let what = |s: &str| format!("{s} [{kind:?} {}]", hexs(&b));
    let first = decode_all(kind, &b).map_err(|e| what(&e))?;
    for _ in 0..1 + g.below(3) {
        let by = disturb(g);
        cx.count(&format!("decode, {by}, decode"));
        // at another place in memory, between other bytes
        let (at, behind) = (g.below(17), g.below(17));
        let mut buf = g.bytes(at);
        buf.extend_from_slice(&b);
        buf.extend(g.bytes(behind));
        let again = &buf[at..at + b.len()];
        let second = if g.one_in(200) {
            cx.count("in another thread");
            std::thread::scope(|s| s.spawn(|| decode_all(kind, again)).join().expect("thread"))
        } else {
            decode_all(kind, again)
        }
        .map_err(|e| what(&format!("after {by}: {e}")))?;
        if first != second {
            return Err(what(&format!("the same bytes decode to {:.1500?}, after {by} to {:.1500?}", first, second)));
        }
    }
    cx.count(&format!("decoded_{kind:?}"));
    cx.judged(fnv(&b) ^ kind as u64);
    Ok(())
}

fn c28_encode(g: &mut Gen, cx: &mut Cx) -> Case {
    let kind = pick_kind(g);
    let o = Opt { nul: g.one_in(4), invalid: g.one_in(10), max_infos: 65_000, ..Opt::default() };
    let a = gen_any(g, kind, o);
    let what = |s: &str| format!("{s} [{kind:?} {:.1500?}]", a);
    with_real!(kind, &a, |v| {
        macro_rules! enc {
            ($v:expr) => {
                guard(|| encode($v)).map_err(|p| what(&theirs(p).text()))?
            };
        }
        let first = enc!(v);
        let text = format!("{:?}", v);
        let copy = v.clone();
        let by = disturb(g);
        cx.count(&format!("encode, {by}, encode"));
        let other = copy.clone();
        for (name, same) in [("the value", enc!(v) == first), ("its clone", enc!(&copy) == first), ("a clone of its clone", enc!(&other) == first)] {
            if !same {
                return Err(what(&format!("after {by}, {name} does not encode to {}", hexs(&first))));
            }
        }
        if copy != *v || other != *v {
            return Err(what(&format!("after {by}, a clone is not equal to the value")));
        }
        if format!("{:?}", v) != text || format!("{:?}", copy) != text {
            return Err(what(&format!("after {by}, the value is shown in another way than {:.600}", text)));
        }
        // behind something, and without knowing how much room there is
        let k = g.below(20);
        let mut out = g.bytes(k);
        out.shrink_to_fit();
        if g.bool() {
            out.reserve(g.below(2000));
        }
        let n = guard(|| encode_into(v, &mut out)).map_err(|p| what(&theirs(p).text()))?;
        if !matches!(n, Ok(n) if n == first.len()) || out[k..] != first[..] {
            return Err(what(&format!("encodes to {} and, behind {k} bytes, to {} ({:?})", hexs(&first), hexs(&out[k..]), n)));
        }
        drop((copy, other));
        if enc!(v) != first {
            return Err(what("encodes in another way after its clones are dropped"));
        }
        cx.judged(fnv(&first) ^ kind as u64);
    });
    independent(g, &a, &what)?;
    cx.count(&format!("encoded_{kind:?}"));
    cx.sample(|| what("same bytes each time").chars().take(400).collect());
    Ok(())
}

/// What is done to a clone is not done to the original
fn independent(g: &mut Gen, a: &Any, what: &dyn Fn(&str) -> String) -> Case {
    macro_rules! apart {
        ($v:expr, $change:expr) => {{
            let v = $v;
            let before = encode(&v);
            let mut c = v.clone();
            $change(&mut c);
            let changed = encode(&c);
            if encode(&v) != before {
                return Err(what("encodes in another way after a clone was changed"));
            }
            let mut back = v.clone();
            drop(v);
            $change(&mut back);
            if encode(&back) != changed {
                return Err(what("two clones changed in the same way encode differently"));
            }
        }};
    }
    let name = g.text(false, 40, 60);
    guard(|| {
        match a {
            Any::Neg(m) => apart!(m_neg(m), |c: &mut Negotiate| {
                c.set_domain_name(Some(name.clone()));
                c.set_workstation(None);
            }),
            Any::Chal(m) => apart!(m_chal(m), |c: &mut Challenge| {
                c.set_target_name(Some(name.clone()));
                c.target_infos_add_flags(m_avflags(3));
                c.server_challenge[3] ^= 1;
            }),
            Any::Auth(m) => apart!(m_auth(m), |c: &mut Authenticate| {
                c.user = Some(name.as_str().into());
                if let Some(d) = c.domain.as_mut().filter(|d| d.len() < 1000) {
                    d.push('x');
                }
                c.set_encrypted_random_session_key(Some([9; 16].into()));
                c.mic[0] ^= 1;
            }),
            _ => (),
        }
        Ok(())
    })
    .map_err(|p| what(&theirs(p).text()))?
}

/// Values used from several threads at the same time
pub fn c28_threads(seed: u64, threads: u64, rounds: u64, cx: &mut Cx) -> Case {
    let mut g = Gen::new(mix(seed ^ 0x28));
    for round in 0..rounds {
        let kind = if round < 3 { [Kind::Neg, Kind::Chal, Kind::Auth][round as usize] } else { pick_kind(&mut g) };
        let a = gen_any(&mut g, kind, Opt { max_infos: 2000, ..Opt::default() });
        let b = if g.bool() { ref_encode(kind, &a, Some(&mut g)) } else { gen_bytes(&mut g, kind) };
        let want = decode_all(kind, &b)?;
        let bad = std::sync::Mutex::new(None);
        let barrier = std::sync::Barrier::new(threads as usize);
        with_real!(kind, &a, |v| {
            let first = encode(v);
            let text = format!("{:?}", v);
            let shared = Share(v);
            std::thread::scope(|s| {
                for t in 0..threads {
                    let (shared, first, text, want, b, bad, barrier) = (&shared, &first, &text, &want, &b, &bad, &barrier);
                    s.spawn(move || {
                        let v = shared.get();
                        barrier.wait();
                        for i in 0..if cfg!(miri) { 1 } else { 6 } {
                            let r = guard(|| {
                                let wrong = match (t + i) % 4 {
                                    0 => encode(v) != *first,
                                    1 => encode(&v.clone()) != *first || v.clone() != *v,
                                    2 => format!("{:?}", v) != *text,
                                    _ => decode_all(kind, b).as_ref() != Ok(want),
                                };
                                wrong.then(|| format!("thread {t}: {} differ", ["encodings", "clones", "texts", "decoded values"][((t + i) % 4) as usize]))
                            });
                            match r {
                                Ok(None) => (),
                                Ok(Some(e)) => *bad.lock().unwrap() = Some(e),
                                Err(p) => *bad.lock().unwrap() = Some(theirs(p).text()),
                            }
                        }
                    });
                }
            });
            cx.judged(fnv(&first) ^ t_id(kind));
        });
        cx.evaluations += 1;
        cx.count("values shared between threads");
        if let Some(e) = bad.into_inner().unwrap() {
            return Err(format!("{e} [{kind:?} {:.1500?}]", a));
        }
    }
    cx.max("threads", threads);
    Ok(())
}

fn t_id(kind: Kind) -> u64 {
    mix(kind as u64)
}

// --------------------------------------------------------------------------------------- C30

macro_rules! must {
    ($c:expr, $($t:tt)*) => {
        if !$c {
            return Err(format!($($t)*));
        }
    };
}

/// The text types; one of them can only be named by inference
fn text_type<T>(_: Option<T>, s: &str, g: &mut Gen) -> Case
where
    T: From<String> + for<'a> From<&'a str> + Into<String> + std::ops::DerefMut<Target = String>
        + std::fmt::Display + std::fmt::Debug + PartialEq + Clone + Default,
{
    let mut v = T::from(s);
    let w = T::from(s.to_owned());
    must!(**v == *s && **w == *s, "made from {s:?}, it derefs to {:?} and {:?}", *v, *w);
    must!(v == w, "{s:?} from a &str and from a String are not equal");
    must!(v.to_string() == s && format!("{v:>5}|{v:<9}|{v:^7}|{v:.3}") == format!("{s:>5}|{s:<9}|{s:^7}|{s:.3}"), "{s:?} is displayed as {v}");
    must!(format!("{v:?}") == format!("{s:?}"), "{s:?} is shown as {v:?}");
    must!(T::default().is_empty() && Into::<String>::into(T::default()).is_empty(), "the default is not empty");
    let other = hs::vary(s, g);
    must!((v == T::from(other.as_str())) == (s == other), "{s:?} and {other:?}: wrong about their equality");
    let copy = v.clone();
    v.push_str("\u{e9}!");
    must!(**v == format!("{s}\u{e9}!") && **copy == *s && v != copy, "after push_str: {:?}, the clone {:?}", *v, *copy);
    v.truncate(s.len());
    must!(v == copy, "after truncate: {:?}, the clone {:?}", *v, *copy);
    must!(Into::<String>::into(v) == s, "{s:?} is not what it turns into");
    Ok(())
}

macro_rules! buffer_type {
    ($t:ty, $n:literal, $g:expr) => {{
        let (g, name): (&mut Gen, _) = ($g, stringify!($t));
        let x: [u8; $n] = g.array();
        let mut v = <$t>::from(x);
        must!(v[..] == x && v.len() == $n, "{name} from {} holds {}", hex(&x), hex(&v));
        must!(format!("{v:?}") == hex(&x), "{name} of {} is shown as {v:?}", hex(&x));
        must!(encode(&v) == x, "{name} of {} encodes to {}", hex(&x), hex(&encode(&v)));
        must!(<$t>::default()[..] == [0; $n], "the default {name} is {:?}", <$t>::default());
        let copy = v.clone();
        must!(copy == v && copy[..] == x, "a clone of {name} {} is {}", hex(&x), hex(&copy));
        let (i, bit) = (g.below($n), 1u8 << g.below(8));
        let mut y = x;
        y[i] ^= bit;
        must!(v != <$t>::from(y), "{name} {} equals {}", hex(&x), hex(&y));
        v[i] ^= bit;
        must!(v == <$t>::from(y) && v[..] == y && encode(&v) == y, "{name} {} after changing byte {i}: {}", hex(&x), hex(&v));
        must!(copy[..] == x && copy != v, "changing {name} {} changed its clone to {}", hex(&x), hex(&copy));
        let z: [u8; $n] = g.array();
        must!((<$t>::from(z) == copy) == (z == x), "{name}: wrong about the equality of {} and {}", hex(&x), hex(&z));
        v.copy_from_slice(&z);
        must!(v[..] == z && v.iter().eq(z.iter()), "{name} does not hold {} after it was copied in: {}", hex(&z), hex(&v));
        fnv(&x) ^ $n
    }};
}

pub fn c30(g: &mut Gen, cx: &mut Cx) -> Case {
    let n = g.below(24);
    let fp = guard(|| c30_case(n, g, cx)).map_err(|p| theirs(p).text())??;
    cx.count(match n {
        0..=10 => "byte arrays",
        11 => "conversions between keys",
        12 | 13 => "texts",
        14 => "versions",
        15 => "times",
        16 => "responses",
        17 => "defaults",
        18 => "flag words",
        _ => "pairs of decoded values",
    });
    cx.judged(fp ^ mix(n as u64));
    Ok(())
}

fn c30_case(n: usize, g: &mut Gen, cx: &mut Cx) -> Result<u64, String> {
    Ok(match n {
        0 => buffer_type!(st::ServerChallenge, 8, g),
        1 => buffer_type!(st::ClientChallenge, 8, g),
        2 => buffer_type!(st::SessionBaseKey, 16, g),
        3 => buffer_type!(st::KeyExchangeKey, 16, g),
        4 => buffer_type!(st::ExportedSessionKey, 16, g),
        5 => buffer_type!(st::EncryptedRandomSessionKey, 16, g),
        6 => buffer_type!(st::NtProofStr, 16, g),
        7 => buffer_type!(st::Response16, 16, g),
        8 => buffer_type!(st::Response24, 24, g),
        9 => buffer_type!(st::Mic, 16, g),
        10 => buffer_type!(st::RandomPad, 4, g),
        11 => {
            let x: [u8; 16] = g.array();
            let e: st::EncryptedRandomSessionKey = st::ExportedSessionKey::from(x).into();
            let k: st::KeyExchangeKey = st::SessionBaseKey::from(x).into();
            must!(e[..] == x && k[..] == x, "{} is converted to {} and {}", hex(&x), hex(&e), hex(&k));
            fnv(&x)
        }
        12 | 13 => {
            let a = Authenticate::default();
            let s = g.text(true, 200, 400);
            text_type(a.domain, &s, g)?;
            fnv(s.as_bytes())
        }
        14 => {
            let (major, minor, build) = (g.int(8) as u8, g.int(8) as u8, g.int(16) as u16);
            let v = st::Version::from((major, minor, build));
            must!(o_ver(&v) == Ver { major, minor, build, rev: 15 }, "{major}.{minor}.{build} becomes {v:?}");
            let raw = enc_ver(&o_ver(&v));
            must!(encode(&v) == raw && st::Version::try_from(raw).as_ref() == Ok(&v), "{v:?} is not {}", hex(&raw));
            let mut other = raw;
            other[g.below(8)] ^= 1 << g.below(8);
            let (got, want) = (st::Version::try_from(other).map(|v| o_ver(&v)).ok(), dec_ver(&other).ok());
            must!(got == want, "{} becomes {got:?}, must become {want:?}", hex(&other));
            must!(v != m_ver(&Ver { build: build ^ 1 << g.below(16), ..o_ver(&v) }), "different builds are equal");
            fnv(&raw)
        }
        15 => {
            let t = gen_time(g);
            let v = m_time(t);
            must!(v.as_u64() == t, "{t} is {}", v.as_u64());
            let other = t ^ 1 << g.below(64);
            must!(v == m_time(t) && v != m_time(other) && v.clone() == v, "{t} and {other}: wrong about their equality");
            t
        }
        16 => {
            let (r, c) = (g.array::<24>(), g.array::<8>());
            let (p, cc) = (g.array::<16>(), c);
            let l1 = st::Lmv1Challenge { response: r.into() };
            let l2 = st::Lmv2Challenge { response: p.into(), challenge_from_client: cc.into() };
            let n1 = st::Ntv1Challenge { response: r.into() };
            let blob = m_blob(&gen_blob(g, Opt { max_infos: 400, ..Opt::default() }));
            let nr = st::Ntv2Response { nt_proof_str: p.into(), challenge: blob.clone() };
            must!(st::LmChallenge::from(l1.clone()) == st::LmChallenge::V1(l1.clone()), "{l1:?} becomes something else");
            must!(st::LmChallenge::from(l2.clone()) == st::LmChallenge::V2(l2.clone()), "{l2:?} becomes something else");
            must!(st::NtChallenge::from(n1.clone()) == st::NtChallenge::V1(n1.clone()), "{n1:?} becomes something else");
            must!(st::NtChallenge::from(blob.clone()) == st::NtChallenge::V2(blob.clone()), "{blob:?} becomes something else");
            must!(st::NtChallenge::from(nr.clone()) == st::NtChallenge::V2Response(nr.clone()), "{nr:?} becomes something else");
            must!(st::NtChallenge::from(nr.clone()) != st::NtChallenge::from(blob.clone()), "a response equals what it was computed on");
            let (e1, e2) = (encode(&st::LmChallenge::from(l1)), encode(&st::LmChallenge::from(l2)));
            must!(e1 == r && e2 == [&p[..], &cc].concat(), "LM responses encode to {} and {}", hex(&e1), hex(&e2));
            let (e1, e2) = (encode(&st::NtChallenge::from(n1)), encode(&st::NtChallenge::from(nr)));
            let want = [&p[..], &encode(&blob), &[0; 4]].concat();
            must!(e1 == r && e2 == want, "NT responses encode to {} and {}", hex(&e1), hex(&e2));
            fnv(&want)
        }
        17 => defaults(g)?,
        18 => {
            let (x, y) = (gen_flags(g), gen_flags(g));
            let y = if g.bool() { x ^ 1 << g.below(32) } else { y };
            let (a, b) = (Flags(x), Flags(y));
            must!((a == b) == (x == y) && a == a.clone() && a.0 == x, "{x:08x} and {y:08x}: wrong about their equality");
            (x as u64) << 32 | y as u64
        }
        _ => {
            // two values which are nearly the same
            let kind = pick_kind(g);
            let o = Opt { nul: g.one_in(6), ..Opt::default() };
            let a = gen_any(g, kind, o);
            let raw = ref_encode(kind, &a, Some(g));
            let other = match g.below(6) {
                0 => raw.clone(),
                1 => {
                    let b = gen_any(g, kind, o);
                    ref_encode(kind, &b, None)
                }
                2 => ref_encode(kind, &a, Some(g)),
                _ => {
                    let mut b = raw.clone();
                    if !b.is_empty() {
                        for _ in 0..1 + g.below(2) {
                            let i = g.below(b.len());
                            b[i] ^= 1 << g.below(8);
                        }
                    }
                    b
                }
            };
            cx.count(equality(kind, &raw, &other)?);
            fnv(&raw) ^ mix(fnv(&other))
        }
    })
}

fn defaults(g: &mut Gen) -> Result<u64, String> {
    let n = Negotiate::default();
    must!(n.get_domain_name().is_none() && n.get_workstation().is_none() && n.version.is_none(), "default {n:?}");
    let c = Challenge::default();
    must!(c.get_target_name().is_none() && c.get_target_infos().is_empty() && c.version.is_none() && c.server_challenge[..] == [0; 8], "default {c:?}");
    let a = Authenticate::default();
    let none = a.lm_challenge_response.is_none() && a.nt_challenge_response.is_none() && a.domain.is_none() && a.user.is_none()
        && a.workstation.is_none() && a.get_encrypted_random_session_key().is_none() && a.version.is_none() && a.exported_session_key.is_none();
    must!(none && a.mic[..] == [0; 16], "default {a:?}");
    must!(st::LmChallenge::default() == st::LmChallenge::V2(Default::default()), "default {:?}", st::LmChallenge::default());
    must!(st::NtChallenge::default() == st::NtChallenge::V2(Default::default()), "default {:?}", st::NtChallenge::default());
    must!(st::AvPair::default() == st::AvPair::MsvAvEOL && o_time(&st::FileTime::default()) == 0 && o_avflags(&Default::default()) == 0, "default pairs");
    let s = st::MessageSignature::default();
    must!(s.random_pad[..] == [0; 4] && s.checksum == 0 && s.seq_num == 0, "default {s:?}");
    must!(o_host(&Default::default()) == Av::Host { size: 0, z4: 0, custom: [0; 8], machine: [0; 32] }, "default host data");
    // a message without anything in it can be told from one with something, whichever it is
    let (k, mut b) = (g.array::<16>(), a.clone());
    b.exported_session_key = Some(k.into());
    let mut d = a.clone();
    let mut near = k;
    near[g.below(16)] ^= 1 << g.below(8);
    d.exported_session_key = Some(near.into());
    must!(a != b && b != d && b == b.clone() && b.clone().exported_session_key.map(|k| k.to_vec()) == Some(k.to_vec()), "session keys do not count");
    Ok(fnv(&k))
}

/// Whether two decoded values compare as what they say does
fn equality(kind: Kind, a: &[u8], b: &[u8]) -> Result<&'static str, String> {
    macro_rules! pair {
        ($t:ty, $o:expr) => {{
            let (Some((_, x)), Some((_, y))) = (decode_any::<$t>(a), decode_any::<$t>(b)) else { return Ok("not decodable") };
            let (p, q) = ($o(&x), $o(&y));
            let (xx, yy) = (x.clone(), y.clone());
            must!($o(&xx) == p && $o(&yy) == q && xx == x && yy == y, "a clone is not its original [{kind:?} {}]", hexs(a));
            let all = [x == y, y == x, xx == y, !(x != y)];
            must!(all.iter().all(|e| *e == (p == q)), "{:.800?} and {:.800?}: equal {:?}", p, q, all);
            if p == q { "equal" } else { "different" }
        }};
    }
    Ok(match kind {
        Kind::Neg => pair!(Negotiate, o_neg),
        Kind::Chal => pair!(Challenge, o_chal),
        Kind::Auth => pair!(Authenticate, o_auth),
        Kind::Av => pair!(st::AvPair, o_av),
        Kind::Avs => pair!(Vec<st::AvPair>, |v: &Vec<_>| o_avs(v)),
        Kind::AvFlags => pair!(st::MsvAvFlags, o_avflags),
        Kind::Host => pair!(st::SingleHostData, o_host),
        Kind::Lm => pair!(st::LmChallenge, o_lm),
        Kind::Lm2 => pair!(st::Lmv2Challenge, |v: &st::Lmv2Challenge| (v.response.to_vec(), v.challenge_from_client.to_vec())),
        Kind::Lm1 => pair!(st::Lmv1Challenge, |v: &st::Lmv1Challenge| v.response.to_vec()),
        Kind::Nt => pair!(st::NtChallenge, o_nt),
        Kind::Nt1 => pair!(st::Ntv1Challenge, |v: &st::Ntv1Challenge| v.response.to_vec()),
        Kind::Blob => pair!(st::Ntv2Challenge, o_blob),
        Kind::NtResp => pair!(st::Ntv2Response, |v: &st::Ntv2Response| (v.nt_proof_str.to_vec(), o_blob(&v.challenge))),
        Kind::Sig => pair!(st::MessageSignature, |v: &st::MessageSignature| (v.random_pad.to_vec(), v.checksum, v.seq_num)),
        _ => pair!(st::FileTime, o_time),
    })
}

// --------------------------------------------------------------------------------------- C31

fn settle() -> isize {
    sys::live()
}

/// Files and threads of this process; the monitor's own watchdog opens a file now and then
#[cfg(not(miri))]
fn handles() -> (usize, usize) {
    let count = |p: &str| std::fs::read_dir(p).map_or(0, |d| d.count());
    (0..5).map(|_| (count("/proc/self/fd"), count("/proc/self/task"))).min().unwrap()
}

enum Work {
    Decode(Kind, Vec<u8>),
    Encode(Kind, Any),
    Handshake(Creds, u32, Option<Chal>),
    Client(Creds, u32, Chal, usize),
}

impl Work {
    /// Nothing of it is left when it returns
    fn run(&self) {
        match self {
            Work::Decode(k, b) => {
                let _ = guard(|| lib_decode(*k, b).is_some());
                let _ = guard(|| lib_verbose(*k, b));
            }
            Work::Encode(k, a) => {
                let _ = guard(|| lib_encode(*k, a).1);
            }
            Work::Handshake(c, level, m) => {
                let Ok(mut client) = guard(|| Any6::make(*level, c)) else { return };
                let _ = client.negotiate();
                if let Some(m) = m {
                    if let Ok(real) = guard(|| m_chal(m)) {
                        let _ = client.recv(real);
                    }
                }
                let _ = client.authenticate();
            }
            Work::Client(c, level, m, rounds) => {
                let Ok(mut client) = guard(|| Any6::make(*level, c)) else { return };
                Work::rounds(&mut client, m, *rounds);
            }
        }
    }

    fn rounds(client: &mut Any6, m: &Chal, rounds: usize) {
        for _ in 0..rounds {
            let _ = client.negotiate();
            if let Ok(real) = guard(|| m_chal(m)) {
                let _ = client.recv(real);
            }
            let _ = client.authenticate();
        }
    }

    fn text(&self) -> String {
        match self {
            Work::Decode(k, b) => format!("decoding {k:?} {}", hexs(b)),
            Work::Encode(k, a) => format!("encoding {k:?} {:.600?}", a),
            Work::Handshake(c, l, m) => format!("handshake at level {l}, {}, {:.600?}", c.text(), m),
            Work::Client(c, l, m, n) => format!("{n} handshakes of a client at level {l}, {}, {:.600?}", c.text(), m),
        }
    }
}

fn buildable(m: &Chal) -> bool {
    m.infos.is_empty() || m.infos.iter().filter(|a| **a == Av::Eol).count() == 1 && m.infos.last() == Some(&Av::Eol)
}

fn gen_work(g: &mut Gen) -> Work {
    let n = g.below(20);
    match n {
        0..=6 => {
            let k = pick_kind(g);
            Work::Decode(k, gen_bytes(g, k))
        }
        7..=10 => {
            let k = pick_kind(g);
            let o = Opt { nul: g.one_in(4), ..Opt::default() };
            Work::Encode(k, gen_any(g, k, o))
        }
        11 => {
            let (k, a) = gen_large(g);
            Work::Encode(k, a)
        }
        _ => {
            let mut c = gen_creds(g, Ws::Vary);
            if g.one_in(20) {
                // refused
                let s = exact(g, 33_000, true);
                if g.bool() { c.user = s } else { c.domain = s }
                c.via_new = false;
            }
            let m = std::iter::repeat_with(|| hs::gen_server_challenge(g)).find(buildable).unwrap();
            let level = if g.one_in(30) { 6 } else { g.below(6) as u32 };
            match n {
                12..=15 => Work::Handshake(c, level, (!g.one_in(8)).then_some(m)),
                _ => Work::Client(c, level, m, 1 + g.below(4)),
            }
        }
    }
}

thread_local! {
    /// What all cases of this process have left behind: growth, cases
    static LEFT: std::cell::Cell<(isize, usize)> = const { std::cell::Cell::new((0, 0)) };
    static WARM: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn c31(g: &mut Gen, cx: &mut Cx) -> Case {
    if cfg!(any(miri, no_interpose)) {
        return Ok(());
    }
    if !WARM.with(|w| w.replace(true)) {
        // whatever is set up once
        let mut g = Gen::new(31);
        for _ in 0..300 {
            let w = gen_work(&mut g);
            w.run();
        }
    }
    let w = gen_work(g);
    if let Work::Handshake(c, ..) | Work::Client(c, ..) = &w {
        hs::environment(c);
    }
    let what = |s: String| format!("{s} [{}]", w.text());
    let start = settle();
    w.run();
    let first = settle() - start;
    // the same once more must not leave anything: the first time may have filled something
    let mut least = isize::MAX;
    let mut total = first;
    for _ in 0..3 {
        let before = settle();
        w.run();
        let grown = settle() - before;
        total += grown;
        least = least.min(grown);
        if grown <= 0 {
            break;
        }
    }
    if least > 0 {
        return Err(what(format!("leaves {least} bytes allocated every time it is done")));
    }
    let (left, cases) = LEFT.with(|l| {
        let (a, n) = l.get();
        l.set((a + total, n + 1));
        (a + total, n + 1)
    });
    if left > 64 * 1024 {
        return Err(what(format!("{cases} different things done and dropped have left {left} bytes allocated")));
    }
    cx.max("bytes left behind at most", left.max(0) as u64);
    if let Work::Client(c, level, m, _) = &w {
        if g.one_in(3) {
            rounds(c, *level, m, g, cx).map_err(what)?;
        }
    }
    #[cfg(not(miri))]
    if g.one_in(50) {
        let before = handles();
        for _ in 0..3 {
            w.run();
        }
        let after = handles();
        if after.0 > before.0 || after.1 > before.1 {
            // unless it is the monitor's own
            std::thread::sleep(std::time::Duration::from_millis(30));
            let after = handles();
            if after.0 > before.0 || after.1 > before.1 {
                return Err(what(format!("{:?} files and threads before, {:?} after", before, after)));
            }
        }
        cx.count("files and threads counted");
    }
    cx.count(match &w {
        Work::Decode(..) => "decodings",
        Work::Encode(..) => "encodings",
        Work::Handshake(..) => "handshakes",
        Work::Client(..) => "clients with several handshakes",
    });
    cx.judged(fnv(w.text().as_bytes()));
    cx.sample(|| format!("{}: {first} bytes left the first time, {least} later", w.text()));
    Ok(())
}

/// A client does not get larger with every handshake
fn rounds(c: &Creds, level: u32, m: &Chal, g: &mut Gen, cx: &mut Cx) -> Case {
    let Ok(mut client) = guard(|| Any6::make(level, c)) else { return Ok(()) };
    Work::rounds(&mut client, m, 6);
    let early = settle();
    let n = 20 + g.below(20);
    Work::rounds(&mut client, m, n);
    let late = settle();
    // buffers may have been found too small once more, but not again and again
    if late > early {
        Work::rounds(&mut client, m, n);
        let later = settle();
        if later > late {
            return Err(format!("a client gets larger with its handshakes: {} bytes after {n}, {} after {} more", late - early, later - early, n));
        }
    }
    cx.count("clients used for dozens of handshakes");
    Ok(())
}
