//! Handshakes: the real client driven through random histories, observed by a reference server.

use crate::codec::{audit, lib_decode, Any, Kind};
use crate::crypto::*;
use crate::cx::{guard, Case, Cx, Panic};
use crate::gen::Gen;
use crate::model::*;
use crate::real::*;
use crate::sys;
use crate::util::*;
use http_ntlm::client::Client;
use http_ntlm::messages::Challenge;
use http_ntlm::NtlmVersion;

// ---------------------------------------------------------------------------- the real client

macro_rules! levels {
    ($($name:ident $n:literal),*) => {
        $(pub struct $name; impl NtlmVersion for $name { fn version() -> u32 { $n } })*
        pub enum Any6 { $($name(Client<$name>)),* }
        impl Any6 {
            pub fn make(level: u32, c: &Creds) -> Any6 {
                let (u, d, p, t) = (c.given.clone(), c.domain.clone(), c.password.clone(), c.target.clone());
                match level {
                    $($n => Any6::$name(if c.via_new { Client::new(u, p, t) } else { Client::new_with_domain(c.user.clone(), d, p, t) }),)*
                    _ => unreachable!(),
                }
            }
            pub fn negotiate(&mut self) -> Result<Vec<u8>, Panic> {
                match self { $(Any6::$name(c) => guard(|| c.send_negociate().to_vec())),* }
            }
            pub fn recv(&mut self, m: Challenge) -> Result<(), Panic> {
                match self { $(Any6::$name(c) => guard(|| c.recv_challenge(m))),* }
            }
            pub fn authenticate(&mut self) -> Result<Vec<u8>, Panic> {
                match self { $(Any6::$name(c) => guard(|| c.send_authenticate().to_vec())),* }
            }
            #[cfg(not(http_ntlm_verif_no_client))]
            pub fn session_key(&self) -> Option<Option<[u8; 16]>> {
                Some(match self { $(Any6::$name(c) => c.verif_authenticate().and_then(|a| a.exported_session_key.as_ref()).map(|k| arr(k))),* })
            }
            #[cfg(not(http_ntlm_verif_no_client))]
            pub fn set_version(&mut self, v: Option<Ver>) {
                match self { $(Any6::$name(c) => c.verif_set_version(v.as_ref().map(m_ver))),* }
            }
        }
    };
}
levels!(L0 0, L1 1, L2 2, L3 3, L4 4, L5 5, L6 6, L7 7, LBig 4294967295);

#[cfg(http_ntlm_verif_no_client)]
impl Any6 {
    pub fn session_key(&self) -> Option<Option<[u8; 16]>> {
        None
    }
    pub fn set_version(&mut self, _: Option<Ver>) {}
}

pub const HOOKED: bool = cfg!(not(http_ntlm_verif_no_client));

// -------------------------------------------------------------------------------- credentials

#[derive(Clone, Debug)]
pub struct Creds {
    /// What `Client::new` gets
    pub given: String,
    pub user: String,
    pub domain: String,
    pub password: String,
    pub target: String,
    pub via_new: bool,
    /// COMPUTERNAME; `None`: unset, and there is no /etc/hostname
    pub workstation: Option<String>,
}

impl Creds {
    pub fn text(&self) -> String {
        format!(
            "{} user {} domain {} password {} workstation {:?}",
            if self.via_new { format!("new({})", short(&self.given)) } else { "new_with_domain".into() },
            short(&self.user),
            short(&self.domain),
            short(&self.password),
            self.workstation.as_deref().map(short)
        )
    }
}

/// How the name a client is created from is taken apart
pub fn split_name(given: &str) -> (String, String) {
    if let Some(i) = given.find('\\') {
        return (given[i + 1..].to_owned(), given[..i].to_owned());
    }
    if let Some(i) = given.find('@') {
        return (given[..i].to_owned(), given[i + 1..].to_owned());
    }
    (given.to_owned(), String::new())
}

fn name(g: &mut Gen, domain: bool) -> String {
    let max = if g.one_in(60) { 65534 } else { 80 };
    g.text(true, max, if domain { 65535 } else { usize::MAX })
}
#[derive(Clone, Copy, PartialEq)]
pub enum Ws {
    /// Set the environment for every client
    Vary,
    /// Leave it as it is: COMPUTERNAME=this
    Fixed(&'static str),
}

pub fn gen_creds(g: &mut Gen, ws: Ws) -> Creds {
    let user = name(g, false);
    let domain = if g.one_in(4) { String::new() } else { name(g, true) };
    let password = match g.below(20) {
        0 => String::new(),
        1 => {
            // around the two halves of the LM hash
            let n = 5 + g.below(12);
            (0..n).map(|_| g.char(3, false)).collect()
        }
        2..=8 => {
            let max = if g.one_in(40) { 65534 } else { 60 };
            g.text(true, max, usize::MAX)
        }
        _ => {
            let n = g.len(40);
            (0..n).map(|_| g.char(3, false)).collect()
        }
    };
    let long = if g.one_in(100) { 70_000 } else if g.one_in(20) { 700 } else { 60 };
    let target = g.text(true, long, usize::MAX);
    let via_new = g.bool();
    // names that have to do with each other
    let (mut user, mut domain, mut password) = (user, domain, password);
    match g.below(20) {
        0 => user = alike(&domain, g),
        1 => domain = alike(&user, g),
        2 => password = alike(if g.bool() { &user } else { &domain }, g),
        _ => (),
    }
    if domain.len() > 65535 || utf16(&user).len() > 65534 || utf16(&domain).len() > 65534 {
        domain = "Domain".into();
        user = "DOMAIN".into();
    }
    let (mut given, mut u, mut d) = (user.clone(), user, domain);
    if via_new {
        given = match g.below(6) {
            0 | 1 => format!("{}\\{}", d, u),
            2 | 3 => format!("{}@{}", u, d),
            4 if g.bool() => {
                let mut s: String = format!("{}{}", u, d);
                let seps = g.pick(&["\\", "@", "\\\\", "@@", "@\\", "\\@", "@a\\b@", "\\a@b\\"]);
                let at = s.char_indices().map(|(i, _)| i).nth(g.below(1 + u.chars().count())).unwrap_or(s.len());
                s.insert_str(at, seps);
                s
            }
            _ => given,
        };
        (u, d) = split_name(&given);
        if utf16(&u).len() > 65534 || utf16(&d).len() > 65534 || d.len() > 65535 {
            given = "D\\user".into();
            (u, d) = split_name(&given);
        }
    }
    let workstation = match ws {
        Ws::Fixed(w) => Some(w.to_owned()),
        Ws::Vary => match g.below(8) {
            0 if sys::INTERPOSED => None,
            1 => Some(String::new()),
            5 if g.bool() => Some(alike(if g.bool() { &u } else { &d }, g)).filter(|w| !w.contains('\0') && utf16(w).len() <= 65534),
            2..=4 => {
                let max = if g.one_in(60) { 65534 } else { 60 };
                Some(g.text(false, max, usize::MAX))
            }
            _ => Some("WS1".to_owned()),
        },
    };
    Creds { given, user: u, domain: d, password, target, via_new, workstation }
}

/// The same name, or in another case
fn alike(s: &str, g: &mut Gen) -> String {
    match g.below(4) {
        0 => s.to_uppercase(),
        1 => s.to_lowercase(),
        2 => s.chars().map(|c| if g.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        _ => s.to_owned(),
    }
}

/// A server that knows the client by name
fn acquaint(m: &mut Chal, c: &Creds, g: &mut Gen) {
    let of = |g: &mut Gen| {
        let s = match g.below(6) {
            0 => &c.user,
            1 | 2 => c.workstation.as_ref().unwrap_or(&c.domain),
            _ => &c.domain,
        };
        Some(alike(s, g)).filter(|n| !n.contains('\0') && n.len() < 500)
    };
    if g.bool() {
        if let Some(n) = of(g) {
            m.name = Some(n);
        }
    }
    let mut done = false;
    for a in m.infos.iter_mut() {
        if let Av::Name(_, n) = a {
            if n.len() < 500 && g.bool() {
                if let Some(known) = of(g) {
                    *n = known;
                    done = true;
                }
            }
        }
    }
    let len: usize = m.infos.len();
    if !done && len < 8 {
        if let Some(n) = of(g) {
            let at = g.below(len.max(1));
            m.infos.insert(at, Av::Name(g.pick(&NAME_IDS), n));
            if len == 0 {
                m.infos.push(Av::Eol);
            }
        }
    }
}

/// Another character of the same length in UTF-8, so that lengths give nothing away
fn neighbour(c: char, g: &mut Gen) -> char {
    let near = char::from_u32(c as u32 ^ (1 << g.below(4))).filter(|n| n.len_utf8() == c.len_utf8() && !matches!(n, '\\' | '@' | '\0'..='\x1f'));
    near.unwrap_or(match c.len_utf8() {
        1 => 'q',
        2 => '\u{e9}',
        3 => '\u{20ac}',
        _ => '\u{1f600}',
    })
}

pub fn vary(s: &str, g: &mut Gen) -> String {
    let n = s.chars().count();
    if n == 0 {
        return "x".into();
    }
    let at = match g.below(3) {
        0 => 0,
        1 => n - 1,
        _ => g.below(n),
    };
    match g.below(8) {
        0 => s.chars().map(|c| if c.is_ascii() { c.to_ascii_uppercase() } else { c }).collect(),
        1 => s.chars().map(|c| if c.is_ascii() { c.to_ascii_lowercase() } else { c }).collect(),
        2 => s.chars().rev().collect(),
        3 if s.len() < 60_000 => format!("{s}{}", g.char(0, false)),
        4 => s.chars().take(n - 1).collect(),
        _ => s.chars().enumerate().map(|(i, c)| if i == at { neighbour(c, g) } else { c }).collect(),
    }
}

/// Somebody who differs in one respect (or none)
pub fn relative(c: &Creds, g: &mut Gen) -> Creds {
    let mut r = c.clone();
    match g.below(8) {
        0 => return r,
        1..=3 => r.password = vary(&c.password, g),
        4 => r.user = vary(&c.user, g),
        5 => r.domain = vary(&c.domain, g),
        6 => (r.user, r.domain) = (c.domain.clone(), c.user.clone()),
        _ => r.target = vary(&c.target, g),
    }
    if r.via_new && (&r.user, &r.domain) != (&c.user, &c.domain) {
        r.given = format!("{}\\{}", r.domain, r.user);
        (r.user, r.domain) = split_name(&r.given);
    }
    if r.domain.len() > 65535 || utf16(&r.user).len() > 65534 {
        return c.clone();
    }
    r
}

/// A password that does not turn up anywhere by accident
fn recognisable(g: &mut Gen) -> String {
    let n = if g.one_in(3) { 8 + g.below(6) } else { 14 + g.below(10) };
    let unicode = g.one_in(3);
    (0..n)
        .map(|i| if unicode && i % 3 == 2 { g.char(5, false) } else { g.char(0, false) })
        .collect()
}

pub fn environment(c: &Creds) {
    match &c.workstation {
        Some(w) => std::env::set_var("COMPUTERNAME", w),
        None => {
            std::env::remove_var("COMPUTERNAME");
            // missing most of the time, or not readable for another reason
            let errno = [2, 2, 2, 13, 5, 20, 40, 24][c.password.len().wrapping_add(c.user.len()) % 8];
            sys::set_hostname(Some(Err(errno)));
        }
    }
}

// --------------------------------------------------------------------------- reference server

pub struct Secrets {
    pub nt: [u8; 16],
    /// One per reading of the specification
    pub lm: Vec<[u8; 16]>,
    pub v2: Vec<[u8; 16]>,
}

pub fn secrets(c: &Creds) -> Secrets {
    if cfg!(miri) {
        return Secrets { nt: [0; 16], lm: vec![[0; 16]], v2: vec![[0; 16]] };
    }
    let nt = nt_hash(&c.password);
    Secrets { nt, lm: lm_hashes(&c.password), v2: ntlmv2_hashes(&c.user, &nt, &c.domain) }
}

pub fn ticks(sec: i64, nsec: i64) -> u64 {
    ((sec as i128 + 11_644_473_600) * 10_000_000 + nsec as i128 / 100) as u64
}

/// What an AUTHENTICATE message answers
pub struct Ctx<'a> {
    pub creds: &'a Creds,
    pub sec: &'a Secrets,
    pub level: u32,
    pub version: Option<Ver>,
    pub neg: &'a [u8],
    pub chal: &'a Chal,
    /// The CHALLENGE as the library encodes it
    pub chal_raw: &'a [u8],
    /// Earliest and latest possible current time
    pub now: (u64, u64),
    /// Session key the client claims to have (hook)
    pub hook_key: Option<Option<[u8; 16]>>,
}

#[derive(Default)]
pub struct Judged {
    /// Property and how it is violated
    pub bad: Vec<(&'static str, String)>,
    pub client_challenge: Option<[u8; 8]>,
    /// Session key chosen by the client
    pub random_key: Option<[u8; 16]>,
    /// The session key as a server derives it
    pub server_key: Option<[u8; 16]>,
    pub secret_keys: Vec<[u8; 16]>,
    pub own_time: bool,
    pub key_checked: bool,
    pub lm_checked: bool,
}

pub fn field(raw: &[u8], slot: usize) -> Option<&[u8]> {
    let (len, off) = (le16(raw.get(slot..slot + 2)?) as usize, le32(raw.get(slot + 4..slot + 8)?) as usize);
    if len == 0 {
        return Some(&[]);
    }
    raw.get(off..off + len)
}

pub fn first_time(infos: &[Av]) -> Option<u64> {
    infos.iter().find_map(|a| match a {
        Av::Time(t) => Some(*t),
        _ => None,
    })
}

pub fn has(flags: u32, bit: u32) -> bool {
    flags & bit != 0
}

/// Everything a server, and somebody reading along, can say about an AUTHENTICATE message
pub fn judge(raw: &[u8], c: &Ctx) -> Judged {
    let mut j = Judged::default();
    macro_rules! bad {
        ($p:expr, $($t:tt)*) => { j.bad.push(($p, format!($($t)*))) };
    }
    let auth = match dec_auth(raw, false) {
        Ok(a) => a,
        Err(Some(e)) => {
            bad!("C14", "AUTHENTICATE message is not decodable: {}", e);
            bad!("C04", "AUTHENTICATE message is not decodable: {}", e);
            return j;
        }
        Err(None) => return j,
    };
    if !(cfg!(feature = "strict") && forbidden(auth.flags)) {
        match guard(|| lib_decode(Kind::Auth, raw)) {
            Ok(Some((v, _))) if v == Any::Auth(auth.clone()) => (),
            Ok(other) => bad!("C14", "the library decodes its AUTHENTICATE message as {:.600?}", other.map(|o| o.0)),
            Err(p) => bad!("C14", "decoding the AUTHENTICATE message: {}", p.text()),
        }
    }
    if cfg!(miri) {
        return j; // Miri itself is the judge
    }
    let (lm, nt) = (field(raw, 12).unwrap(), field(raw, 20).unwrap());
    // C15
    for (what, slot, want) in [
        ("domain", 28, &c.creds.domain),
        ("user", 36, &c.creds.user),
        ("workstation", 44, c.creds.workstation.as_ref().unwrap_or(&String::new())),
    ] {
        let got = field(raw, slot).unwrap();
        if got != utf16(want) {
            bad!(
                if what == "workstation" { "C22" } else { "C15" },
                "{} is {}, must be {} ({})",
                what, hexs(got), hexs(&utf16(want)), short(want)
            );
            if what == "workstation" {
                bad!("C15", "workstation is {}, must be {}", hexs(got), short(want));
            }
        }
    }
    // C04: nothing but these fields
    let want = Auth {
        domain: Some(c.creds.domain.clone()),
        user: Some(c.creds.user.clone()),
        workstation: c.creds.workstation.clone(),
        ..auth.clone()
    };
    if let Err(e) = audit(raw, &parts_auth(&want)) {
        bad!("C04", "AUTHENTICATE message: {}", e);
    }
    let sc = &c.chal.challenge;
    let fl = c.chal.flags;
    let ess = has(fl, f::ESS);
    let exchange = has(fl, f::KEY_EXCH) && (has(fl, f::SIGN) || has(fl, f::SEAL));
    let lm24: Option<[u8; 24]> = lm.try_into().ok();
    // the key exchange key; several, where the specification is not clear
    let mut keks: Vec<[u8; 16]> = Vec::new();
    if c.level <= 2 {
        let cc: Option<[u8; 8]> = if ess { lm24.map(|l| arr(&l[..8])) } else { None };
        j.client_challenge = cc;
        let want_nt = match (ess, cc) {
            (true, Some(cc)) => desl(&c.sec.nt, &arr(&md5(&[&sc[..], &cc[..]].concat())[..8])),
            _ => desl(&c.sec.nt, sc),
        };
        if nt != want_nt {
            bad!("C08", "NT response is {}, must be {}", hexs(nt), hex(&want_nt));
        }
        let mut lm_hashes = c.sec.lm.clone();
        let want_lm = match (ess, cc, c.level) {
            (true, Some(cc), _) => {
                let mut l = [0; 24];
                l[..8].copy_from_slice(&cc);
                l
            }
            (_, _, 0) => {
                // whichever the client went by
                if let Some(h) = c.sec.lm.iter().find(|h| desl(h, sc) == lm) {
                    lm_hashes = vec![*h];
                }
                desl(&lm_hashes[0], sc)
            }
            _ => want_nt,
        };
        j.lm_checked = true;
        if lm != want_lm {
            bad!("C08", "LM response is {}, must be {}", hexs(lm), hex(&want_lm));
        }
        let sbk = md4(&c.sec.nt);
        j.secret_keys.push(sbk);
        if let Some(l) = lm24 {
            if ess {
                keks.push(hmac_md5(&sbk, &[sc, &l[..8]]));
            } else if has(fl, f::LM_KEY) {
                for h in &lm_hashes {
                    let mut k = [0; 16];
                    k[..8].copy_from_slice(&des7(&h[..7], &arr(&l[..8])));
                    let second = [h[7], 0xbd, 0xbd, 0xbd, 0xbd, 0xbd, 0xbd];
                    k[8..].copy_from_slice(&des7(&second, &arr(&l[..8])));
                    keks.push(k);
                }
            } else if has(fl, f::NON_NT_KEY) {
                for h in &lm_hashes {
                    let mut k = [0; 16];
                    k[..8].copy_from_slice(&h[..8]);
                    keks.push(k);
                }
            } else {
                keks.push(sbk);
            }
        }
    } else {
        match &auth.nt {
            Some(Nt::V2(proof, blob)) => {
                j.client_challenge = Some(blob.cc);
                let proofs: Vec<[u8; 16]> = c.sec.v2.iter().map(|h| hmac_md5(h, &[sc, &nt[16..]])).collect();
                let which = proofs.iter().position(|p| p == proof);
                if which.is_none() {
                    bad!("C09", "proof is {}, must be {} over {}", hex(proof), hex(&proofs[0]), hexs(&nt[16..]));
                }
                let v2 = c.sec.v2[which.unwrap_or(0)];
                let sbk = hmac_md5(&v2, &[proof]);
                keks.push(sbk);
                j.secret_keys.push(sbk);
                let l = hmac_md5(&v2, &[sc, &blob.cc]);
                if lm[..lm.len().min(16)] != l || lm.get(16..) != Some(&blob.cc[..]) {
                    bad!("C09", "LM response is {}, must be {}{}", hexs(lm), hex(&l), hex(&blob.cc));
                }
                if blob.infos != c.chal.infos {
                    bad!("C09", "target information is {:.400?}, must be {:.400?}", blob.infos, c.chal.infos);
                }
                match first_time(&c.chal.infos) {
                    Some(t) if t != blob.time => bad!("C09", "time is {:x}, the server's is {:x}", blob.time, t),
                    None if blob.time < c.now.0 || blob.time > c.now.1 => {
                        bad!("C09", "time is {:x}, now is {:x}", blob.time, c.now.0)
                    }
                    t => j.own_time = t.is_none(),
                }
            }
            other => bad!("C09", "NT response is {:.200?} ({})", other, hexs(nt)),
        }
    }
    j.secret_keys.extend(&keks);
    // C10
    let enc = field(raw, 52).unwrap();
    if exchange {
        if enc.len() != 16 || !has(auth.flags, f::KEY_EXCH) {
            bad!("C10", "key exchange is agreed upon, the encrypted key is {:?} and the flags {:08x}", hexs(enc), auth.flags);
        }
    } else if !enc.is_empty() || has(auth.flags, f::KEY_EXCH) {
        bad!("C10", "no key exchange, the encrypted key is {:?} and the flags {:08x}", hexs(enc), auth.flags);
    }
    let server_keys: Vec<[u8; 16]> = match (exchange, enc.len()) {
        (true, 16) => keks.iter().map(|k| arr(&rc4(k, enc))).collect(),
        (false, _) => keks,
        _ => vec![],
    };
    let server_key = match (&server_keys[..], c.hook_key.flatten()) {
        ([one], _) => Some(*one),
        (several, Some(h)) => several.iter().find(|s| **s == h).or(several.first()).copied(),
        _ => None,
    };
    if exchange {
        j.random_key = server_key;
    }
    if let Some(hook) = c.hook_key {
        match (hook, server_key) {
            (None, _) => bad!("C10", "the client has no session key"),
            (Some(h), Some(s)) if h != s => bad!("C10", "client's session key is {}, the server's {}", hex(&h), hex(&s)),
            (Some(h), None) => {
                // as far as it can be known
                j.secret_keys.push(h)
            }
            _ => j.key_checked = true,
        }
    }
    j.secret_keys.extend(server_key);
    j.server_key = server_key.or(c.hook_key.flatten());
    // C11
    let at = if has(auth.flags, f::VERSION) { 72 } else { 64 };
    let mic = &raw[at..at + 16];
    if c.level <= 2 {
        if mic != [0; 16] {
            bad!("C11", "MIC at level {} is {}", c.level, hex(mic));
        }
    } else {
        let hook_key = c.hook_key.flatten();
        if let Some(k) = server_key.or(hook_key) {
            let mut zeroed = raw.to_vec();
            zeroed[at..at + 16].fill(0);
            let want = hmac_md5(&k, &[c.neg, c.chal_raw, &zeroed]);
            if mic != want {
                bad!("C11", "MIC is {}, must be {} under {}", hex(mic), hex(&want), hex(&k));
            }
        }
    }
    // C24
    let mut want = (fl | f::UNICODE | f::REQUEST_TARGET | f::TARGET_INFO) & !(f::OEM | f::TYPE_SERVER);
    want &= !(f::KEY_EXCH | f::VERSION);
    if !enc.is_empty() {
        want |= f::KEY_EXCH;
    }
    if c.version.is_some() {
        want |= f::VERSION;
    }
    if auth.flags != want {
        bad!("C24", "flags are {:08x}, must be {:08x} (the challenge's are {:08x})", auth.flags, want, fl);
    }
    if auth.version != c.version {
        bad!("C24", "version is {:?}, must be {:?}", auth.version, c.version);
    }
    // C19
    let md = |cc: &[u8]| -> [u8; 8] { arr(&md5(&[&sc[..], cc].concat())[..8]) };
    if c.level >= 3 {
        if nt.len() < 44 {
            bad!("C19", "level {}: the NT response {} is no NTLMv2 response", c.level, hexs(nt));
        }
        let mut forbidden = vec![desl(&c.sec.nt, sc)];
        forbidden.extend(c.sec.lm.iter().map(|h| desl(h, sc)));
        if lm.len() >= 8 {
            forbidden.push(desl(&c.sec.nt, &md(&lm[..8])));
        }
        for r in [lm, nt] {
            if r.len() >= 24 && forbidden.iter().any(|f| r[..24] == f[..]) {
                bad!("C19", "level {}: {} is an NTLMv1 response", c.level, hexs(r));
            }
        }
        if lm.len() == 24 && lm[8..] == [0; 16] && lm[..8] != [0; 8] {
            bad!("C19", "level {}: the LM response is that of extended session security", c.level);
        }
    }
    if c.level >= 1 {
        let mut forbidden: Vec<_> = c.sec.lm.iter().map(|h| desl(h, sc)).collect();
        if lm.len() >= 8 {
            forbidden.extend(c.sec.lm.iter().map(|h| desl(h, &md(&lm[..8]))));
        }
        for (what, r) in [("LM", lm), ("NT", nt)] {
            // the third block only has two unknown bytes, but coincidence is out of the question for 16
            if r.len() >= 16 && forbidden.iter().any(|f| r[..16] == f[..16]) {
                bad!("C19", "level {}: the {} response {} is computed from the LM hash", c.level, what, hexs(r));
            }
        }
    }
    j
}

pub fn offer(level: u32) -> u32 {
    f::UNICODE | f::OEM | f::SIGN | f::ALWAYS_SIGN | f::SEAL | f::K128 | f::REQUEST_TARGET | f::TYPE_SERVER
        | match level {
            0 => f::NTLM | f::LM_KEY | f::KEY_EXCH,
            1 => f::NTLM | f::ESS,
            _ => f::ESS | f::KEY_EXCH | f::TARGET_INFO,
        }
}

pub fn judge_neg(raw: &[u8], creds: &Creds, level: u32, version: Option<Ver>) -> Vec<(&'static str, String)> {
    let mut v = Vec::new();
    let neg = match dec_neg(raw, false) {
        Ok(n) => n,
        Err(e) => {
            let t = format!("NEGOTIATE message is not decodable: {} ({})", e, hexs(raw));
            return vec![("C14", t.clone()), ("C18", t.clone()), ("C04", t)];
        }
    };
    match guard(|| lib_decode(Kind::Neg, raw)) {
        Ok(Some((n, _))) if n == Any::Neg(neg.clone()) => (),
        Ok(other) => v.push(("C14", format!("the library decodes its NEGOTIATE message as {:.600?}", other.map(|o| o.0)))),
        Err(p) => v.push(("C14", p.text())),
    }
    let domain = field(raw, 16).unwrap();
    if domain != creds.domain.as_bytes() {
        v.push(("C15", format!("NEGOTIATE carries the domain {}, must be {}", hexs(domain), short(&creds.domain))));
    }
    let mut want = offer(level);
    if !domain.is_empty() {
        want |= f::DOMAIN_SUPPLIED;
    }
    if version.is_some() {
        want |= f::VERSION;
    }
    if neg.flags != want {
        v.push(("C18", format!("level {} offers {:08x}, must offer {:08x}", level, neg.flags, want)));
    }
    if neg.version != version {
        v.push(("C18", format!("version is {:?}, must be {:?}", neg.version, version)));
    }
    let m = Neg { flags: neg.flags, domain: Some(creds.domain.clone()), workstation: None, version };
    if let Err(e) = audit(raw, &parts_neg(&m)) {
        v.push(("C04", format!("NEGOTIATE message: {}", e)));
    }
    v
}

// ----------------------------------------------------------------------------------- histories

enum St {
    New,
    Neg { neg: Vec<u8>, op: usize },
    Chal { neg: Vec<u8>, chal: Chal, chal_raw: Vec<u8>, feed: Challenge, ops: (usize, usize) },
}

pub struct Sim {
    pub creds: Creds,
    pub sec: Secrets,
    pub level: u32,
    version: Option<Ver>,
    real: Any6,
    st: St,
    answered: u64,
    /// What happened, for reports
    log: Vec<String>,
}

/// What a workload consists of
#[derive(Clone, Copy)]
pub struct Plan {
    pub prop: &'static str,
    pub levels: &'static [u32],
    pub clients: usize,
    pub ops: usize,
    /// Everything about the responses can be predicted
    pub ws: Ws,
    pub versions: bool,
}

pub const ALL_LEVELS: &[u32] = &[0, 1, 2, 3, 4, 5];

pub fn plan(prop: &'static str) -> Plan {
    let p = Plan { prop, levels: ALL_LEVELS, clients: 1, ops: 5, ws: Ws::Vary, versions: true };
    match prop {
        "C08" => Plan { levels: &[0, 0, 1, 2], clients: 2, ..p },
        "C09" => Plan { levels: &[3, 4, 5], clients: 2, ..p },
        "C10" => Plan { clients: 2, ..p },
        "C11" => Plan { levels: &[3, 3, 4, 4, 5, 5, 2, 1, 0], ..p },
        "C14" => Plan { clients: 2, ops: 12, ..p },
        "C15" => Plan { clients: 2, ..p },
        "C16" => Plan { ops: 14, ..p },
        "C17" => Plan { clients: 4, ops: 24, ..p },
        "C18" => Plan { ..p },
        "C19" => Plan { levels: &[1, 2, 3, 4, 5, 3], ..p },
        _ => p,
    }
}

/// A recorded event of interest to somebody else
pub struct Seen<'a> {
    pub sim: &'a Sim,
    pub raw: &'a [u8],
    pub judged: Option<&'a Judged>,
}

pub struct World<'p> {
    pub plan: Plan,
    pub rng: u64,
    pub clock: (i64, i64),
    last: Option<Chal>,
    pub watch: Option<&'p mut (dyn FnMut(Seen, &mut Cx) -> Case + 'p)>,
}

fn now(clock: (i64, i64)) -> (u64, u64) {
    if sys::INTERPOSED {
        let t = ticks(clock.0, clock.1);
        (t, t)
    } else {
        let t = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap();
        let t = ticks(t.as_secs() as i64, t.subsec_nanos() as i64);
        (t - 3_600 * 10_000_000, t + 3_600 * 10_000_000)
    }
}

/// A CHALLENGE with more likely target information and sensible flags
pub fn gen_server_challenge(g: &mut Gen) -> Chal {
    let small = !g.one_in(100);
    let o = Opt { max_infos: if small { 2000 } else { 65487 }, ..Opt::default() };
    let mut c = gen_chal(g, o);
    if cfg!(feature = "strict") {
        c.flags &= !f::RESERVED;
        c.flags |= f::UNICODE;
        if has(c.flags, f::TYPE_DOMAIN) {
            c.flags &= !f::TYPE_SERVER;
        }
        if has(c.flags, f::LM_KEY) {
            c.flags &= !f::ESS;
        }
    }
    if g.one_in(24) {
        c.challenge = g.pick(&[*b"KGS!@#$%", *b"NTLMSSP\0", [1, 0x23, 0x45, 0x67, 0x89, 0xab, 0xcd, 0xef], [0xaa; 8], [0, 0, 0, 0, 1, 2, 3, 4], [1, 0, 0, 0, 0, 0, 0, 0]]);
    }
    if c.version.is_none() {
        // a message that announces a version without carrying one is not decodable
        c.flags &= !f::VERSION;
    } else {
        c.flags |= f::VERSION;
    }
    c
}

/// Timestamps after an embedded terminator: unclear whether the server's time is known
fn unclear_time(infos: &[Av]) -> bool {
    let end = infos.iter().position(|a| *a == Av::Eol).unwrap_or(infos.len());
    first_time(&infos[..end]).is_none() && first_time(infos).is_some()
}

impl World<'_> {
    pub fn create(&mut self, g: &mut Gen) -> Result<Sim, String> {
        let p = self.plan;
        let mut creds = gen_creds(g, p.ws);
        if p.prop == "C13" {
            creds.password = recognisable(g);
        }
        let level = g.pick(p.levels);
        let version = (HOOKED && p.versions && g.one_in(5)).then(|| gen_ver(g, Opt::default()));
        self.create_from(creds, level, version)
    }

    pub fn create_from(&mut self, creds: Creds, level: u32, version: Option<Ver>) -> Result<Sim, String> {
        if let Ws::Vary = self.plan.ws {
            environment(&creds);
        }
        let mut real = guard(|| Any6::make(level, &creds)).map_err(|p| format!("creating a client: {} [{}]", p.text(), creds.text()))?;
        if version.is_some() {
            real.set_version(version);
        }
        let sec = secrets(&creds);
        Ok(Sim { sec, level, version, real, st: St::New, answered: 0, log: Vec::new(), creds })
    }

    fn fail(&self, s: &Sim, e: String) -> String {
        format!("{} [level {} {} version {:?}; {}]", e, s.level, s.creds.text(), s.version, s.log.join(", "))
    }

    fn filter(&self, s: &Sim, bad: &[(&'static str, String)]) -> Case {
        match bad.iter().find(|(p, _)| *p == self.plan.prop) {
            Some((_, e)) => Err(self.fail(s, e.clone())),
            None => Ok(()),
        }
    }

    pub fn negotiate(&mut self, s: &mut Sim, cx: &mut Cx) -> Case {
        s.log.push("negotiate".into());
        let raw = s.real.negotiate().map_err(|p| self.fail(s, format!("send_negociate: {}", p.text())))?;
        let bad = judge_neg(&raw, &s.creds, s.level, s.version);
        self.filter(s, &bad)?;
        if matches!(self.plan.prop, "C16" | "C17") && !bad.is_empty() {
            self.twin(s, None, &bad, cx)?;
        }
        cx.count("negotiate");
        if let Some(w) = self.watch.as_mut() {
            w(Seen { sim: s, raw: &raw, judged: None }, cx)?;
        }
        s.st = St::Neg { neg: raw, op: s.log.len() };
        Ok(())
    }

    pub fn challenge(&mut self, s: &mut Sim, g: &mut Gen, cx: &mut Cx) -> Case {
        let mut m = gen_server_challenge(g);
        // servers that use a challenge again, or part of one
        if let (true, Some(l)) = (g.one_in(4), &self.last) {
            match g.below(4) {
                0 => m.challenge = l.challenge,
                1 => m.infos = l.infos.clone(),
                2 => m = Chal { challenge: m.challenge, ..l.clone() },
                _ => m = l.clone(),
            }
        }
        if g.one_in(6) && m.infos.len() < 40 && enc_avs(&m.infos).len() < 20_000 {
            acquaint(&mut m, &s.creds, g);
        }
        self.last = Some(m.clone());
        self.challenge_with(s, m, g, cx)
    }

    pub fn challenge_with(&mut self, s: &mut Sim, m: Chal, g: &mut Gen, cx: &mut Cx) -> Case {
        let fed = guard(|| feed_chal(&m, g)).map_err(|p| self.fail(s, format!("making a CHALLENGE: {} {:.800?}", p.text(), m)))?;
        let Some((mut real, how)) = fed else {
            cx.count("challenge not decodable");
            return Ok(());
        };
        // whoever builds a message can leave flags and contents out of step
        if how == "built" && !matches!(self.plan.prop, "C17" | "C26") && g.one_in(8) {
            let mut flags = real.negotiate_flags.0;
            for b in [f::VERSION, f::TARGET_INFO, f::REQUEST_TARGET] {
                if g.bool() {
                    flags ^= b;
                }
            }
            real.negotiate_flags = http_ntlm::messages::Flags(flags);
            cx.count("challenge with flags out of step");
        }
        // building may set flags of its own
        let m = o_chal(&real);
        s.log.push(format!("challenge {} flags {:08x} ({})", hex(&m.challenge), m.flags, how));
        let keep = real.clone();
        s.real.recv(real).map_err(|p| self.fail(s, format!("recv_challenge: {}", p.text())))?;
        let op = s.log.len();
        s.st = match std::mem::replace(&mut s.st, St::New) {
            St::Neg { neg, op: first } => {
                cx.count("challenge accepted");
                let chal_raw = encode(&keep);
                St::Chal { neg, chal: m, chal_raw, feed: keep, ops: (first, op) }
            }
            other => {
                cx.count("challenge ignored");
                other
            }
        };
        Ok(())
    }

    pub fn authenticate(&mut self, s: &mut Sim, cx: &mut Cx) -> Case {
        s.log.push("authenticate".into());
        if sys::INTERPOSED {
            sys::set_clock(Some(self.clock));
        }
        let before = now(self.clock);
        let r = s.real.authenticate();
        let after = now(self.clock);
        let St::Chal { neg, chal, chal_raw, .. } = &s.st else {
            // refused: by panicking; no message either way
            return match r {
                Ok(m) if !m.is_empty() => {
                    cx.count("answered out of order");
                    if self.plan.prop == "C16" {
                        Err(self.fail(s, format!("yields {} without a challenge to answer", hexs(&m))))
                    } else {
                        Ok(())
                    }
                }
                _ => {
                    cx.count("authenticate refused");
                    Ok(())
                }
            };
        };
        let raw = r.map_err(|p| self.fail(s, format!("send_authenticate: {} {:.300?}", p.text(), chal)))?;
        let hook_key = s.real.session_key();
        let ctx = Ctx {
            creds: &s.creds,
            sec: &s.sec,
            level: s.level,
            version: s.version,
            neg,
            chal,
            chal_raw,
            now: (before.0, after.1),
            hook_key,
        };
        let mut j = judge(&raw, &ctx);
        if self.plan.prop == "C26" && !cfg!(miri) {
            j.bad.extend(crate::server::verify(&raw, &ctx, &j, cx).into_iter().map(|e| ("C26", e)));
        }
        if unclear_time(&chal.infos) {
            j.bad.retain(|(p, e)| !(*p == "C09" && e.starts_with("time")));
        }
        for (_, e) in j.bad.iter_mut() {
            e.push_str(&format!("; AUTHENTICATE {}; CHALLENGE {}", hexs(&raw), hexs(chal_raw)));
        }
        self.filter(s, &j.bad)?;
        if matches!(self.plan.prop, "C16" | "C17") && !j.bad.is_empty() {
            self.twin(s, Some(raw.clone()), &j.bad, cx)?;
        }
        cx.count("authenticate");
        cx.count(&format!("level {}", s.level));
        if j.key_checked {
            cx.count("session key compared with the client's");
        }
        if j.own_time {
            cx.count("own time");
        }
        cx.max("AUTHENTICATE bytes", raw.len() as u64);
        cx.judged(fnv(&raw));
        let (level, creds, log) = (s.level, &s.creds, &s.log);
        cx.sample(|| format!("level {} {}; {} -> {}", level, creds.text(), log.join(", "), hexs(&raw)));
        if let Some(w) = self.watch.as_mut() {
            w(Seen { sim: s, raw: &raw, judged: Some(&j) }, cx)?;
        }
        s.answered += 1;
        Ok(())
    }

    /// The same handshake without anything around it. If that one is fine, the history is to blame.
    fn twin(&mut self, s: &Sim, raw: Option<Vec<u8>>, bad: &[(&'static str, String)], cx: &mut Cx) -> Case {
        let chal_raw = match (&s.st, &raw) {
            (_, None) => None,
            (St::Chal { chal_raw, .. }, _) => Some(chal_raw.clone()),
            _ => return Ok(()),
        };
        let feed = match &s.st {
            St::Chal { feed, .. } if raw.is_some() => Some(feed.clone()),
            _ => None,
        };
        let plan = self.plan;
        self.plan.prop = "-";
        let mut clean = self.alone(&s.creds, s.level, s.version, feed);
        self.plan = plan;
        if clean == Some(false) && plan.prop == "C17" && !cfg!(miri) {
            // state of the whole process shows in another one only
            clean = fresh_twin(&s.creds, s.level, s.version, chal_raw, self.clock);
        }
        if clean == Some(true) {
            return Err(self.fail(s, format!("the history matters: on its own the handshake is right, here {}: {}", bad[0].0, bad[0].1)));
        }
        cx.count("wrong in isolation, too");
        Ok(())
    }

    /// Whether a handshake (or the NEGOTIATE message alone) is right; `None`: there is none
    fn alone(&mut self, creds: &Creds, level: u32, version: Option<Ver>, feed: Option<Challenge>) -> Option<bool> {
        let mut t = self.create_from(creds.clone(), level, version).ok()?;
        guard(|| {
            let neg = t.real.negotiate().ok()?;
            if !judge_neg(&neg, &t.creds, t.level, t.version).is_empty() {
                return Some(false);
            }
            let Some(feed) = feed else { return Some(true) };
            let (chal, chal_raw) = (o_chal(&feed), encode(&feed));
            t.real.recv(feed).ok()?;
            if sys::INTERPOSED {
                sys::set_clock(Some(self.clock));
            }
            let now = now(self.clock);
            let auth = t.real.authenticate().ok()?;
            let ctx = Ctx {
                creds: &t.creds,
                sec: &t.sec,
                level: t.level,
                version: t.version,
                neg: &neg,
                chal: &chal,
                chal_raw: &chal_raw,
                now: (now.0, now.1 + 36_000_000_000),
                hook_key: t.real.session_key(),
                };
            let mut bad = judge(&auth, &ctx).bad;
            if unclear_time(&chal.infos) {
                bad.retain(|(p, e)| !(*p == "C09" && e.starts_with("time")));
            }
            Some(bad.is_empty())
        })
        .ok()
        .flatten()
    }

    pub fn op(&mut self, s: &mut Sim, g: &mut Gen, cx: &mut Cx) -> Case {
        // progress is more likely than refused calls
        let (n, c) = match s.st {
            St::New => (8, 9),
            St::Neg { .. } => (1, 8),
            St::Chal { .. } => (2, 4),
        };
        match g.below(10) {
            i if i < n => self.negotiate(s, cx),
            i if i < c => self.challenge(s, g, cx),
            _ => self.authenticate(s, cx),
        }
    }
}

/// The twin in a process of its own
fn fresh_twin(c: &Creds, level: u32, version: Option<Ver>, chal_raw: Option<Vec<u8>>, clock: (i64, i64)) -> Option<bool> {
    static SPAWNED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let n = SPAWNED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    if n >= 200 {
        return None;
    }
    let v = version.map_or(String::new(), |v| format!("{} {} {} {}", v.major, v.minor, v.build, v.rev));
    let mut t = format!("{level}\n{}\n{v}\n{} {}\n", c.via_new as u8, clock.0, clock.1);
    for s in [&c.given, &c.user, &c.domain, &c.password, &c.target] {
        t += &hex(s.as_bytes());
        t.push('\n');
    }
    for o in [c.workstation.as_ref().map(|w| w.as_bytes()), chal_raw.as_deref()] {
        t += &o.map_or("-".to_owned(), |b| format!("+{}", hex(b)));
        t.push('\n');
    }
    let dir = std::env::var_os("NTLM_SCRATCH").map_or_else(std::env::temp_dir, |d| d.into());
    let path = dir.join(format!("twin-{}-{n}", std::process::id()));
    std::fs::write(&path, t).expect("twin");
    let o = std::process::Command::new(std::env::current_exe().unwrap()).args(["twin", path.to_str().unwrap()]).output();
    let _ = std::fs::remove_file(&path);
    match o.expect("twin").status.code() {
        Some(0) => Some(true),
        Some(3) => Some(false),
        _ => None,
    }
}

/// The other end of it
pub fn twin_main(path: &str) -> i32 {
    let t = std::fs::read_to_string(path).expect("twin");
    let l: Vec<&str> = t.lines().collect();
    let text = |h: &str| String::from_utf8(unhex(h)).expect("text");
    let version: Vec<u32> = l[2].split_whitespace().map(|n| n.parse().unwrap()).collect();
    let version = (version.len() == 4).then(|| Ver { major: version[0] as _, minor: version[1] as _, build: version[2] as _, rev: version[3] as _ });
    let (sec, nsec) = l[3].split_once(' ').expect("clock");
    let creds = Creds {
        via_new: l[1] == "1",
        given: text(l[4]),
        user: text(l[5]),
        domain: text(l[6]),
        password: text(l[7]),
        target: text(l[8]),
        workstation: l[9].strip_prefix('+').map(text),
    };
    let feed = match l[10].strip_prefix('+') {
        Some(h) => match decode_any::<Challenge>(&unhex(h)) {
            Some((_, c)) => Some(c),
            None => return 4,
        },
        None => None,
    };
    let mut w = World { plan: Plan { ..plan("-") }, rng: 0, clock: (sec.parse().unwrap(), nsec.parse().unwrap()), last: None, watch: None };
    // as strict as the one it is compared with
    match w.alone(&creds, l[0].parse().unwrap(), version, feed) {
        Some(true) => 0,
        Some(false) => 3,
        None => 4,
    }
}

pub fn gen_clock(g: &mut Gen) -> (i64, i64) {
    let sec = match g.below(8) {
        0 => g.below(3) as i64,
        1 => -(g.below(1 << 30) as i64),
        2 => -11_644_473_600 + g.below(1000) as i64,
        3 => g.u64() as i64 & 0xff_ffff_ffff,
        _ => 1_700_000_000 + g.u32() as i64,
    };
    // before 1970 only whole intervals: rounding is nobody's business
    (sec, if sec < 0 { g.below(10_000_000) as i64 * 100 } else { g.below(1_000_000_000) as i64 })
}

fn begin<'p>(plan: Plan, g: &mut Gen) -> World<'p> {
    let w = World { plan, rng: g.u64(), clock: gen_clock(g), last: None, watch: None };
    if sys::INTERPOSED {
        sys::script_rng(w.rng);
    }
    w
}

fn finish() {
    sys::unscript_rng();
    sys::set_clock(None);
    sys::set_hostname(None);
}

/// A random history of a few clients
pub fn history<'p>(plan: Plan, g: &mut Gen, cx: &mut Cx, watch: Option<&'p mut (dyn FnMut(Seen, &mut Cx) -> Case + 'p)>) -> Case {
    let mut w = begin(plan, g);
    w.watch = watch;
    let r = guard(|| run(&mut w, g, cx));
    finish();
    match r {
        Ok(r) => r,
        Err(p) if p.ours() => panic!("{}", p.text()),
        Err(p) => Err(p.text()),
    }
}

fn run(w: &mut World, g: &mut Gen, cx: &mut Cx) -> Case {
    let p = match () {
        _ if cfg!(miri) => Plan { clients: w.plan.clients.min(2), ops: w.plan.ops.min(4), ..w.plan },
        // now and then a long one: more than 256 handshakes of the same client
        _ if g.one_in(2000) => {
            cx.count("long histories");
            Plan { clients: w.plan.clients.min(2), ops: 1600, ..w.plan }
        }
        _ => w.plan,
    };
    let mut sims = Vec::new();
    let n = 1 + g.below(p.clients);
    for _ in 0..n {
        let s = w.create(g)?;
        sims.push(s);
    }
    if p.clients > 1 && n > 1 && !g.one_in(3) {
        // the same person twice, or almost
        let c = relative(&sims[0].creds, g);
        let s = w.create_from(c, g.pick(p.levels), None)?;
        sims[1] = s;
    }
    let straight = p.prop != "C16" && p.prop != "C17" && g.bool();
    if straight {
        for s in sims.iter_mut() {
            w.negotiate(s, cx)?;
            w.challenge(s, g, cx)?;
            w.authenticate(s, cx)?;
        }
    }
    let ops = g.below(p.ops + 1) + if straight { 0 } else { p.ops / 2 };
    for _ in 0..ops {
        let i = g.below(sims.len());
        if g.one_in(4) {
            w.clock = gen_clock(g);
        }
        w.op(&mut sims[i], g, cx)?;
    }
    // whatever happened: from here the handshake can be completed
    if g.bool() {
        for s in sims.iter_mut() {
            if matches!(s.st, St::New) {
                w.negotiate(s, cx)?;
            }
            if matches!(s.st, St::Neg { .. }) {
                w.challenge(s, g, cx)?;
            }
            w.authenticate(s, cx)?;
        }
    }
    cx.max("clients", sims.len() as u64);
    cx.max("operations of one client", sims.iter().map(|s| s.log.len() as u64).max().unwrap_or(0));
    Ok(())
}

macro_rules! simple {
    ($($name:ident $prop:literal),*) => {
        $(pub fn $name(g: &mut Gen, cx: &mut Cx) -> Case { history(plan($prop), g, cx, None) })*
    };
}
simple!(c08 "C08", c09 "C09", c10 "C10", c11 "C11", c14 "C14", c16 "C16", c19 "C19", c24 "C24", c04_hs "C04");

/// C17: also crowds, told apart by a single word of a given length
pub fn c17(g: &mut Gen, cx: &mut Cx) -> Case {
    if cfg!(miri) || !g.one_in(1500) {
        return history(plan("C17"), g, cx, None);
    }
    let mut w = begin(plan("C17"), g);
    let r = guard(|| crowd(&mut w, g, cx));
    finish();
    match r {
        Ok(r) => r,
        Err(p) if p.ours() => panic!("{}", p.text()),
        Err(p) => Err(p.text()),
    }
}

fn crowd(w: &mut World, g: &mut Gen, cx: &mut Cx) -> Case {
    let base = Creds { via_new: false, ..gen_creds(g, w.plan.ws) };
    let (what, same_level, at_once) = (g.below(4), g.bool(), g.one_in(3));
    let level = g.pick(ALL_LEVELS);
    let len = g.pick(&[1usize, 4, 8, 8, 12, 15]);
    let letters: Vec<char> = "abcdefghijklmnopqrstuvwxyz0123456789".chars().collect();
    let letters = &letters[..g.pick(&[2usize, 10, 36])];
    let mut sims: Vec<Sim> = Vec::new();
    for _ in 0..400 {
        let mut c = base.clone();
        let word: String = (0..len).map(|_| g.pick(letters)).collect();
        match what {
            0 | 1 => c.password = word,
            2 => c.user = word,
            _ => c.domain = word,
        }
        c.given = c.user.clone();
        let level = if same_level { level } else { g.pick(ALL_LEVELS) };
        let mut s = w.create_from(c, level, None)?;
        if at_once {
            sims.push(s);
            continue;
        }
        w.negotiate(&mut s, cx)?;
        w.challenge(&mut s, g, cx)?;
        w.authenticate(&mut s, cx)?;
    }
    for s in sims.iter_mut() {
        w.negotiate(s, cx)?;
        w.challenge(s, g, cx)?;
    }
    for s in sims.iter_mut() {
        w.authenticate(s, cx)?;
    }
    cx.count("crowds");
    cx.max("clients", 400);
    Ok(())
}

/// C18: also levels nobody supports
pub fn c18(g: &mut Gen, cx: &mut Cx) -> Case {
    if g.one_in(6) {
        let level = g.pick(&[6u32, 7, u32::MAX]);
        let mut w = begin(plan("C18"), g);
        let creds = gen_creds(g, w.plan.ws);
        let r = w.create_from(creds, level, None).and_then(|mut s| {
            match s.real.negotiate() {
                Ok(m) if !m.is_empty() => Err(w.fail(&s, format!("level {} yields {}", level, hexs(&m)))),
                _ => {
                    cx.count("unsupported level refused");
                    // nor does it later
                    let m = gen_server_challenge(g);
                    let _ = s.real.recv(m_chal(&m));
                    match s.real.authenticate() {
                        Ok(m) if !m.is_empty() => Err(w.fail(&s, format!("level {} yields {}", level, hexs(&m)))),
                        _ => Ok(()),
                    }
                }
            }
        });
        finish();
        return r;
    }
    history(plan("C18"), g, cx, None)
}

/// C15: also both ways of creating a client
pub fn c15(g: &mut Gen, cx: &mut Cx) -> Case {
    if g.bool() {
        return history(plan("C15"), g, cx, None);
    }
    let mut w = begin(plan("C15"), g);
    let r = guard(|| c15_pair(&mut w, g, cx));
    finish();
    match r {
        Ok(r) => r,
        Err(p) if p.ours() => panic!("{}", p.text()),
        Err(p) => Err(p.text()),
    }
}

fn c15_pair(w: &mut World, g: &mut Gen, cx: &mut Cx) -> Case {
    let mut creds = gen_creds(g, w.plan.ws);
    if !creds.via_new {
        creds.via_new = true;
        creds.given = format!("{}\\{}", creds.domain, creds.user);
        if creds.domain.contains('\\') {
            creds.given = "a\\b@c\\d".into();
        }
        (creds.user, creds.domain) = split_name(&creds.given);
    }
    let level = g.pick(ALL_LEVELS);
    let m = gen_server_challenge(g);
    let seed = g.u64();
    let mut out = Vec::new();
    for via_new in [true, false] {
        let c = Creds { via_new, ..creds.clone() };
        sys::script_rng(seed);
        sys::set_clock(Some(w.clock));
        let mut s = w.create_from(c, level, None)?;
        let neg = s.real.negotiate().map_err(|p| w.fail(&s, p.text()))?;
        let Some((real, _)) = feed_chal(&m, &mut Gen::new(seed)) else { return Ok(()) };
        let (chal, chal_raw) = (o_chal(&real), encode(&real));
        s.real.recv(real).map_err(|p| w.fail(&s, p.text()))?;
        let auth = s.real.authenticate().map_err(|p| w.fail(&s, p.text()))?;
        w.filter(&s, &judge_neg(&neg, &s.creds, level, None))?;
        let now = now(w.clock);
        let ctx = Ctx {
            creds: &s.creds,
            sec: &s.sec,
            level,
            version: None,
            neg: &neg,
            chal: &chal,
            chal_raw: &chal_raw,
            now,
            hook_key: s.real.session_key(),
        };
        let j = judge(&auth, &ctx);
        w.filter(&s, &j.bad)?;
        out.push((neg, auth, j.bad.is_empty(), s));
    }
    let s = &out[0].3;
    if out[0].0 != out[1].0 {
        return Err(w.fail(s, format!("NEGOTIATE is {} one way and {} the other", hexs(&out[0].0), hexs(&out[1].0))));
    }
    // should the random values not be the same ones, the reference server decides
    if out[0].1 != out[1].1 && sys::INTERPOSED && !(out[0].2 && out[1].2) {
        return Err(w.fail(s, format!("AUTHENTICATE is {} one way and {} the other", hexs(&out[0].1), hexs(&out[1].1))));
    }
    cx.count("created both ways");
    cx.judged(fnv(&out[0].1));
    Ok(())
}

/// One plain handshake in the environment as it is
pub fn quick_handshake(creds: &Creds, level: u32) -> Result<Vec<u8>, String> {
    let mut c = Any6::make(level, creds);
    c.negotiate().map_err(|p| p.text())?;
    let m = Chal { flags: 0xe28a8235 & !f::VERSION, name: None, challenge: [7; 8], infos: vec![], version: None };
    c.recv(m_chal(&m)).map_err(|p| p.text())?;
    c.authenticate().map_err(|p| p.text())
}

/// One plain handshake, judged
pub fn observe(creds: &Creds, level: u32, m: &Chal) -> Result<(Judged, Vec<u8>), String> {
    let mut c = Any6::make(level, creds);
    let neg = c.negotiate().map_err(|p| p.text())?;
    let real = m_chal(m);
    let (chal, chal_raw) = (o_chal(&real), encode(&real));
    c.recv(real).map_err(|p| p.text())?;
    let raw = c.authenticate().map_err(|p| p.text())?;
    let sec = secrets(creds);
    let ctx = Ctx {
        creds,
        sec: &sec,
        level,
        version: None,
        neg: &neg,
        chal: &chal,
        chal_raw: &chal_raw,
        now: (0, u64::MAX),
        hook_key: c.session_key(),
    };
    let j = judge(&raw, &ctx);
    Ok((j, raw))
}
