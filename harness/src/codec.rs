//! C01 - C04, C06, C07, C23: the wire format.

use crate::cx::{guard, Case, Cx};
use crate::gen::Gen;
use crate::model::*;
use crate::real::*;
use crate::sys;
use crate::util::*;
use http_ntlm::messages::structures as st;
use http_ntlm::messages::{flags, Authenticate, Challenge, Flags, Negotiate};

/// Everything that can be encoded or decoded
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Neg,
    Chal,
    Auth,
    Av,
    Avs,
    AvFlags,
    Time,
    Host,
    Lm,
    Lm1,
    Lm2,
    Nt,
    Nt1,
    Blob,
    NtResp,
    Ver,
    Sig,
    Flags,
    Buf8,
    Buf16,
    Buf24,
    Buf4,
    Text,
}

pub const KINDS: [Kind; 23] = [
    Kind::Neg, Kind::Chal, Kind::Auth, Kind::Av, Kind::Avs, Kind::AvFlags, Kind::Time, Kind::Host, Kind::Lm,
    Kind::Lm1, Kind::Lm2, Kind::Nt, Kind::Nt1, Kind::Blob, Kind::NtResp, Kind::Ver, Kind::Sig, Kind::Flags,
    Kind::Buf8, Kind::Buf16, Kind::Buf24, Kind::Buf4, Kind::Text,
];

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Any {
    Neg(Neg),
    Chal(Chal),
    Auth(Auth),
    Av(Av),
    Avs(Vec<Av>),
    Lm(Lm),
    Nt(Nt),
    Ver(Ver),
    Sig([u8; 4], u32, u32),
    Flags(u32),
    Buf(Vec<u8>),
    Text(String),
}

/// An AUTHENTICATE message only serves to name the type of its strings, which is private
fn text_of(s: &Authenticate) -> String {
    s.domain.as_ref().map(|s| s.to_string()).unwrap()
}

macro_rules! dec {
    ($t:ty, $b:expr, $o:expr) => {
        decode_any::<$t>($b).map(|(r, v)| ($o(&v), r))
    };
}

pub fn lib_decode(kind: Kind, b: &[u8]) -> Option<(Any, &[u8])> {
    match kind {
        Kind::Neg => dec!(Negotiate, b, |v| Any::Neg(o_neg(v))),
        Kind::Chal => dec!(Challenge, b, |v| Any::Chal(o_chal(v))),
        Kind::Auth => dec!(Authenticate, b, |v| Any::Auth(o_auth(v))),
        Kind::Av => dec!(st::AvPair, b, |v| Any::Av(o_av(v))),
        Kind::Avs => dec!(Vec<st::AvPair>, b, |v: &Vec<_>| Any::Avs(o_avs(v))),
        Kind::AvFlags => dec!(st::MsvAvFlags, b, |v| Any::Av(Av::Flags(o_avflags(v)))),
        Kind::Time => dec!(st::FileTime, b, |v| Any::Av(Av::Time(o_time(v)))),
        Kind::Host => dec!(st::SingleHostData, b, |v| Any::Av(o_host(v))),
        Kind::Lm => dec!(st::LmChallenge, b, |v| Any::Lm(o_lm(v))),
        Kind::Lm1 => dec!(st::Lmv1Challenge, b, |v: &st::Lmv1Challenge| Any::Lm(Lm::V1(arr(&v.response)))),
        Kind::Lm2 => dec!(st::Lmv2Challenge, b, |v: &st::Lmv2Challenge| Any::Lm(Lm::V2(
            arr(&v.response),
            arr(&v.challenge_from_client)
        ))),
        Kind::Nt => dec!(st::NtChallenge, b, |v| Any::Nt(o_nt(v))),
        Kind::Nt1 => dec!(st::Ntv1Challenge, b, |v: &st::Ntv1Challenge| Any::Nt(Nt::V1(arr(&v.response)))),
        Kind::Blob => dec!(st::Ntv2Challenge, b, |v| Any::Nt(Nt::Bare(o_blob(v)))),
        Kind::NtResp => dec!(st::Ntv2Response, b, |v: &st::Ntv2Response| Any::Nt(Nt::V2(
            arr(&v.nt_proof_str),
            o_blob(&v.challenge)
        ))),
        Kind::Ver => dec!(st::Version, b, |v| Any::Ver(o_ver(v))),
        Kind::Sig => dec!(st::MessageSignature, b, |v: &st::MessageSignature| Any::Sig(
            arr(&v.random_pad),
            v.checksum,
            v.seq_num
        )),
        Kind::Flags => dec!(Flags, b, |v: &Flags| Any::Flags(v.0)),
        Kind::Buf8 => {
            let s = dec!(st::ServerChallenge, b, |v: &st::ServerChallenge| Any::Buf(v.to_vec()));
            let c = dec!(st::ClientChallenge, b, |v: &st::ClientChallenge| Any::Buf(v.to_vec()));
            if s == c { s } else { None }
        }
        Kind::Buf16 => {
            let all = [
                dec!(st::ExportedSessionKey, b, |v: &st::ExportedSessionKey| Any::Buf(v.to_vec())),
                dec!(st::EncryptedRandomSessionKey, b, |v: &st::EncryptedRandomSessionKey| Any::Buf(v.to_vec())),
                dec!(st::SessionBaseKey, b, |v: &st::SessionBaseKey| Any::Buf(v.to_vec())),
                dec!(st::KeyExchangeKey, b, |v: &st::KeyExchangeKey| Any::Buf(v.to_vec())),
                dec!(st::NtProofStr, b, |v: &st::NtProofStr| Any::Buf(v.to_vec())),
                dec!(st::Response16, b, |v: &st::Response16| Any::Buf(v.to_vec())),
                dec!(st::Mic, b, |v: &st::Mic| Any::Buf(v.to_vec())),
            ];
            if all.iter().all(|a| *a == all[0]) { all[0].clone() } else { None }
        }
        Kind::Buf24 => dec!(st::Response24, b, |v: &st::Response24| Any::Buf(v.to_vec())),
        Kind::Buf4 => dec!(st::RandomPad, b, |v: &st::RandomPad| Any::Buf(v.to_vec())),
        Kind::Text => {
            let mut a = Authenticate::default();
            let (rest, s) = decode_any(b)?;
            a.domain = Some(s);
            Some((Any::Text(text_of(&a)), rest))
        }
    }
}

/// The verdict with an error type that records contexts
pub fn lib_verbose(kind: Kind, b: &[u8]) -> bool {
    macro_rules! v {
        ($t:ty) => {
            decode_verbose::<$t>(b).is_ok()
        };
    }
    match kind {
        Kind::Neg => v!(Negotiate),
        Kind::Chal => v!(Challenge),
        Kind::Auth => v!(Authenticate),
        Kind::Av => v!(st::AvPair),
        Kind::Avs => v!(Vec<st::AvPair>),
        Kind::AvFlags => v!(st::MsvAvFlags),
        Kind::Time => v!(st::FileTime),
        Kind::Host => v!(st::SingleHostData),
        Kind::Lm => v!(st::LmChallenge),
        Kind::Lm1 => v!(st::Lmv1Challenge),
        Kind::Lm2 => v!(st::Lmv2Challenge),
        Kind::Nt => v!(st::NtChallenge),
        Kind::Nt1 => v!(st::Ntv1Challenge),
        Kind::Blob => v!(st::Ntv2Challenge),
        Kind::NtResp => v!(st::Ntv2Response),
        Kind::Ver => v!(st::Version),
        Kind::Sig => v!(st::MessageSignature),
        Kind::Flags => v!(Flags),
        Kind::Buf8 => v!(st::ServerChallenge),
        Kind::Buf16 => v!(st::ExportedSessionKey),
        Kind::Buf24 => v!(st::Response24),
        Kind::Buf4 => v!(st::RandomPad),
        Kind::Text => {
            let mut a = Authenticate::default();
            match decode_verbose(b) {
                Ok((_, s)) => {
                    a.domain = Some(s);
                    true
                }
                Err(_) => false,
            }
        }
    }
}

/// `Err(None)`: the interpretation is ambiguous. The number is how many bytes are left.
pub fn ref_decode(kind: Kind, b: &[u8]) -> Result<(Any, usize), Option<&'static str>> {
    let strict = cfg!(feature = "strict");
    let take = |n: usize| b.get(..n).ok_or("truncated");
    Ok(match kind {
        Kind::Neg => (Any::Neg(dec_neg(b, strict)?), 0),
        Kind::Chal => {
            let c = dec_chal(b, strict)?;
            if enc_avs(&c.infos).len() != le16(&b[40..]) as usize {
                return Err(None); // something that is no pair behind the terminator
            }
            (Any::Chal(c), 0)
        }
        Kind::Auth => (Any::Auth(dec_auth(b, strict)?), 0),
        Kind::Av => {
            let (a, n) = dec_av(b)?;
            (Any::Av(a), b.len() - n)
        }
        Kind::Avs => {
            let (a, n) = dec_avs(b);
            if n != b.len() {
                return Err(None); // whether a list may be followed by something that is no pair
            }
            (Any::Avs(a), 0)
        }
        Kind::AvFlags => {
            let v = le32(take(4)?);
            if v > 7 {
                return Err(Some("AV flags"));
            }
            (Any::Av(Av::Flags(v)), b.len() - 4)
        }
        Kind::Time => (Any::Av(Av::Time(le64(take(8)?))), b.len() - 8),
        Kind::Host => {
            let d = take(48)?;
            if le32(&d[4..]) != 0 {
                return Err(Some("Z4"));
            }
            let h = Av::Host { size: le32(d), z4: 0, custom: arr(&d[8..16]), machine: arr(&d[16..]) };
            (Any::Av(h), b.len() - 48)
        }
        Kind::Lm | Kind::Lm2 => {
            let d = take(24)?;
            (Any::Lm(Lm::V2(arr(&d[..16]), arr(&d[16..]))), b.len() - 24)
        }
        Kind::Lm1 => (Any::Lm(Lm::V1(arr(take(24)?))), b.len() - 24),
        Kind::Nt => (Any::Nt(dec_nt(b)?), 0),
        Kind::Nt1 => (Any::Nt(Nt::V1(arr(take(24)?))), b.len() - 24),
        Kind::Blob => {
            let (v, n) = dec_blob(b)?;
            if n != b.len() {
                return Err(None);
            }
            (Any::Nt(Nt::Bare(v)), 0)
        }
        Kind::NtResp => {
            let p = arr(take(16)?);
            let (mut v, n) = dec_blob(&b[16..])?;
            if 16 + n != b.len() {
                return Err(None);
            }
            if v.infos.pop() != Some(Av::Eol) {
                return Err(Some("NTLMv2 response without end"));
            }
            (Any::Nt(Nt::V2(p, v)), 0)
        }
        Kind::Ver => (Any::Ver(dec_ver(b)?), b.len() - 8),
        Kind::Sig => {
            let d = take(16)?;
            if le32(d) != 1 {
                return Err(Some("signature version"));
            }
            (Any::Sig(arr(&d[4..8]), le32(&d[8..]), le32(&d[12..])), b.len() - 16)
        }
        Kind::Flags => {
            let v = le32(take(4)?);
            if strict && forbidden(v) {
                return Err(Some("forbidden flags"));
            }
            (Any::Flags(v), b.len() - 4)
        }
        Kind::Buf8 => (Any::Buf(take(8)?.to_vec()), b.len() - 8),
        Kind::Buf16 => (Any::Buf(take(16)?.to_vec()), b.len() - 16),
        Kind::Buf24 => (Any::Buf(take(24)?.to_vec()), b.len() - 24),
        Kind::Buf4 => (Any::Buf(take(4)?.to_vec()), b.len() - 4),
        Kind::Text => {
            let (s, n) = dec_utf16(b);
            (Any::Text(s), b.len() - n)
        }
    })
}

pub fn gen_any(g: &mut Gen, kind: Kind, o: Opt) -> Any {
    match kind {
        Kind::Neg => Any::Neg(gen_neg(g, o)),
        Kind::Chal => Any::Chal(gen_chal(g, o)),
        Kind::Auth => Any::Auth(gen_auth(g, o)),
        Kind::Av => {
            if g.one_in(8) {
                Any::Av(Av::Eol)
            } else {
                let max = if g.one_in(20) { 65535 } else { 100 };
                Any::Av(gen_av(g, o, max))
            }
        }
        Kind::Avs => Any::Avs(gen_infos(g, o)),
        Kind::AvFlags => Any::Av(Av::Flags(g.below(8) as u32)),
        Kind::Time => Any::Av(Av::Time(gen_time(g))),
        Kind::Host => Any::Av(Av::Host {
            size: g.int(32) as u32,
            z4: if o.invalid { g.int(32) as u32 } else { 0 },
            custom: g.array(),
            machine: g.array(),
        }),
        Kind::Lm | Kind::Lm2 => Any::Lm(Lm::V2(g.array(), g.array())),
        Kind::Lm1 => Any::Lm(Lm::V1(g.array())),
        Kind::Nt => Any::Nt(match g.below(3) {
            0 => Nt::V1(g.array()),
            1 => Nt::Bare(gen_blob(g, o)),
            _ => Nt::V2(g.array(), gen_blob(g, o)),
        }),
        Kind::Nt1 => Any::Nt(Nt::V1(g.array())),
        Kind::Blob => Any::Nt(Nt::Bare(gen_blob(g, o))),
        Kind::NtResp => Any::Nt(Nt::V2(g.array(), gen_blob(g, o))),
        Kind::Ver => Any::Ver(gen_ver(g, o)),
        Kind::Sig => Any::Sig(g.array(), g.int(32) as u32, g.int(32) as u32),
        Kind::Flags => Any::Flags(gen_flags(g)),
        Kind::Buf8 => Any::Buf(g.array::<8>().to_vec()),
        Kind::Buf16 => Any::Buf(g.array::<16>().to_vec()),
        Kind::Buf24 => Any::Buf(g.array::<24>().to_vec()),
        Kind::Buf4 => Any::Buf(g.array::<4>().to_vec()),
        Kind::Text => {
            let n = if g.one_in(20) { 65534 } else { 60 };
            Any::Text(g.text(o.nul, n, usize::MAX))
        }
    }
}

pub fn parts(a: &Any) -> Option<Parts> {
    match a {
        Any::Neg(m) => Some(parts_neg(m)),
        Any::Chal(m) => Some(parts_chal(m)),
        Any::Auth(m) => Some(parts_auth(m)),
        _ => None,
    }
}

/// The standard encoding of a structure
pub fn ref_encode(kind: Kind, a: &Any, g: Option<&mut Gen>) -> Vec<u8> {
    if let Some(p) = parts(a) {
        return p.layout(g);
    }
    match (kind, a) {
        (Kind::Av, Any::Av(v)) => enc_avs(std::slice::from_ref(v)),
        (_, Any::Avs(v)) => enc_avs(v),
        (_, Any::Av(v)) => enc_avs(std::slice::from_ref(v))[4..].to_vec(),
        (_, Any::Lm(l)) => enc_lm(l),
        (_, Any::Nt(n)) => enc_nt(n),
        (_, Any::Ver(v)) => enc_ver(v).to_vec(),
        (_, Any::Sig(p, c, s)) => [&1u32.to_le_bytes()[..], p, &c.to_le_bytes(), &s.to_le_bytes()].concat(),
        (_, Any::Flags(v)) => v.to_le_bytes().to_vec(),
        (_, Any::Buf(b)) => b.clone(),
        (_, Any::Text(s)) => crate::crypto::utf16(s),
        _ => unreachable!(),
    }
}

/// Calls `$f` with a reference to the library's value for `$a`
macro_rules! with_real {
    ($kind:expr, $a:expr, |$v:ident| $body:expr) => {
        match ($kind, $a) {
            (_, Any::Neg(m)) => { let $v = &m_neg(m); $body }
            (_, Any::Chal(m)) => { let $v = &m_chal(m); $body }
            (_, Any::Auth(m)) => { let $v = &m_auth(m); $body }
            (Kind::AvFlags, Any::Av(Av::Flags(x))) => { let $v = &m_avflags(*x); $body }
            (Kind::Time, Any::Av(Av::Time(x))) => { let $v = &m_time(*x); $body }
            (Kind::Host, Any::Av(a)) => {
                let $v = &match m_av(a) { st::AvPair::MsvAvSingleHost(h) => h, _ => unreachable!() };
                $body
            }
            (_, Any::Av(a)) => { let $v = &m_av(a); $body }
            (_, Any::Avs(a)) => { let $v = &m_avs(a); $body }
            (Kind::Lm1, Any::Lm(l)) => { let $v = &match m_lm(l) { st::LmChallenge::V1(l) => l, _ => unreachable!() }; $body }
            (Kind::Lm2, Any::Lm(l)) => { let $v = &match m_lm(l) { st::LmChallenge::V2(l) => l, _ => unreachable!() }; $body }
            (_, Any::Lm(l)) => { let $v = &m_lm(l); $body }
            (Kind::Nt1, Any::Nt(n)) => { let $v = &match m_nt(n) { st::NtChallenge::V1(n) => n, _ => unreachable!() }; $body }
            (Kind::Blob, Any::Nt(Nt::Bare(b))) => { let $v = &m_blob(b); $body }
            (Kind::NtResp, Any::Nt(n)) => { let $v = &match m_nt(n) { st::NtChallenge::V2Response(n) => n, _ => unreachable!() }; $body }
            (_, Any::Nt(n)) => { let $v = &m_nt(n); $body }
            (_, Any::Ver(x)) => { let $v = &m_ver(x); $body }
            (_, Any::Sig(p, c, s)) => {
                let $v = &st::MessageSignature { random_pad: (*p).into(), checksum: *c, seq_num: *s };
                $body
            }
            (_, Any::Flags(x)) => { let $v = &Flags(*x); $body }
            (Kind::Buf8, Any::Buf(b)) => { let $v = &st::ServerChallenge::from(arr::<8>(b)); $body }
            (Kind::Buf16, Any::Buf(b)) => { let $v = &st::ExportedSessionKey::from(arr::<16>(b)); $body }
            (Kind::Buf24, Any::Buf(b)) => { let $v = &st::Response24::from(arr::<24>(b)); $body }
            (_, Any::Buf(b)) => { let $v = &st::RandomPad::from(arr::<4>(b)); $body }
            (_, Any::Text(s)) => {
                let mut a = Authenticate::default();
                a.domain = Some(s.as_str().into());
                let $v = a.domain.as_ref().unwrap();
                $body
            }
        }
    };
}

pub(crate) use with_real;

pub fn lib_encode(kind: Kind, a: &Any) -> (Vec<u8>, usize) {
    with_real!(kind, a, |v| {
        let mut out = Vec::new();
        let n = encode_into(v, &mut out).expect("Vec");
        (out, n)
    })
}

pub fn lib_encode_sink(kind: Kind, a: &Any, w: &mut impl std::io::Write) -> std::io::Result<usize> {
    with_real!(kind, a, |v| encode_into(v, w))
}

fn slots(kind: Kind) -> &'static [usize] {
    match kind {
        Kind::Neg => &[16, 24],
        Kind::Chal => &[12, 40],
        Kind::Auth => &[12, 20, 28, 36, 44, 52],
        _ => &[],
    }
}

/// Mostly messages, every kind often enough
pub fn pick_kind(g: &mut Gen) -> Kind {
    match g.below(10) {
        0 | 1 => Kind::Neg,
        2 | 3 => Kind::Chal,
        4 | 5 => Kind::Auth,
        6 => g.pick(&[Kind::Av, Kind::Avs, Kind::Nt]),
        _ => g.pick(&KINDS),
    }
}

/// Bytes that are, or once were, an encoded `kind`
pub fn gen_bytes(g: &mut Gen, kind: Kind) -> Vec<u8> {
    let o = Opt { nul: g.one_in(6), invalid: g.one_in(10), consistent: g.one_in(3), ..Opt::default() };
    if g.one_in(40) {
        let n = if g.one_in(10) { g.len(70_000) } else { g.below(140) };
        let mut b = g.bytes(n);
        if b.len() >= 12 && g.bool() {
            b[..8].copy_from_slice(SIG);
            let t = g.below(5) as u32;
            b[8..12].copy_from_slice(&t.to_le_bytes());
        }
        return b;
    }
    let a = gen_any(g, kind, o);
    let mut b = ref_encode(kind, &a, Some(g));
    if parts(&a).is_none() && g.one_in(3) {
        let n = g.below(9);
        let t = g.bytes(n);
        b.extend_from_slice(&t);
    }
    if !g.one_in(4) {
        if g.one_in(3) && matches!(kind, Kind::Chal | Kind::Auth | Kind::Avs | Kind::Nt) {
            damage_structure(g, kind, &mut b);
        }
        mutate(g, &mut b, slots(kind));
    } else if g.one_in(2) && matches!(kind, Kind::Chal | Kind::Auth | Kind::Avs | Kind::Nt) {
        damage_structure(g, kind, &mut b);
    }
    b
}

/// Changes what a field contains in a way that stays aligned with its structure
fn damage_structure(g: &mut Gen, kind: Kind, b: &mut Vec<u8>) {
    let (start, end) = match kind {
        Kind::Chal | Kind::Auth => {
            let slot = if kind == Kind::Chal { g.pick(&[40, 40, 12]) } else { g.pick(slots(Kind::Auth)) };
            if b.len() < slot + 8 {
                return;
            }
            let (l, o) = (le16(&b[slot..]) as usize, le32(&b[slot + 4..]) as usize);
            (o, o.saturating_add(l))
        }
        _ => (0, b.len()),
    };
    if end > b.len() || start + 4 > end {
        return;
    }
    match g.below(8) {
        // walk over the pairs, if they are, and change one of the headers
        0..=4 => {
            let mut at = start;
            if kind == Kind::Auth || kind == Kind::Nt {
                at += if g.bool() { 44 } else { 28 };
            }
            let mut heads = Vec::new();
            while at + 4 <= end {
                heads.push(at);
                at += 4 + le16(&b[at + 2..]) as usize;
            }
            if heads.is_empty() {
                return;
            }
            let h = g.pick(&heads);
            match g.below(5) {
                0 => b[h] = g.below(14) as u8,
                1 => b[h + 2] = b[h + 2].wrapping_add(g.pick(&[1, 2, 4, 0xff, 0xfe])),
                2 => {
                    let v = g.int(16) as u16;
                    b[h + 2..h + 4].copy_from_slice(&v.to_le_bytes());
                }
                3 => b[h + 1] = g.u8(),
                _ => b[h..h + 4].copy_from_slice(&[0; 4]),
            }
        }
        // a code unit
        5 | 6 => {
            let units = (end - start) / 2;
            let i = start + 2 * g.below(units);
            let u = g.pick(&[0u16, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xd83d, 0xde00, 0xfffe, 0xffff, 0x0100]);
            b[i..i + 2].copy_from_slice(&u.to_le_bytes());
        }
        _ => {
            let i = start + g.below(end - start);
            b[i] = g.pick(&[0, 1, 0xff, 0x80, 0x0f]);
        }
    }
}

fn describe(kind: Kind, b: &[u8]) -> String {
    format!("{:?} <- {}", kind, hexs(b))
}

// --------------------------------------------------------------------------------------- C01

/// Bytes a decode may have allocated at a time, per byte of input, and independently of it
const PEAK_PER_BYTE: u64 = 160;
const PEAK_CONST: u64 = 6_000;

pub fn c01(g: &mut Gen, cx: &mut Cx) -> Case {
    let kind = pick_kind(g);
    let b = match g.below(30) {
        // many tiny pairs, many fields over one big range
        0 => hostile_big(g, kind),
        _ => gen_bytes(g, kind),
    };
    // an exact allocation, so that a read past the end is one past the end of the object
    let exact: Box<[u8]> = b.clone().into_boxed_slice();
    let (r, peak, total) = sys::metered(|| guard(|| lib_decode(kind, &exact).map(|(a, rest)| (a, rest.len(), rest.as_ptr() as usize))));
    let r = r.map_err(|p| format!("decoding panicked: {} [{}]", p.text(), describe(kind, &b)))?;
    if let Some((_, n, at)) = &r {
        let tail = exact.as_ptr() as usize + exact.len() - n.min(&exact.len());
        if *n > exact.len() || (*n > 0 && *at != tail) {
            return Err(format!("the bytes left over are not the input's [{}]", describe(kind, &b)));
        }
    }
    let (v, vpeak, _) = sys::metered(|| guard(|| lib_verbose(kind, &exact)));
    let v = v.map_err(|p| format!("decoding panicked: {} [{}]", p.text(), describe(kind, &b)))?;
    if v != r.is_some() && !matches!(kind, Kind::Buf8 | Kind::Buf16) {
        return Err(format!("the verdict depends on the error type [{}]", describe(kind, &b)));
    }
    if kind == Kind::Ver && b.len() >= 8 {
        let raw: [u8; 8] = arr(&b[..8]);
        let t = guard(|| st::Version::try_from(raw)).map_err(|p| format!("decoding panicked: {}", p.text()))?;
        if t.is_ok() != r.is_some() {
            return Err(format!("Version::try_from disagrees with decoding [{}]", describe(kind, &b)));
        }
    }
    // `total` includes translating the value, the peak of which is a small multiple as well
    let bound = PEAK_CONST + PEAK_PER_BYTE * b.len() as u64;
    for (what, p) in [("peak", peak), ("peak (recording errors)", vpeak)] {
        if p > bound {
            return Err(format!("decoding {} bytes allocated {} bytes ({}) [{}]", b.len(), p, what, describe(kind, &b)));
        }
    }
    let _ = total;
    if b.len() >= 64 {
        cx.max("peak_heap_per_100_input_bytes", 100 * peak.saturating_sub(PEAK_CONST) / b.len() as u64);
    }
    cx.max("largest_input", b.len() as u64);
    cx.max("largest_peak_heap", peak);
    cx.count(if r.is_some() { "accepted" } else { "rejected" });
    cx.count(&format!("kind_{:?}", kind));
    cx.judged(fnv(&b) ^ kind as u64);
    cx.sample(|| format!("{} -> {}", describe(kind, &b), if r.is_some() { "value" } else { "error" }));
    Ok(())
}

fn hostile_big(g: &mut Gen, kind: Kind) -> Vec<u8> {
    let message = matches!(kind, Kind::Neg | Kind::Chal | Kind::Auth);
    let n = match () {
        _ if cfg!(miri) => 200,
        // nothing but memory limits a list which is not a field of a message
        _ if !message && g.one_in(20) => g.pick(&[131_072, 400_000, 1_000_000]),
        _ => g.pick(&[1000usize, 5000, 20_000, 65_535]),
    };
    let unit: Vec<u8> = match g.below(7) {
        0 => vec![0, 0, 0, 0],
        1 => vec![1, 0, 0, 0],
        2 => vec![6, 0, 4, 0, 1, 0, 0, 0],
        3 => vec![0x41, 0],
        4 => vec![0x3d, 0xd8, 0, 0xde],
        5 => vec![0x80, 0xff],
        _ => g.bytes(3),
    };
    let mut data: Vec<u8> = unit.iter().copied().cycle().take(n).collect();
    if g.bool() {
        let head = match g.below(3) {
            0 => vec![1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 7, 7, 7, 7, 7, 7, 7, 7, 0, 0, 0, 0],
            1 => [&[9u8; 16][..], &[1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 7, 7, 7, 7, 7, 7, 7, 7, 0, 0, 0, 0]].concat(),
            _ => vec![],
        };
        data.splice(0..0, head);
        data.truncate(n);
    }
    let fixed = match kind {
        Kind::Neg => 32,
        Kind::Chal => 48,
        Kind::Auth => 80,
        _ => return data,
    };
    let mut b = SIG.to_vec();
    b.extend_from_slice(&(1 + (fixed > 32) as u32 + (fixed > 48) as u32).to_le_bytes());
    b.resize(fixed, 0);
    b.extend_from_slice(&data);
    for slot in slots(kind) {
        if g.one_in(5) {
            continue;
        }
        let cut = if g.bool() { 0 } else { g.below(8) };
        let len = (data.len() - cut.min(data.len())) as u16;
        b[*slot..slot + 2].copy_from_slice(&len.to_le_bytes());
        b[slot + 2..slot + 4].copy_from_slice(&len.to_le_bytes());
        b[slot + 4..slot + 8].copy_from_slice(&((fixed + g.below(4)) as u32).to_le_bytes());
    }
    b
}

// --------------------------------------------------------------------------------------- C02

pub fn c02(g: &mut Gen, cx: &mut Cx) -> Case {
    let kind = pick_kind(g);
    let b = gen_bytes(g, kind);
    c02_bytes(kind, &b, cx)
}

pub fn c02_bytes(kind: Kind, b: &[u8], cx: &mut Cx) -> Case {
    let got = guard(|| lib_decode(kind, b)).map_err(|p| format!("decoding panicked: {} [{}]", p.text(), describe(kind, b)))?;
    let want = ref_decode(kind, b);
    match (&got, &want) {
        (_, Err(None)) => {
            cx.count("ambiguous");
            return Ok(());
        }
        (None, Err(Some(why))) => cx.count(&format!("rejected: {}", why)),
        (Some((v, rest)), Ok((w, left))) => {
            if v != w {
                return Err(format!("decoded {:.2000?}, the bytes say {:.2000?} [{}]", v, w, describe(kind, b)));
            }
            if rest.len() != *left || (!rest.is_empty() && *rest != &b[b.len() - left..]) {
                return Err(format!("{} bytes left over instead of {} [{}]", rest.len(), left, describe(kind, b)));
            }
            cx.count("accepted");
        }
        (Some((v, _)), Err(Some(why))) => {
            return Err(format!("decoded {:.2000?} although: {} [{}]", v, why, describe(kind, b)));
        }
        (None, Ok((w, _))) => {
            return Err(format!("rejected, although the bytes say {:.2000?} [{}]", w, describe(kind, b)));
        }
    }
    cx.count(&format!("kind_{:?}", kind));
    cx.judged(fnv(b) ^ kind as u64);
    cx.sample(|| format!("{} -> {}", describe(kind, b), match &want { Ok(_) => "same value".to_owned(), Err(e) => format!("both reject: {:?}", e) }));
    Ok(())
}

// --------------------------------------------------------------------------------------- C03

pub fn norm_any(a: &Any) -> Any {
    let mut a = a.clone();
    match &mut a {
        Any::Neg(m) => {
            m.domain = norm(&m.domain);
            m.workstation = norm(&m.workstation);
        }
        Any::Chal(m) => m.name = norm(&m.name),
        Any::Auth(m) => {
            m.domain = norm(&m.domain);
            m.user = norm(&m.user);
            m.workstation = norm(&m.workstation);
        }
        _ => (),
    }
    a
}

fn has_empty_name(a: &Any) -> bool {
    norm_any(a) != *a
}

/// Whether the model's value is one the wire format can tell apart
pub fn ambiguous(a: &Any) -> bool {
    match a {
        Any::Nt(n) => !matches!(dec_nt(&enc_nt(n)), Ok(m) if m == *n),
        Any::Auth(m) => m.nt.as_ref().map_or(false, |n| !matches!(dec_nt(&enc_nt(n)), Ok(m) if m == *n)),
        _ => false,
    }
}

fn same_real(kind: Kind, a: &Any, raw: &[u8]) -> bool {
    fn eq<T: PartialEq>(v: &T, other: Option<(&[u8], T)>) -> bool {
        other.map_or(false, |(_, o)| *v == o)
    }
    with_real!(kind, a, |v| eq(v, decode_any(raw)))
}

pub fn c03(g: &mut Gen, cx: &mut Cx) -> Case {
    let kind = pick_kind(g);
    if g.one_in(3) {
        return c03_decoded(g, kind, cx);
    }
    let mut a = gen_any(g, kind, Opt { consistent: true, ..Opt::default() });
    if cfg!(feature = "strict") {
        // consistency may have been bought with a forbidden word
        let flags = match &mut a {
            Any::Neg(m) => Some(&mut m.flags),
            Any::Chal(m) => Some(&mut m.flags),
            Any::Auth(m) => Some(&mut m.flags),
            Any::Flags(f) => Some(f),
            _ => None,
        };
        if flags.map_or(false, |f| forbidden(*f)) {
            cx.count("skipped: forbidden flags");
            return Ok(());
        }
    }
    if ambiguous(&a) {
        cx.count("skipped: ambiguous NT response");
        return Ok(());
    }
    let what = || format!("{:.1500?}", a);
    let (raw, _) = guard(|| lib_encode(kind, &a)).map_err(|p| format!("encoding panicked: {} [{}]", p.text(), what()))?;
    let back = guard(|| lib_decode(kind, &raw)).map_err(|p| format!("decoding panicked: {} [{}]", p.text(), what()))?;
    let Some((back, rest)) = back else {
        return Err(format!("does not decode any more [{} -> {}]", what(), hexs(&raw)));
    };
    // LMv1 and LMv2 responses cannot be told apart out of context
    if norm_any(&back) != norm_any(&a) {
        return Err(format!("decodes to {:.1500?} [{} -> {}]", back, what(), hexs(&raw)));
    }
    if !rest.is_empty() {
        return Err(format!("{} bytes left over [{} -> {}]", rest.len(), what(), hexs(&raw)));
    }
    let own = !has_empty_name(&a);
    if own && !guard(|| same_real(kind, &a, &raw)).map_err(|p| format!("panicked: {} [{}]", p.text(), what()))? {
        return Err(format!("does not compare equal to the original [{} -> {}]", what(), hexs(&raw)));
    }
    cx.count(&format!("built_{:?}", kind));
    cx.max("largest_message", raw.len() as u64);
    cx.judged(fnv(&raw) ^ kind as u64);
    cx.sample(|| format!("{} -> {}", what(), hexs(&raw)));
    Ok(())
}

fn c03_decoded(g: &mut Gen, kind: Kind, cx: &mut Cx) -> Case {
    let b = gen_bytes(g, kind);
    macro_rules! again {
        ($t:ty, $o:expr) => {{
            let first = guard(|| decode_any::<$t>(&b).map(|(_, v)| v))
                .map_err(|p| format!("decoding panicked: {} [{}]", p.text(), describe(kind, &b)))?;
            let Some(first) = first else {
                cx.count("not decodable");
                return Ok(());
            };
            let raw = guard(|| encode(&first)).map_err(|p| format!("re-encoding panicked: {} [{}]", p.text(), describe(kind, &b)))?;
            let second = guard(|| decode_any::<$t>(&raw).map(|(_, v)| v))
                .map_err(|p| format!("decoding panicked: {} [{}]", p.text(), hexs(&raw)))?;
            let Some(second) = second else {
                return Err(format!("re-encoded {:.1500?} does not decode [{} -> {}]", first, describe(kind, &b), hexs(&raw)));
            };
            let (o1, o2) = ($o(&first), $o(&second));
            if norm_any(&o1) != norm_any(&o2) {
                return Err(format!("re-encoding changed {:.1500?} into {:.1500?} [{}]", o1, o2, describe(kind, &b)));
            }
            if !has_empty_name(&o1) && first != second {
                return Err(format!("does not compare equal after re-encoding [{}]", describe(kind, &b)));
            }
            raw
        }};
    }
    let raw = match kind {
        Kind::Neg => again!(Negotiate, |v| Any::Neg(o_neg(v))),
        Kind::Chal => again!(Challenge, |v| Any::Chal(o_chal(v))),
        Kind::Auth => again!(Authenticate, |v| Any::Auth(o_auth(v))),
        Kind::Avs => again!(Vec<st::AvPair>, |v: &Vec<_>| Any::Avs(o_avs(v))),
        Kind::Nt => again!(st::NtChallenge, |v| Any::Nt(o_nt(v))),
        _ => again!(st::AvPair, |v| Any::Av(o_av(v))),
    };
    cx.count(&format!("decoded_{:?}", kind));
    cx.judged(fnv(&b) ^ fnv(&raw));
    Ok(())
}

// --------------------------------------------------------------------------------------- C04

/// Compares an encoded message with the parts it has to consist of
pub fn audit(raw: &[u8], p: &Parts) -> Result<(), String> {
    if raw.len() < p.fixed.len() {
        return Err(format!("{} bytes, the fixed part alone has {}", raw.len(), p.fixed.len()));
    }
    let mut fixed = raw[..p.fixed.len()].to_vec();
    for (_, slot, _) in &p.fields {
        fixed[*slot..slot + 8].fill(0);
    }
    if fixed != p.fixed {
        return Err(format!("fixed part is {}, must be {}", hex(&fixed), hex(&p.fixed)));
    }
    let mut ranges = Vec::new();
    for (name, slot, data) in &p.fields {
        let (len, max, off) = (le16(&raw[*slot..]) as usize, le16(&raw[slot + 2..]) as usize, le32(&raw[slot + 4..]) as usize);
        if len != max {
            return Err(format!("{}: length {}, maximum {}", name, len, max));
        }
        if len != data.len() {
            return Err(format!("{}: length {}, must be {}", name, len, data.len()));
        }
        if len == 0 {
            continue;
        }
        if off < p.fixed.len() || off + len > raw.len() {
            return Err(format!("{}: {}..{} is not in the payload {}..{}", name, off, off + len, p.fixed.len(), raw.len()));
        }
        if raw[off..off + len] != data[..] {
            return Err(format!("{} holds {}, must be {}", name, hexs(&raw[off..off + len]), hexs(data)));
        }
        ranges.push((off, off + len));
    }
    ranges.sort();
    let mut at = p.fixed.len();
    for (s, e) in ranges {
        if s != at {
            return Err(format!("fields overlap or leave a gap at {}", at));
        }
        at = e;
    }
    if at != raw.len() {
        return Err(format!("{} bytes at the end belong to no field", raw.len() - at));
    }
    Ok(())
}

pub fn c04(g: &mut Gen, cx: &mut Cx) -> Case {
    let kind = pick_kind(g);
    // what is sent does not have to be decodable by us: NUL, other revisions, odd Z4
    let o = Opt { consistent: !g.one_in(4), nul: g.one_in(4), invalid: g.one_in(4), ..Opt::default() };
    let a = gen_any(g, kind, o);
    let what = || format!("{:.1500?}", a);
    let (raw, n) = guard(|| lib_encode(kind, &a)).map_err(|p| format!("encoding panicked: {} [{}]", p.text(), what()))?;
    if n != raw.len() {
        return Err(format!("reports {} bytes, wrote {} [{}]", n, raw.len(), what()));
    }
    if let Some(p) = parts(&a) {
        audit(&raw, &p).map_err(|e| format!("{} [{} -> {}]", e, what(), hexs(&raw)))?;
        cx.add("fields", p.fields.iter().filter(|f| !f.2.is_empty()).count() as u64);
    } else {
        let want = ref_encode(kind, &a, None);
        if raw != want {
            return Err(format!("encoded as {}, must be {} [{}]", hexs(&raw), hexs(&want), what()));
        }
    }
    // the same value again, behind something else
    if g.one_in(8) {
        let mut sink = vec![1, 2, 3];
        let m = guard(|| lib_encode_sink(kind, &a, &mut sink)).map_err(|p| format!("encoding panicked: {} [{}]", p.text(), what()))?;
        if m.ok() != Some(raw.len()) || sink[..3] != [1, 2, 3] || sink[3..] != raw[..] {
            return Err(format!("encoding depends on where it is written to [{}]", what()));
        }
    }
    cx.count(&format!("kind_{:?}", kind));
    cx.max("largest_message", raw.len() as u64);
    cx.judged(fnv(&raw) ^ kind as u64);
    cx.sample(|| format!("{} -> {}", what(), hexs(&raw)));
    Ok(())
}

// --------------------------------------------------------------------------------------- C06

const BITS: [(&str, u32); 32] = [
    ("NTLMSSP_NEGOTIATE_56", flags::NTLMSSP_NEGOTIATE_56),
    ("NTLMSSP_NEGOTIATE_KEY_EXCH", flags::NTLMSSP_NEGOTIATE_KEY_EXCH),
    ("NTLMSSP_NEGOTIATE_128", flags::NTLMSSP_NEGOTIATE_128),
    ("R1", flags::R1),
    ("R2", flags::R2),
    ("R3", flags::R3),
    ("NTLMSSP_NEGOTIATE_VERSION", flags::NTLMSSP_NEGOTIATE_VERSION),
    ("R4", flags::R4),
    ("NTLMSSP_NEGOTIATE_TARGET_INFO", flags::NTLMSSP_NEGOTIATE_TARGET_INFO),
    ("NTLMSSP_REQUEST_NON_NT_SESSION_KEY", flags::NTLMSSP_REQUEST_NON_NT_SESSION_KEY),
    ("R5", flags::R5),
    ("NTLMSSP_NEGOTIATE_IDENTIFY", flags::NTLMSSP_NEGOTIATE_IDENTIFY),
    ("NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY", flags::NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY),
    ("R6", flags::R6),
    ("NTLMSSP_TARGET_TYPE_SERVER", flags::NTLMSSP_TARGET_TYPE_SERVER),
    ("NTLMSSP_TARGET_TYPE_DOMAIN", flags::NTLMSSP_TARGET_TYPE_DOMAIN),
    ("NTLMSSP_NEGOTIATE_ALWAYS_SIGN", flags::NTLMSSP_NEGOTIATE_ALWAYS_SIGN),
    ("R7", flags::R7),
    ("NTLMSSP_NEGOTIATE_OEM_WORKSTATION_SUPPLIED", flags::NTLMSSP_NEGOTIATE_OEM_WORKSTATION_SUPPLIED),
    ("NTLMSSP_NEGOTIATE_OEM_DOMAIN_SUPPLIED", flags::NTLMSSP_NEGOTIATE_OEM_DOMAIN_SUPPLIED),
    ("NTLMSSP_ANONYMOUS", flags::NTLMSSP_ANONYMOUS),
    ("R8", flags::R8),
    ("NTLMSSP_NEGOTIATE_NTLM", flags::NTLMSSP_NEGOTIATE_NTLM),
    ("R9", flags::R9),
    ("NTLMSSP_NEGOTIATE_LM_KEY", flags::NTLMSSP_NEGOTIATE_LM_KEY),
    ("NTLMSSP_NEGOTIATE_DATAGRAM", flags::NTLMSSP_NEGOTIATE_DATAGRAM),
    ("NTLMSSP_NEGOTIATE_SEAL", flags::NTLMSSP_NEGOTIATE_SEAL),
    ("NTLMSSP_NEGOTIATE_SIGN", flags::NTLMSSP_NEGOTIATE_SIGN),
    ("R10", flags::R10),
    ("NTLMSSP_REQUEST_TARGET", flags::NTLMSSP_REQUEST_TARGET),
    ("NTLM_NEGOTIATE_OEM", flags::NTLM_NEGOTIATE_OEM),
    ("NTLMSSP_NEGOTIATE_UNICODE", flags::NTLMSSP_NEGOTIATE_UNICODE),
];

/// Operations on one word, without the debug rendering
fn c06_word(w: u32) -> Case {
    for bit in 0..32 {
        let m = 1u32 << bit;
        if Flags(w).has_flag(bit) != (w & m != 0) {
            return Err(format!("has_flag({}) of {:08x} is {}", bit, w, w & m == 0));
        }
        let mut f = Flags(w);
        f.set_flag(bit);
        if f.0 != w | m {
            return Err(format!("set_flag({}) turns {:08x} into {:08x}", bit, w, f.0));
        }
        let mut f = Flags(w);
        f.clear_flag(bit);
        if f.0 != w & !m {
            return Err(format!("clear_flag({}) turns {:08x} into {:08x}", bit, w, f.0));
        }
    }
    Ok(())
}

fn c06_wire(w: u32) -> Case {
    let raw = encode(&Flags(w));
    if raw != w.to_le_bytes() {
        return Err(format!("{:08x} is encoded as {}", w, hex(&raw)));
    }
    if cfg!(feature = "strict") && forbidden(w) {
        return Ok(());
    }
    match decode_any::<Flags>(&raw) {
        Some((r, f)) if f.0 == w && r.is_empty() => Ok(()),
        other => Err(format!("{:08x} is decoded as {:?}", w, other)),
    }
}

fn c06_debug(w: u32) -> Case {
    let text = format!("{:?}", Flags(w));
    let mut got: Vec<&str> = if text.is_empty() { Vec::new() } else { text.split('|').collect() };
    got.sort();
    let mut want: Vec<&str> = FLAG_NAMES.iter().filter(|(_, b)| w >> b & 1 == 1).map(|(n, _)| *n).collect();
    want.sort();
    if got != want {
        return Err(format!("{:08x} is rendered as {:?}, must name {:?}", w, text, want));
    }
    Ok(())
}

pub fn c06(g: &mut Gen, cx: &mut Cx) -> Case {
    if cx.evaluations == 1 {
        for (got, want) in BITS.iter().zip(FLAG_NAMES) {
            if *got != want {
                return Err(format!("flag {} is bit {}, must be {}", got.0, got.1, want.1));
            }
        }
        // every word with at most two bits set, or at most two clear
        for i in 0..32 {
            for j in 0..32 {
                let w = 1u32 << i | 1 << j;
                for w in [w, !w, 0, u32::MAX] {
                    let all = guard(|| c06_word(w).and_then(|_| c06_wire(w)).and_then(|_| c06_debug(w)));
                    all.map_err(|p| format!("panicked: {} on {:08x}", p.text(), w))??;
                    cx.judged(w as u64);
                    cx.count("words with up to two bits set or clear");
                }
            }
        }
    }
    let w = if g.bool() { g.u32() } else { gen_flags(g) };
    let all = guard(|| c06_word(w).and_then(|_| c06_wire(w)).and_then(|_| c06_debug(w)));
    all.map_err(|p| format!("panicked: {} on {:08x}", p.text(), w))??;
    // a sequence of operations against a plain integer
    let mut f = Flags(w);
    let mut m = w;
    for _ in 0..8 {
        let b = g.below(32) as u32;
        if g.bool() {
            f.set_flag(b);
            m |= 1 << b;
        } else {
            f.clear_flag(b);
            m &= !(1 << b);
        }
        let q = g.below(32) as u32;
        if f.0 != m || f.has_flag(q) != (m >> q & 1 == 1) {
            return Err(format!("after a sequence of operations the word is {:08x} instead of {:08x}", f.0, m));
        }
    }
    cx.judged(w as u64);
    cx.add("bit operations", 96 + 8);
    cx.sample(|| format!("{:08x} = {:?}", w, Flags(w)));
    Ok(())
}

/// All 2^32 words, one slice of them
pub fn c06_all(slice: u32, of: u32, cx: &mut Cx) -> Case {
    let per = (1u64 << 32) / of as u64;
    for w in slice as u64 * per..(slice as u64 + 1) * per {
        let w = w as u32;
        c06_word(w)?;
        if w % 8 == 0 {
            c06_wire((w >> 3).wrapping_mul(0x9e37_79b1))?;
        }
        if w % 512 == 0 {
            c06_debug((w >> 9).wrapping_mul(0x9e37_79b1))?;
        }
    }
    cx.add("words (all)", per);
    cx.evaluations += per;
    cx.judgements += per;
    Ok(())
}

// --------------------------------------------------------------------------------------- C07

pub fn c07(g: &mut Gen, cx: &mut Cx) -> Case {
    let strict = cfg!(feature = "strict");
    // walk through all combinations of the 16 bits the rule is about, the others at random
    let rule = [28u32, 27, 26, 24, 21, 18, 14, 10, 8, 3, 16, 17, 0, 1, 7, 19];
    let n = match g.below(3) {
        0 => g.u16(),
        1 => 1 << g.below(16) | if g.bool() { 0x1000 } else { 0x2000 },
        _ => 1 << g.below(16) | 1 << g.below(16),
    };
    let mut w = g.u32();
    for (i, b) in rule.iter().enumerate() {
        w = w & !(1 << b) | (n as u32 >> i & 1) << b;
    }
    // nearly none and nearly all of the 32 bits
    if g.one_in(5) {
        let bits = (0..g.below(4)).fold(0, |m, _| m | 1 << g.below(32));
        w = if g.bool() { bits } else { !bits };
        cx.count("sparse or dense words");
    }
    let o = Opt { consistent: true, max_infos: 200, ..Opt::default() };
    let kind = g.pick(&[Kind::Neg, Kind::Chal, Kind::Auth, Kind::Flags]);
    let mut a = gen_any(g, kind, o);
    match &mut a {
        Any::Neg(m) => m.flags = m.flags & f::VERSION | w & !f::VERSION,
        Any::Chal(m) => m.flags = m.flags & f::VERSION | w & !f::VERSION,
        Any::Auth(m) => {
            let keep = f::VERSION | f::KEY_EXCH;
            m.flags = m.flags & keep | w & !keep;
        }
        Any::Flags(v) => *v = w,
        _ => unreachable!(),
    }
    let w = match &a {
        Any::Neg(m) => m.flags,
        Any::Chal(m) => m.flags,
        Any::Auth(m) => m.flags,
        _ => w,
    };
    let mut b = ref_encode(kind, &a, Some(g));
    let mut bad = forbidden(w);
    if kind == Kind::Chal && g.bool() {
        let r = if g.bool() { g.u64() } else { 1 << g.below(64) };
        b[32..40].copy_from_slice(&r.to_le_bytes());
        bad |= r != 0;
    }
    let what = || format!("flags {:08x} {}", w, describe(kind, &b));
    let got = guard(|| lib_decode(kind, &b)).map_err(|p| format!("decoding panicked: {} [{}]", p.text(), what()))?;
    // the lenient reading is the value in either mode
    let lenient = match kind {
        Kind::Neg => dec_neg(&b, false).map(Any::Neg).map_err(Some),
        Kind::Chal => dec_chal(&b, false).map(Any::Chal).map_err(Some),
        Kind::Auth => dec_auth(&b, false).map(Any::Auth),
        _ => Ok(Any::Flags(w)),
    };
    let lenient = match lenient {
        Ok(v) => v,
        Err(_) => {
            cx.count("skipped");
            return Ok(());
        }
    };
    match got {
        Some(_) if strict && bad => return Err(format!("strict mode accepts [{}]", what())),
        None if !(strict && bad) => {
            return Err(format!("{} mode rejects [{}]", if strict { "strict" } else { "default" }, what()));
        }
        Some((v, _)) if v != lenient => return Err(format!("decoded {:?} instead of {:?} [{}]", v, lenient, what())),
        _ => (),
    }
    cx.count(match (strict, bad) {
        (true, true) => "strict: forbidden, rejected",
        (true, false) => "strict: allowed, accepted",
        (false, true) => "default: forbidden, accepted",
        (false, false) => "default: allowed, accepted",
    });
    cx.judged((w as u64) << 4 | kind as u64);
    cx.sample(what);
    Ok(())
}

// --------------------------------------------------------------------------------------- C23

struct Sink<'a, 'b> {
    g: &'a mut Gen<'b>,
    got: Vec<u8>,
    /// Fails after this many bytes
    limit: usize,
    fail: Option<std::io::ErrorKind>,
    interrupts: bool,
    chunk: usize,
    failed: bool,
    after_failure: u64,
    calls: u64,
}

impl std::io::Write for Sink<'_, '_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.failed {
            self.after_failure += 1;
        }
        if b.is_empty() {
            return Ok(0);
        }
        if self.interrupts && self.g.one_in(3) {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let room = self.limit.saturating_sub(self.got.len());
        if room == 0 {
            self.failed = true;
            return match self.fail {
                Some(kind) => Err(std::io::Error::new(kind, "injected")),
                None => Ok(0),
            };
        }
        let n = b.len().min(room).min(1 + self.g.below(self.chunk));
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn c23(g: &mut Gen, cx: &mut Cx) -> Case {
    use std::io::ErrorKind::*;
    let kind = pick_kind(g);
    let o = Opt { nul: g.one_in(6), max_infos: 3000, ..Opt::default() };
    let a = gen_any(g, kind, o);
    let what = || format!("{:.800?}", a);
    let (raw, _) = guard(|| lib_encode(kind, &a)).map_err(|p| format!("encoding panicked: {} [{}]", p.text(), what()))?;
    let fails = g.bool();
    let fail = if g.one_in(4) { None } else { Some(g.pick(&[Other, BrokenPipe, ConnectionReset, TimedOut, WouldBlock, StorageFull])) };
    let limit = if !fails {
        usize::MAX
    } else if g.bool() {
        g.below(raw.len() + 1)
    } else {
        g.below(raw.len().min(20) + 1)
    };
    let (chunk, interrupts) = (g.pick(&[1, 2, 3, 7, 64, 100_000]), g.one_in(3));
    let mut s = Sink { g, got: Vec::new(), limit, fail, interrupts, chunk, failed: false, after_failure: 0, calls: 0 };
    let r = guard(|| lib_encode_sink(kind, &a, &mut s));
    let set = format!("limit {:?}, error {:?}, chunks of {}, interrupts {}", (limit != usize::MAX).then_some(limit), fail, chunk, interrupts);
    let r = r.map_err(|p| format!("encoding panicked: {} [{}; {}]", p.text(), what(), set))?;
    if !raw.starts_with(&s.got) {
        return Err(format!("wrote {} which is no prefix of {} [{}; {}]", hexs(&s.got), hexs(&raw), what(), set));
    }
    match r {
        Ok(n) => {
            if s.failed {
                return Err(format!("success although the writer failed after {} bytes [{}; {}]", s.got.len(), what(), set));
            }
            if s.got != raw || n != raw.len() {
                return Err(format!("reports {} of {} bytes, wrote {} [{}; {}]", n, raw.len(), s.got.len(), what(), set));
            }
            cx.count("complete");
        }
        Err(e) => {
            if !s.failed {
                return Err(format!("error '{}' although the writer never failed [{}; {}]", e, what(), set));
            }
            let same = match fail {
                Some(k) => e.kind() == k && e.to_string() == "injected",
                None => e.kind() == WriteZero,
            };
            if !same {
                return Err(format!("reports '{:?}' instead of the writer's error [{}; {}]", e, what(), set));
            }
            cx.count("failed as injected");
        }
    }
    cx.add("writes observed", s.calls);
    cx.judged(fnv(&raw) ^ mix(limit as u64) ^ chunk as u64);
    cx.sample(|| format!("{:?}, {} bytes; {}", kind, raw.len(), set));
    Ok(())
}
