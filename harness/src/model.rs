//! Reference model of the NTLM wire format, written from MS-NLMP. Shares no code with http-ntlm.

use crate::crypto::utf16;
use crate::gen::Gen;

pub const SIG: &[u8; 8] = b"NTLMSSP\0";

pub mod f {
    pub const UNICODE: u32 = 1 << 0;
    pub const OEM: u32 = 1 << 1;
    pub const REQUEST_TARGET: u32 = 1 << 2;
    pub const SIGN: u32 = 1 << 4;
    pub const SEAL: u32 = 1 << 5;
    pub const LM_KEY: u32 = 1 << 7;
    pub const NTLM: u32 = 1 << 9;
    pub const DOMAIN_SUPPLIED: u32 = 1 << 12;
    pub const WORKSTATION_SUPPLIED: u32 = 1 << 13;
    pub const ALWAYS_SIGN: u32 = 1 << 15;
    pub const TYPE_DOMAIN: u32 = 1 << 16;
    pub const TYPE_SERVER: u32 = 1 << 17;
    pub const ESS: u32 = 1 << 19;
    pub const NON_NT_KEY: u32 = 1 << 22;
    pub const TARGET_INFO: u32 = 1 << 23;
    pub const VERSION: u32 = 1 << 25;
    pub const K128: u32 = 1 << 29;
    pub const KEY_EXCH: u32 = 1 << 30;
    /// MS-NLMP 2.2.2.5: r1..r10
    pub const RESERVED: u32 =
        1 << 28 | 1 << 27 | 1 << 26 | 1 << 24 | 1 << 21 | 1 << 18 | 1 << 14 | 1 << 10 | 1 << 8 | 1 << 3;
}

/// Name and bit of every flag of MS-NLMP 2.2.2.5
pub const FLAG_NAMES: [(&str, u32); 32] = [
    ("NTLMSSP_NEGOTIATE_56", 31),
    ("NTLMSSP_NEGOTIATE_KEY_EXCH", 30),
    ("NTLMSSP_NEGOTIATE_128", 29),
    ("R1", 28),
    ("R2", 27),
    ("R3", 26),
    ("NTLMSSP_NEGOTIATE_VERSION", 25),
    ("R4", 24),
    ("NTLMSSP_NEGOTIATE_TARGET_INFO", 23),
    ("NTLMSSP_REQUEST_NON_NT_SESSION_KEY", 22),
    ("R5", 21),
    ("NTLMSSP_NEGOTIATE_IDENTIFY", 20),
    ("NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY", 19),
    ("R6", 18),
    ("NTLMSSP_TARGET_TYPE_SERVER", 17),
    ("NTLMSSP_TARGET_TYPE_DOMAIN", 16),
    ("NTLMSSP_NEGOTIATE_ALWAYS_SIGN", 15),
    ("R7", 14),
    ("NTLMSSP_NEGOTIATE_OEM_WORKSTATION_SUPPLIED", 13),
    ("NTLMSSP_NEGOTIATE_OEM_DOMAIN_SUPPLIED", 12),
    ("NTLMSSP_ANONYMOUS", 11),
    ("R8", 10),
    ("NTLMSSP_NEGOTIATE_NTLM", 9),
    ("R9", 8),
    ("NTLMSSP_NEGOTIATE_LM_KEY", 7),
    ("NTLMSSP_NEGOTIATE_DATAGRAM", 6),
    ("NTLMSSP_NEGOTIATE_SEAL", 5),
    ("NTLMSSP_NEGOTIATE_SIGN", 4),
    ("R10", 3),
    ("NTLMSSP_REQUEST_TARGET", 2),
    ("NTLM_NEGOTIATE_OEM", 1),
    ("NTLMSSP_NEGOTIATE_UNICODE", 0),
];

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Av {
    Eol,
    /// Ids 1 to 5 and 9
    Name(u16, String),
    Flags(u32),
    Time(u64),
    Host { size: u32, z4: u32, custom: [u8; 8], machine: [u8; 32] },
    Bindings([u8; 16]),
}
pub const NAME_IDS: [u16; 6] = [1, 2, 3, 4, 5, 9];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Ver {
    pub major: u8,
    pub minor: u8,
    pub build: u16,
    pub rev: u8,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Neg {
    pub flags: u32,
    pub domain: Option<String>,
    pub workstation: Option<String>,
    pub version: Option<Ver>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Chal {
    pub flags: u32,
    pub name: Option<String>,
    pub challenge: [u8; 8],
    pub infos: Vec<Av>,
    pub version: Option<Ver>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Lm {
    V1([u8; 24]),
    V2([u8; 16], [u8; 8]),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Blob {
    pub time: u64,
    pub cc: [u8; 8],
    pub infos: Vec<Av>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Nt {
    V1([u8; 24]),
    /// Without proof and terminator, accepted when decoding
    Bare(Blob),
    V2([u8; 16], Blob),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Auth {
    pub lm: Option<Lm>,
    pub nt: Option<Nt>,
    pub domain: Option<String>,
    pub user: Option<String>,
    pub workstation: Option<String>,
    pub key: Option<[u8; 16]>,
    pub flags: u32,
    pub version: Option<Ver>,
    pub mic: [u8; 16],
}

// ---------------------------------------------------------------------------------- encoding

pub fn enc_av(av: &Av, out: &mut Vec<u8>) {
    let (id, data) = match av {
        Av::Eol => (0, Vec::new()),
        Av::Name(id, s) => (*id, utf16(s)),
        Av::Flags(v) => (6, v.to_le_bytes().to_vec()),
        Av::Time(t) => (7, t.to_le_bytes().to_vec()),
        Av::Host { size, z4, custom, machine } => {
            let mut d = size.to_le_bytes().to_vec();
            d.extend_from_slice(&z4.to_le_bytes());
            d.extend_from_slice(custom);
            d.extend_from_slice(machine);
            (8, d)
        }
        Av::Bindings(b) => (10, b.to_vec()),
    };
    out.extend_from_slice(&id.to_le_bytes());
    out.extend_from_slice(&(data.len() as u16).to_le_bytes());
    out.extend_from_slice(&data);
}

pub fn enc_avs(avs: &[Av]) -> Vec<u8> {
    let mut v = Vec::new();
    avs.iter().for_each(|a| enc_av(a, &mut v));
    v
}

pub fn enc_ver(v: &Ver) -> [u8; 8] {
    let b = v.build.to_le_bytes();
    [v.major, v.minor, b[0], b[1], 0, 0, 0, v.rev]
}

pub fn enc_blob(b: &Blob) -> Vec<u8> {
    let mut v = vec![1, 1, 0, 0, 0, 0, 0, 0];
    v.extend_from_slice(&b.time.to_le_bytes());
    v.extend_from_slice(&b.cc);
    v.extend_from_slice(&[0; 4]);
    v.extend_from_slice(&enc_avs(&b.infos));
    v
}

pub fn enc_lm(l: &Lm) -> Vec<u8> {
    match l {
        Lm::V1(r) => r.to_vec(),
        Lm::V2(r, c) => [&r[..], &c[..]].concat(),
    }
}

pub fn enc_nt(n: &Nt) -> Vec<u8> {
    match n {
        Nt::V1(r) => r.to_vec(),
        Nt::Bare(b) => enc_blob(b),
        Nt::V2(p, b) => [&p[..], &enc_blob(b)[..], &[0; 4][..]].concat(),
    }
}

/// A message before its payload is laid out: fixed part (with version and MIC) and, per field, the
/// position of its header and its contents
pub struct Parts {
    pub fixed: Vec<u8>,
    pub fields: Vec<(&'static str, usize, Vec<u8>)>,
}

pub fn parts_neg(m: &Neg) -> Parts {
    let mut fixed = SIG.to_vec();
    fixed.extend_from_slice(&1u32.to_le_bytes());
    fixed.extend_from_slice(&m.flags.to_le_bytes());
    fixed.extend_from_slice(&[0; 16]);
    m.version.iter().for_each(|v| fixed.extend_from_slice(&enc_ver(v)));
    let oem = |s: &Option<String>| s.as_deref().unwrap_or("").as_bytes().to_vec();
    Parts { fixed, fields: vec![("domain", 16, oem(&m.domain)), ("workstation", 24, oem(&m.workstation))] }
}

pub fn parts_chal(m: &Chal) -> Parts {
    let mut fixed = SIG.to_vec();
    fixed.extend_from_slice(&2u32.to_le_bytes());
    fixed.extend_from_slice(&[0; 8]);
    fixed.extend_from_slice(&m.flags.to_le_bytes());
    fixed.extend_from_slice(&m.challenge);
    fixed.extend_from_slice(&[0; 16]);
    m.version.iter().for_each(|v| fixed.extend_from_slice(&enc_ver(v)));
    let name = utf16(m.name.as_deref().unwrap_or(""));
    Parts { fixed, fields: vec![("target name", 12, name), ("target info", 40, enc_avs(&m.infos))] }
}

pub fn parts_auth(m: &Auth) -> Parts {
    let mut fixed = SIG.to_vec();
    fixed.extend_from_slice(&3u32.to_le_bytes());
    fixed.extend_from_slice(&[0; 48]);
    fixed.extend_from_slice(&m.flags.to_le_bytes());
    m.version.iter().for_each(|v| fixed.extend_from_slice(&enc_ver(v)));
    fixed.extend_from_slice(&m.mic);
    let name = |s: &Option<String>| utf16(s.as_deref().unwrap_or(""));
    Parts {
        fixed,
        fields: vec![
            ("LM response", 12, m.lm.as_ref().map(enc_lm).unwrap_or_default()),
            ("NT response", 20, m.nt.as_ref().map(enc_nt).unwrap_or_default()),
            ("domain", 28, name(&m.domain)),
            ("user", 36, name(&m.user)),
            ("workstation", 44, name(&m.workstation)),
            ("session key", 52, m.key.map(|k| k.to_vec()).unwrap_or_default()),
        ],
    }
}

impl Parts {
    /// The message with its payload in header order
    #[allow(dead_code)]
    pub fn canonical(&self) -> Vec<u8> {
        self.layout(None)
    }

    /// The message with its payload in any order, with gaps, shared ranges and trailing bytes
    pub fn layout(&self, mut g: Option<&mut Gen>) -> Vec<u8> {
        let mut v = self.fixed.clone();
        let mut order: Vec<usize> = (0..self.fields.len()).collect();
        let wild = g.as_mut().map_or(0, |g| g.below(4));
        if let Some(g) = g.as_mut() {
            if wild > 0 {
                for i in (1..order.len()).rev() {
                    order.swap(i, g.below(i + 1));
                }
            }
        }
        for i in order {
            let (_, slot, data) = &self.fields[i];
            let mut offset = v.len();
            let mut max_len = data.len() as u16;
            if let Some(g) = g.as_mut() {
                if wild > 0 && g.one_in(8) {
                    let n = if g.one_in(16) { g.len(20_000) } else { g.below(5) };
                    let junk = g.u8();
                    v.extend(std::iter::repeat(junk).take(n));
                    offset = v.len();
                }
                if g.one_in(6) {
                    max_len = g.int(16) as u16;
                }
                if data.is_empty() {
                    if g.bool() {
                        offset = g.int(32) as usize;
                    }
                } else if wild > 1 && data.len() < 300 && g.one_in(4) {
                    // not inside of the headers, they are still being written
                    let from = self.fixed.len();
                    if let Some(p) = v[from..].windows(data.len()).position(|w| w == &data[..]) {
                        offset = from + p;
                    }
                }
            }
            if offset == v.len() {
                v.extend_from_slice(data);
            }
            v[*slot..slot + 2].copy_from_slice(&(data.len() as u16).to_le_bytes());
            v[slot + 2..slot + 4].copy_from_slice(&max_len.to_le_bytes());
            v[slot + 4..slot + 8].copy_from_slice(&(offset as u32).to_le_bytes());
        }
        if let Some(g) = g.as_mut() {
            if g.one_in(6) {
                let n = g.below(10);
                let tail = g.bytes(n);
                v.extend_from_slice(&tail);
            }
        }
        v
    }
}

// ---------------------------------------------------------------------------------- decoding

pub type R<T> = Result<T, &'static str>;

pub fn le16(b: &[u8]) -> u16 {
    u16::from_le_bytes([b[0], b[1]])
}
pub fn le32(b: &[u8]) -> u32 {
    u32::from_le_bytes([b[0], b[1], b[2], b[3]])
}
pub fn le64(b: &[u8]) -> u64 {
    le32(b) as u64 | (le32(&b[4..]) as u64) << 32
}

/// The text up to the first NUL or undecodable unit, and the bytes it takes
pub fn dec_utf16(b: &[u8]) -> (String, usize) {
    let mut s = String::new();
    let mut i = 0;
    while i + 2 <= b.len() {
        let u = le16(&b[i..]) as u32;
        if u == 0 || (0xdc00..0xe000).contains(&u) {
            break;
        }
        if (0xd800..0xdc00).contains(&u) {
            if i + 4 > b.len() {
                break;
            }
            let l = le16(&b[i + 2..]) as u32;
            if !(0xdc00..0xe000).contains(&l) {
                break;
            }
            s.push(char::from_u32(0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00)).unwrap());
            i += 4;
        } else {
            s.push(char::from_u32(u).unwrap());
            i += 2;
        }
    }
    (s, i)
}

pub fn dec_ver(b: &[u8]) -> R<Ver> {
    if b.len() < 8 {
        return Err("truncated version");
    }
    if b[4..7] != [0, 0, 0] {
        return Err("version reserved bytes");
    }
    if b[7] != 0x0f {
        return Err("version revision");
    }
    Ok(Ver { major: b[0], minor: b[1], build: le16(&b[2..]), rev: b[7] })
}

/// One pair and the bytes it takes
pub fn dec_av(b: &[u8]) -> R<(Av, usize)> {
    if b.len() < 4 {
        return Err("truncated AV pair");
    }
    let (id, n) = (le16(b), le16(&b[2..]) as usize);
    let d = b.get(4..4 + n).ok_or("truncated AV value")?;
    let sized = |want: usize| if n == want { Ok(()) } else { Err("AV value size") };
    let av = match id {
        0 => {
            sized(0)?;
            Av::Eol
        }
        1..=5 | 9 => {
            let (s, used) = dec_utf16(d);
            if used != n {
                return Err("AV name not decodable");
            }
            Av::Name(id, s)
        }
        6 => {
            sized(4)?;
            if le32(d) > 7 {
                return Err("AV flags");
            }
            Av::Flags(le32(d))
        }
        7 => {
            sized(8)?;
            Av::Time(le64(d))
        }
        8 => {
            sized(48)?;
            if le32(&d[4..]) != 0 {
                return Err("single host Z4");
            }
            Av::Host {
                size: le32(d),
                z4: 0,
                custom: d[8..16].try_into().unwrap(),
                machine: d[16..48].try_into().unwrap(),
            }
        }
        10 => {
            sized(16)?;
            Av::Bindings(d.try_into().unwrap())
        }
        _ => return Err("AV id"),
    };
    Ok((av, 4 + n))
}

/// Pairs up to the first thing that is none, and the bytes they take
pub fn dec_avs(b: &[u8]) -> (Vec<Av>, usize) {
    let mut v = Vec::new();
    let mut i = 0;
    while let Ok((av, n)) = dec_av(&b[i..]) {
        v.push(av);
        i += n;
    }
    (v, i)
}

/// An NTLMv2 client challenge without the proof; takes as many pairs as there are
pub fn dec_blob(b: &[u8]) -> R<(Blob, usize)> {
    if b.len() < 28 {
        return Err("truncated NTLMv2 response");
    }
    if b[..8] != [1, 1, 0, 0, 0, 0, 0, 0] || b[24..28] != [0; 4] {
        return Err("NTLMv2 response header");
    }
    let (infos, n) = dec_avs(&b[28..]);
    Ok((Blob { time: le64(&b[8..]), cc: b[16..24].try_into().unwrap(), infos }, 28 + n))
}

/// `Err(None)`: the interpretation is ambiguous
pub fn dec_nt(b: &[u8]) -> Result<Nt, Option<&'static str>> {
    let with_proof = || -> Option<Nt> {
        let (mut blob, n) = dec_blob(b.get(16..)?).ok()?;
        (16 + n == b.len() && blob.infos.pop() == Some(Av::Eol)).then(|| Nt::V2(b[..16].try_into().unwrap(), blob))
    };
    if let Ok((blob, n)) = dec_blob(b) {
        if n == b.len() {
            return Ok(Nt::Bare(blob));
        }
        return Err(if with_proof().is_some() { None } else { Some("NTLMv2 response") });
    }
    if let Some(nt) = with_proof() {
        return Ok(nt);
    }
    if b.len() == 24 {
        return Ok(Nt::V1(b.try_into().unwrap()));
    }
    Err(Some("NT response"))
}

/// MS-NLMP 2.2.2.5, what the strict feature rejects
pub fn forbidden(flags: u32) -> bool {
    flags & f::RESERVED != 0
        || flags & f::TYPE_DOMAIN != 0 && flags & f::TYPE_SERVER != 0
        || flags & (f::UNICODE | f::OEM) == 0
        || flags & f::LM_KEY != 0 && flags & f::ESS != 0
}

fn header(b: &[u8], kind: u32, len: usize) -> R<()> {
    if b.len() < 12 || &b[..8] != SIG || le32(&b[8..]) != kind {
        return Err("signature or type");
    }
    if b.len() < len {
        return Err("truncated header");
    }
    Ok(())
}

fn range<'a>(b: &'a [u8], slot: usize) -> R<Option<&'a [u8]>> {
    let (len, offset) = (le16(&b[slot..]) as usize, le32(&b[slot + 4..]) as usize);
    if len == 0 {
        return Ok(None);
    }
    b.get(offset..offset + len).map(Some).ok_or("field outside of the message")
}

fn flags(b: &[u8], strict: bool) -> R<u32> {
    let v = le32(b);
    if strict && forbidden(v) {
        return Err("forbidden flags");
    }
    Ok(v)
}

pub fn dec_neg(b: &[u8], strict: bool) -> R<Neg> {
    header(b, 1, 32)?;
    let flags = flags(&b[12..], strict)?;
    let version = if flags & f::VERSION != 0 { Some(dec_ver(&b[32..])?) } else { None };
    let oem = |slot| -> R<Option<String>> {
        match range(b, slot)? {
            None => Ok(None),
            Some(d) => String::from_utf8(d.to_vec()).map(Some).map_err(|_| "OEM text"),
        }
    };
    Ok(Neg { flags, domain: oem(16)?, workstation: oem(24)?, version })
}

pub fn dec_chal(b: &[u8], strict: bool) -> R<Chal> {
    header(b, 2, 48)?;
    let flags = flags(&b[20..], strict)?;
    if strict && b[32..40] != [0; 8] {
        return Err("reserved field");
    }
    let version = if flags & f::VERSION != 0 { Some(dec_ver(&b[48..])?) } else { None };
    let name = range(b, 12)?.map(|d| dec_utf16(d).0);
    let infos = match range(b, 40)? {
        None => Vec::new(),
        Some(d) => dec_avs(d).0,
    };
    if le16(&b[40..]) != 0 && infos.last() != Some(&Av::Eol) {
        return Err("target information without terminator");
    }
    Ok(Chal { flags, name, challenge: b[24..32].try_into().unwrap(), infos, version })
}

/// `Err(None)`: the interpretation is ambiguous
pub fn dec_auth(b: &[u8], strict: bool) -> Result<Auth, Option<&'static str>> {
    header(b, 3, 64)?;
    let flags = flags(&b[60..], strict)?;
    let version = if flags & f::VERSION != 0 { Some(dec_ver(&b[64..])?) } else { None };
    let at = if version.is_some() { 72 } else { 64 };
    let mic = b.get(at..at + 16).ok_or("truncated MIC")?.try_into().unwrap();
    let name = |slot| -> R<Option<String>> { Ok(range(b, slot)?.map(|d| dec_utf16(d).0)) };
    let (domain, user, workstation) = (name(28)?, name(36)?, name(44)?);
    let key = if flags & f::KEY_EXCH != 0 {
        match range(b, 52)? {
            None => None,
            Some(d) if d.len() < 16 => return Err(Some("session key size")),
            Some(d) => Some(d[..16].try_into().unwrap()),
        }
    } else {
        None
    };
    let lm_raw = range(b, 12)?;
    let nt = match range(b, 20)? {
        None => None,
        Some(d) => Some(dec_nt(d)?),
    };
    let v1 = match nt {
        Some(Nt::V1(_)) => true,
        Some(_) => false,
        None => flags & f::NTLM != 0,
    };
    let lm = lm_raw.filter(|d| d.len() >= 24).map(|d| {
        if v1 {
            Lm::V1(d[..24].try_into().unwrap())
        } else {
            Lm::V2(d[..16].try_into().unwrap(), d[16..24].try_into().unwrap())
        }
    });
    Ok(Auth { lm, nt, domain, user, workstation, key, flags, version, mic })
}

// ---------------------------------------------------------------------------------- generation

/// What generated messages may contain
#[derive(Clone, Copy)]
pub struct Opt {
    /// U+0000 in names
    pub nul: bool,
    /// Budget for the target information, in bytes
    pub max_infos: usize,
    /// Presence flags match the contents
    pub consistent: bool,
    /// Values that do not decode (version revision, Z4)
    pub invalid: bool,
}

impl Default for Opt {
    fn default() -> Self {
        Opt { nul: false, max_infos: 65535, consistent: false, invalid: false }
    }
}

pub fn gen_time(g: &mut Gen) -> u64 {
    const EPOCH: u64 = 116_444_736_000_000_000;
    match g.below(8) {
        0 => g.int(64),
        1 => EPOCH.wrapping_add(g.below(20) as u64).wrapping_sub(10),
        2 => g.u64(),
        3 => g.below(300) as u64,
        4 => u64::MAX - g.below(300) as u64,
        _ => EPOCH + g.u64() % (200 * 365 * 86400 * 10_000_000),
    }
}

pub fn gen_av(g: &mut Gen, o: Opt, max: usize) -> Av {
    match g.below(12) {
        0..=5 => {
            let id = g.pick(&NAME_IDS);
            let small = if g.one_in(40) { max } else { max.min(80) };
            Av::Name(id, g.text(o.nul, small.saturating_sub(4).min(65534), usize::MAX))
        }
        6 => Av::Flags(g.below(8) as u32),
        7 | 8 => Av::Time(gen_time(g)),
        9 => Av::Host {
            size: if g.bool() { 48 } else { g.int(32) as u32 },
            z4: if o.invalid && g.one_in(4) { g.u32() } else { 0 },
            custom: g.array(),
            machine: g.array(),
        },
        10 => Av::Bindings(g.array()),
        _ => Av::Name(g.pick(&NAME_IDS), g.text(o.nul, max.saturating_sub(4).min(40), usize::MAX)),
    }
}

/// Pairs without terminator, at most `max` bytes
pub fn gen_avs(g: &mut Gen, o: Opt, max: usize) -> Vec<Av> {
    let n = match g.below(40) {
        0 => g.below(400),
        1..=3 => g.below(30),
        _ => g.below(7),
    };
    let mut v: Vec<Av> = Vec::new();
    let mut left = max;
    for _ in 0..n {
        if left < 60 {
            break;
        }
        let av = if !v.is_empty() && g.one_in(8) { v[g.below(v.len())].clone() } else { gen_av(g, o, left) };
        let mut raw = Vec::new();
        enc_av(&av, &mut raw);
        if raw.len() > left {
            break;
        }
        left -= raw.len();
        v.push(av);
    }
    v
}

/// A list as a server sends it: empty, or terminated
pub fn gen_infos(g: &mut Gen, o: Opt) -> Vec<Av> {
    if g.one_in(8) {
        return Vec::new();
    }
    let mut v = gen_avs(g, o, o.max_infos.saturating_sub(4));
    if o.max_infos > 60_000 && g.one_in(300) && !cfg!(miri) {
        // as large as it can get, or as many as possible
        if g.one_in(3) {
            let mut left = o.max_infos.saturating_sub(enc_avs(&v).len() + 20);
            for i in 0..500 + g.below(9000) {
                let short = match i % 3 {
                    0 => Av::Flags(g.below(8) as u32),
                    1 => Av::Name(g.pick(&NAME_IDS), "ab".into()),
                    _ => Av::Name(g.pick(&NAME_IDS), String::new()),
                };
                if left < 8 {
                    break;
                }
                left -= 8;
                v.push(short);
            }
        }
        let used = enc_avs(&v).len();
        let id = g.pick(&NAME_IDS);
        let n = (o.max_infos - used).saturating_sub(8) / 2;
        if used + 8 <= o.max_infos {
            v.push(Av::Name(id, "n".repeat(n)));
        }
    }
    v.push(Av::Eol);
    v
}

pub fn gen_ver(g: &mut Gen, o: Opt) -> Ver {
    Ver {
        major: g.int(8) as u8,
        minor: g.int(8) as u8,
        build: g.int(16) as u16,
        rev: if o.invalid && g.one_in(4) { g.u8() } else { 15 },
    }
}

pub fn gen_flags(g: &mut Gen) -> u32 {
    match g.below(16) {
        0 => 1 << g.below(32),
        1 => !(1 << g.below(32)),
        2 => 0,
        3 => u32::MAX,
        4 => g.int(32) as u32,
        // what Windows servers answer, with some bits flipped
        5..=7 => 0xe28a8233,
        8..=9 => 0xe28a8235 ^ 1 << g.below(32),
        10 => 0xe2898215 ^ 1 << g.below(32) ^ 1 << g.below(32),
        _ => g.u32(),
    }
}

fn name_budget(g: &mut Gen) -> usize {
    if g.one_in(30) {
        65534
    } else {
        60
    }
}

pub fn gen_opt_name(g: &mut Gen, o: Opt, oem: bool) -> Option<String> {
    if g.one_in(4) {
        return None;
    }
    let n = name_budget(g);
    Some(if oem { g.text(o.nul, n, 65535) } else { g.text(o.nul, n, usize::MAX) })
}

fn set(flags: &mut u32, bit: u32, on: bool) {
    if on {
        *flags |= bit
    } else {
        *flags &= !bit
    }
}

fn allow(flags: &mut u32, g: &mut Gen) {
    // most messages should be decodable in strict builds, too
    if cfg!(feature = "strict") && !g.one_in(8) {
        *flags &= !f::RESERVED;
        if *flags & (f::UNICODE | f::OEM) == 0 {
            *flags |= f::UNICODE;
        }
        if *flags & f::TYPE_DOMAIN != 0 {
            *flags &= !f::TYPE_SERVER;
        }
        if *flags & f::LM_KEY != 0 {
            *flags &= !f::ESS;
        }
    }
}

fn gen_version(g: &mut Gen, o: Opt, flags: &mut u32) -> Option<Ver> {
    let version = g.bool().then(|| gen_ver(g, o));
    if !o.consistent && g.one_in(10) {
        return version;
    }
    set(flags, f::VERSION, version.is_some());
    version
}

pub fn gen_neg(g: &mut Gen, o: Opt) -> Neg {
    let mut flags = gen_flags(g);
    allow(&mut flags, g);
    let version = gen_version(g, o, &mut flags);
    let domain = gen_opt_name(g, o, true);
    let workstation = gen_opt_name(g, o, true);
    if o.consistent {
        set(&mut flags, f::DOMAIN_SUPPLIED, domain.is_some());
        set(&mut flags, f::WORKSTATION_SUPPLIED, workstation.is_some());
    }
    Neg { flags, domain, workstation, version }
}

pub fn gen_chal(g: &mut Gen, o: Opt) -> Chal {
    let mut flags = gen_flags(g);
    allow(&mut flags, g);
    let version = gen_version(g, o, &mut flags);
    let name = gen_opt_name(g, o, false);
    let infos = gen_infos(g, o);
    if o.consistent {
        set(&mut flags, f::REQUEST_TARGET, name.is_some());
        set(&mut flags, f::TARGET_INFO, !infos.is_empty());
    }
    Chal { flags, name, challenge: g.array(), infos, version }
}

pub fn gen_blob(g: &mut Gen, o: Opt) -> Blob {
    let mut infos = gen_infos(g, Opt { max_infos: o.max_infos.min(65535 - 48), ..o });
    if g.one_in(10) && !infos.is_empty() {
        infos.pop();
    }
    Blob { time: gen_time(g), cc: g.array(), infos }
}

pub fn gen_auth(g: &mut Gen, o: Opt) -> Auth {
    let mut flags = gen_flags(g);
    allow(&mut flags, g);
    let version = gen_version(g, o, &mut flags);
    let nt = match g.below(6) {
        0 => None,
        1 | 2 => Some(Nt::V1(g.array())),
        3 => Some(Nt::Bare(gen_blob(g, o))),
        _ => Some(Nt::V2(g.array(), gen_blob(g, o))),
    };
    let v1 = match nt {
        Some(Nt::V1(_)) => true,
        Some(_) => false,
        None => flags & f::NTLM != 0,
    };
    let lm = (!g.one_in(5)).then(|| {
        if v1 != (!o.consistent && g.one_in(8)) {
            Lm::V1(g.array())
        } else {
            Lm::V2(g.array(), g.array())
        }
    });
    let key = g.bool().then(|| g.array());
    if o.consistent || g.bool() {
        set(&mut flags, f::KEY_EXCH, key.is_some());
    }
    Auth {
        lm,
        nt,
        domain: gen_opt_name(g, o, false),
        user: gen_opt_name(g, o, false),
        workstation: gen_opt_name(g, o, false),
        key,
        flags,
        version,
        mic: g.array(),
    }
}

/// An absent name and an empty one are the same thing on the wire
pub fn norm(s: &Option<String>) -> Option<String> {
    s.clone().filter(|s| !s.is_empty())
}

/// Damages an encoded message or structure. `slots` are the positions of field headers.
pub fn mutate(g: &mut Gen, v: &mut Vec<u8>, slots: &[usize]) {
    let n = 1 + if g.one_in(3) { g.below(6) } else { 0 };
    for _ in 0..n {
        let len = v.len();
        match g.below(14) {
            0..=4 if !slots.is_empty() => {
                // field headers
                let slot = g.pick(slots);
                if len < slot + 8 {
                    continue;
                }
                let fl = le16(&v[slot..]) as i64;
                let fo = le32(&v[slot + 4..]) as i64;
                let target = len as i64;
                match g.below(8) {
                    0 => {
                        let d = g.pick(&[-4i64, -3, -2, -1, 1, 2, 3, 4]);
                        v[slot..slot + 2].copy_from_slice(&((fl + d) as u16).to_le_bytes());
                    }
                    1 => {
                        let x = g.int(16) as u16;
                        v[slot..slot + 2].copy_from_slice(&x.to_le_bytes());
                    }
                    2 => {
                        let d = g.pick(&[-4i64, -3, -2, -1, 1, 2, 3, 4]);
                        v[slot + 4..slot + 8].copy_from_slice(&((fo + d) as u32).to_le_bytes());
                    }
                    3 => {
                        let x = g.int(32) as u32;
                        v[slot + 4..slot + 8].copy_from_slice(&x.to_le_bytes());
                    }
                    4 => {
                        // ends at, or near, the end of the message
                        let x = target - fl + g.below(5) as i64 - 2;
                        v[slot + 4..slot + 8].copy_from_slice(&(x as u32).to_le_bytes());
                    }
                    5 => {
                        let x = target - fo + g.below(5) as i64 - 2;
                        v[slot..slot + 2].copy_from_slice(&(x as u16).to_le_bytes());
                    }
                    6 => {
                        // anywhere inside
                        let x = g.below(len + 1) as u32;
                        v[slot + 4..slot + 8].copy_from_slice(&x.to_le_bytes());
                        if g.bool() {
                            let y = g.below(len + 2 - x as usize) as u16;
                            v[slot..slot + 2].copy_from_slice(&y.to_le_bytes());
                        }
                    }
                    _ => {
                        // another field's range
                        let other = g.pick(slots);
                        if len >= other + 8 {
                            let h = v[other..other + 8].to_vec();
                            v[slot..slot + 8].copy_from_slice(&h);
                        }
                    }
                }
            }
            5 | 0 if len > 0 => {
                let i = g.below(len);
                v[i] ^= 1 << g.below(8);
            }
            6 | 1 if len > 0 => {
                let i = g.below(len);
                v[i] = g.int(8) as u8;
            }
            7 | 2 if len >= 2 => {
                let i = g.below(len - 1);
                let x = g.int(16) as u16;
                v[i..i + 2].copy_from_slice(&x.to_le_bytes());
            }
            8 if len >= 4 => {
                let i = g.below(len - 3);
                let x = g.int(32) as u32;
                v[i..i + 4].copy_from_slice(&x.to_le_bytes());
            }
            9 => {
                let cut = if g.bool() { len.saturating_sub(1 + g.below(8)) } else { g.below(len + 1) };
                v.truncate(cut);
            }
            10 => {
                let n = 1 + g.below(12);
                let t = g.bytes(n);
                v.extend_from_slice(&t);
            }
            11 if len > 0 => {
                let i = g.below(len);
                let n = 1 + g.below(4);
                v.drain(i..(i + n).min(len));
            }
            12 if len > 0 => {
                let i = g.below(len);
                let n = 1 + g.below(4);
                let t = g.bytes(n);
                v.splice(i..i, t);
            }
            _ if len > 8 => {
                let i = g.below(len - 4);
                let j = g.below(len - 4);
                let n = 1 + g.below((len - i.max(j)).min(40));
                let t = v[i..i + n].to_vec();
                v[j..j + n].copy_from_slice(&t);
            }
            _ => (),
        }
    }
}
