//! Translation between the values of http-ntlm (through its public API only) and the model.

use crate::gen::Gen;
use crate::model::*;
use crate::util::hexs;
use http_ntlm::messages::structures as st;
use http_ntlm::messages::{Authenticate, Challenge, Flags, Negotiate};
pub use http_ntlm::verif::{decode_any, decode_verbose, encode, encode_into};

pub fn arr<const N: usize>(b: &[u8]) -> [u8; N] {
    let mut a = [0; N];
    assert_eq!(b.len(), N, "buffer of an unexpected size");
    a.copy_from_slice(b);
    a
}

pub fn o_ver(v: &st::Version) -> Ver {
    Ver { major: v.major, minor: v.minor, build: v.build, rev: v.revision_count }
}
pub fn m_ver(v: &Ver) -> st::Version {
    st::Version { major: v.major, minor: v.minor, build: v.build, revision_count: v.rev }
}

pub fn m_time(t: u64) -> st::FileTime {
    st::FileTime { low: t as u32, high: (t >> 32) as u32 }
}
pub fn o_time(t: &st::FileTime) -> u64 {
    (t.high as u64) << 32 | t.low as u64
}

pub fn m_avflags(v: u32) -> st::MsvAvFlags {
    st::MsvAvFlags {
        account_authentication_constrained: v & 1 != 0,
        mic_present: v & 2 != 0,
        generated_spn_from_untrusted_source: v & 4 != 0,
    }
}
pub fn o_avflags(v: &st::MsvAvFlags) -> u32 {
    v.account_authentication_constrained as u32
        | (v.mic_present as u32) << 1
        | (v.generated_spn_from_untrusted_source as u32) << 2
}

pub fn m_av(a: &Av) -> st::AvPair {
    use st::AvPair::*;
    match a {
        Av::Eol => MsvAvEOL,
        Av::Name(1, s) => MsvAvNbComputerName(s.clone()),
        Av::Name(2, s) => MsvAvNbDomainName(s.clone()),
        Av::Name(3, s) => MsvAvDnsComputerName(s.clone()),
        Av::Name(4, s) => MsvAvDnsDomainName(s.clone()),
        Av::Name(5, s) => MsvAvDnsTreeName(s.clone()),
        Av::Name(_, s) => MsvAvTargetName(s.clone()),
        Av::Flags(v) => MsvAvFlags(m_avflags(*v)),
        Av::Time(t) => MsvAvTimestamp(m_time(*t)),
        Av::Host { size, z4, custom, machine } => MsvAvSingleHost(st::SingleHostData {
            size: *size,
            z4: *z4,
            custom_data: *custom,
            machine_id: *machine,
        }),
        Av::Bindings(b) => MsvAvChannelBindings(*b),
    }
}
pub fn o_av(a: &st::AvPair) -> Av {
    use st::AvPair::*;
    match a {
        MsvAvEOL => Av::Eol,
        MsvAvNbComputerName(s) => Av::Name(1, utf8(s)),
        MsvAvNbDomainName(s) => Av::Name(2, utf8(s)),
        MsvAvDnsComputerName(s) => Av::Name(3, utf8(s)),
        MsvAvDnsDomainName(s) => Av::Name(4, utf8(s)),
        MsvAvDnsTreeName(s) => Av::Name(5, utf8(s)),
        MsvAvTargetName(s) => Av::Name(9, utf8(s)),
        MsvAvFlags(v) => Av::Flags(o_avflags(v)),
        MsvAvTimestamp(t) => Av::Time(o_time(t)),
        MsvAvSingleHost(h) => o_host(h),
        MsvAvChannelBindings(b) => Av::Bindings(*b),
    }
}
pub fn o_host(h: &st::SingleHostData) -> Av {
    Av::Host { size: h.size, z4: h.z4, custom: h.custom_data, machine: h.machine_id }
}
pub fn m_avs(v: &[Av]) -> Vec<st::AvPair> {
    v.iter().map(m_av).collect()
}
pub fn o_avs(v: &[st::AvPair]) -> Vec<Av> {
    v.iter().map(o_av).collect()
}

/// A string of the library's making. One that is not UTF-8 is undefined behaviour in whatever uses it next.
fn utf8(s: &str) -> String {
    if std::str::from_utf8(s.as_bytes()).is_err() {
        eprintln!("unsafe precondition(s) violated: a string holds {}, which is not UTF-8", hexs(s.as_bytes()));
        std::process::abort();
    }
    s.to_owned()
}

pub fn o_neg(n: &Negotiate) -> Neg {
    Neg {
        flags: n.negotiate_flags.0,
        domain: n.get_domain_name().map(|s| utf8(s)),
        workstation: n.get_workstation().map(|s| utf8(s)),
        version: n.version.as_ref().map(o_ver),
    }
}

/// Builds the message; setters are used for the names and the flag word is written last
pub fn m_neg(m: &Neg) -> Negotiate {
    let mut n = Negotiate::default();
    n.set_domain_name(m.domain.clone());
    n.set_workstation(m.workstation.clone());
    n.version = m.version.as_ref().map(m_ver);
    n.negotiate_flags = Flags(m.flags);
    n
}

pub fn o_chal(c: &Challenge) -> Chal {
    Chal {
        flags: c.negotiate_flags.0,
        name: c.get_target_name().map(|s| utf8(s)),
        challenge: arr(&c.server_challenge),
        infos: o_avs(c.get_target_infos()),
        version: c.version.as_ref().map(o_ver),
    }
}

pub fn add_info(c: &mut Challenge, a: &Av) {
    match a {
        Av::Eol => panic!("not addable"),
        Av::Name(1, s) => c.target_infos_add_computername(s.as_str()),
        Av::Name(2, s) => c.target_infos_add_domainname(s.as_str()),
        Av::Name(3, s) => c.target_infos_add_dnscomputername(s.as_str()),
        Av::Name(4, s) => c.target_infos_add_dnsdomainname(s.as_str()),
        Av::Name(5, s) => c.target_infos_add_dnstreename(s.as_str()),
        Av::Name(_, s) => c.target_infos_add_targetname(s.as_str()),
        Av::Flags(v) => c.target_infos_add_flags(m_avflags(*v)),
        Av::Time(t) => c.target_infos_add_timestamp(m_time(*t)),
        Av::Host { size, z4, custom, machine } => c.target_infos_add_singlehost(st::SingleHostData {
            size: *size,
            z4: *z4,
            custom_data: *custom,
            machine_id: *machine,
        }),
        Av::Bindings(b) => c.target_infos_add_channelbindings(*b),
    };
}

/// Builds the message with its public setters: the target information must be empty or end in its
/// only terminator
pub fn m_chal(m: &Chal) -> Challenge {
    if m.infos.len() == 1 {
        // only the terminator: can be decoded, but not built
        let mut c = decode_any::<Challenge>(&parts_chal(&Chal { flags: f::UNICODE, name: None, challenge: [0; 8], infos: m.infos.clone(), version: None }).canonical()).expect("decodable").1;
        fill_chal(&mut c, m);
        return c;
    }
    let mut c = Challenge::default();
    for a in &m.infos {
        if *a != Av::Eol {
            add_info(&mut c, a);
        }
    }
    fill_chal(&mut c, m);
    c
}

fn fill_chal(c: &mut Challenge, m: &Chal) {
    c.server_challenge = m.challenge.into();
    c.set_target_name(m.name.clone());
    c.version = m.version.as_ref().map(m_ver);
    c.negotiate_flags = Flags(m.flags);
}

pub fn o_lm(l: &st::LmChallenge) -> Lm {
    match l {
        st::LmChallenge::V1(c) => Lm::V1(arr(&c.response)),
        st::LmChallenge::V2(c) => Lm::V2(arr(&c.response), arr(&c.challenge_from_client)),
    }
}
pub fn m_lm(l: &Lm) -> st::LmChallenge {
    match l {
        Lm::V1(r) => st::Lmv1Challenge { response: (*r).into() }.into(),
        Lm::V2(r, c) => st::Lmv2Challenge { response: (*r).into(), challenge_from_client: (*c).into() }.into(),
    }
}
pub fn o_blob(b: &st::Ntv2Challenge) -> Blob {
    Blob { time: o_time(&b.timestamp), cc: arr(&b.challenge_from_client), infos: o_avs(&b.target_infos) }
}
pub fn m_blob(b: &Blob) -> st::Ntv2Challenge {
    st::Ntv2Challenge {
        timestamp: m_time(b.time),
        challenge_from_client: b.cc.into(),
        target_infos: m_avs(&b.infos),
    }
}
pub fn o_nt(n: &st::NtChallenge) -> Nt {
    match n {
        st::NtChallenge::V1(c) => Nt::V1(arr(&c.response)),
        st::NtChallenge::V2(b) => Nt::Bare(o_blob(b)),
        st::NtChallenge::V2Response(r) => Nt::V2(arr(&r.nt_proof_str), o_blob(&r.challenge)),
    }
}
pub fn m_nt(n: &Nt) -> st::NtChallenge {
    match n {
        Nt::V1(r) => st::Ntv1Challenge { response: (*r).into() }.into(),
        Nt::Bare(b) => m_blob(b).into(),
        Nt::V2(p, b) => st::Ntv2Response { nt_proof_str: (*p).into(), challenge: m_blob(b) }.into(),
    }
}

pub fn o_auth(a: &Authenticate) -> Auth {
    Auth {
        lm: a.lm_challenge_response.as_ref().map(o_lm),
        nt: a.nt_challenge_response.as_ref().map(o_nt),
        domain: a.domain.as_ref().map(|s| utf8(s)),
        user: a.user.as_ref().map(|s| utf8(s)),
        workstation: a.workstation.as_ref().map(|s| utf8(s)),
        key: a.get_encrypted_random_session_key().map(|k| arr(k)),
        flags: a.negotiate_flags.0,
        version: a.version.as_ref().map(o_ver),
        mic: arr(&a.mic),
    }
}
pub fn m_auth(m: &Auth) -> Authenticate {
    let mut a = Authenticate::default();
    a.lm_challenge_response = m.lm.as_ref().map(m_lm);
    a.nt_challenge_response = m.nt.as_ref().map(m_nt);
    a.domain = m.domain.as_deref().map(|s| s.into());
    a.user = m.user.as_deref().map(|s| s.into());
    a.workstation = m.workstation.as_deref().map(|s| s.into());
    a.set_encrypted_random_session_key(m.key.map(|k| k.into()));
    a.negotiate_flags = Flags(m.flags);
    a.version = m.version.as_ref().map(m_ver);
    a.mic = m.mic.into();
    a
}

/// A CHALLENGE of the library with exactly these contents, built or decoded from any layout
pub fn feed_chal(m: &Chal, g: &mut Gen) -> Option<(Challenge, &'static str)> {
    let eols = m.infos.iter().filter(|a| **a == Av::Eol).count();
    let buildable = m.infos.is_empty() || eols == 1;
    if buildable && g.bool() {
        return Some((m_chal(m), "built"));
    }
    let raw = if g.bool() { parts_chal(m).canonical() } else { parts_chal(m).layout(Some(g)) };
    decode_any::<Challenge>(&raw).map(|(_, c)| (c, "decoded"))
}
