//! C26: what a server gets out of the client's messages with this library's own types.

use crate::codec::{gen_any, Any, Kind};
use crate::crypto::*;
use crate::cx::{guard, Case, Cx};
use crate::gen::Gen;
use crate::hs::{history, plan, Ctx, Judged};
use crate::model::*;
use crate::real::*;
use crate::util::*;
use http_ntlm::messages::structures as st;
use http_ntlm::messages::{Authenticate, Challenge, Negotiate};

/// What a name comes back as
fn received(s: &str) -> Option<String> {
    let s = s.split('\0').next().unwrap();
    Some(s.to_owned())
}

/// Empty names are not told from absent ones, and nothing behind a NUL is read
fn plain(s: &str) -> bool {
    !s.is_empty() && !s.contains('\0')
}

pub fn verify(raw: &[u8], c: &Ctx, j: &Judged, cx: &mut Cx) -> Vec<String> {
    let mut bad = Vec::new();
    let r = guard(|| {
        let mut bad = Vec::new();
        let (Some((_, neg)), Some((_, chal)), Some((_, auth))) =
            (decode_any::<Negotiate>(c.neg), decode_any::<Challenge>(c.chal_raw), decode_any::<Authenticate>(raw))
        else {
            return (vec!["a message does not decode".to_owned()], false, false);
        };
        let mut names = vec![("user", &auth.user, Some(&c.creds.user)), ("domain", &auth.domain, Some(&c.creds.domain))];
        names.push(("workstation", &auth.workstation, c.creds.workstation.as_ref()));
        for (what, got, want) in names {
            let want = want.filter(|w| !w.is_empty()).and_then(|w| received(w));
            if got.as_ref().map(|g| g.to_string()) != want {
                bad.push(format!("the {what} is received as {:.200?}, must be {:.200?}", got, want));
            }
        }
        let infos_plain = chal.get_target_infos().iter().all(|a| !matches!(o_av(a), Av::Name(_, s) if s.contains('\0')));
        let sc: st::ServerChallenge = c.chal.challenge.into();
        match (c.level, &auth.nt_challenge_response) {
            (3.., Some(st::NtChallenge::V2Response(r))) => {
                let mut signed = encode(&r.challenge);
                signed.extend_from_slice(&[0; 4]);
                let key = c.sec.v2.iter().find(|h| hmac_md5(&h[..], &[&sc, &signed]) == r.nt_proof_str[..]);
                match key {
                    None if infos_plain => bad.push(format!("the proof does not verify over the response as decoded, {}", hexs(&signed))),
                    None => (),
                    Some(h) => {
                        let want: st::LmChallenge = st::Lmv2Challenge::from_server_challenge(&sc, h, &r.challenge.challenge_from_client).into();
                        if auth.lm_challenge_response.as_ref() != Some(&want) {
                            bad.push(format!("the LM response is {:?}, Lmv2Challenge::from_server_challenge gives {:?}", auth.lm_challenge_response, want));
                        }
                    }
                }
            }
            (3.., other) => bad.push(format!("the NT response is received as {:.300?}", other)),
            (_, Some(st::NtChallenge::V1(_))) => {
                if let Some(cc) = j.client_challenge {
                    let want: st::LmChallenge = st::Lmv1Challenge::from_client_challenge(&cc.into()).into();
                    if auth.lm_challenge_response.as_ref() != Some(&want) {
                        bad.push(format!("the LM response is {:?}, Lmv1Challenge::from_client_challenge gives {:?}", auth.lm_challenge_response, want));
                    }
                }
            }
            (_, other) => bad.push(format!("the NT response is received as {:.300?}", other)),
        }
        let chal_name = c.chal.name.as_deref();
        let reads_back = plain(&c.creds.user)
            && plain(&c.creds.domain)
            && c.creds.workstation.as_deref().map_or(true, plain)
            && chal_name.map_or(true, plain)
            && infos_plain
            && c.chal.infos.iter().position(|a| *a == Av::Eol).map_or(c.chal.infos.is_empty(), |p| p + 1 == c.chal.infos.len());
        let mut micd = false;
        if reads_back {
            for (what, again, was) in
                [("NEGOTIATE", encode(&neg), c.neg), ("CHALLENGE", encode(&chal), c.chal_raw), ("AUTHENTICATE", encode(&auth), raw)]
            {
                if again != was {
                    bad.push(format!("{what} is received as {} and encoded as {}", hexs(was), hexs(&again)));
                }
            }
            if let (3.., Some(key)) = (c.level, j.server_key) {
                let mut again = auth.clone();
                again.exported_session_key = Some(key.into());
                again.compute_mic(&neg, &chal);
                if again.mic != auth.mic {
                    bad.push(format!("the MIC is {:?}, computed again it is {:?}", auth.mic, again.mic));
                }
                micd = true;
            }
        }
        (bad, reads_back, micd)
    });
    match r {
        Err(p) => bad.push(p.text()),
        Ok((b, reads_back, micd)) => {
            bad.extend(b);
            cx.count("messages verified");
            if reads_back {
                cx.count("messages that read back identically");
            }
            if micd {
                cx.count("MICs recomputed");
            }
        }
    }
    bad
}

pub fn c26(g: &mut Gen, cx: &mut Cx) -> Case {
    if g.one_in(4) {
        return mic(g, cx);
    }
    if g.one_in(8) {
        return responses(g, cx);
    }
    history(plan("C26"), g, cx, None)
}

/// The responses a server computes, of whatever challenges
fn responses(g: &mut Gen, cx: &mut Cx) -> Case {
    let mut chal = |g: &mut Gen| -> [u8; 8] {
        let mut c: [u8; 8] = g.array();
        match g.below(4) {
            0 => c = [g.pick(&[0, 1, 0x41, 0x80, 0xff]); 8],
            1 => c[g.below(8)] = g.pick(&[0, 0xff, 0x80]),
            2 => (0..8).for_each(|i| c[i] = if g.bool() { 0 } else { c[i] }),
            _ => (),
        }
        c
    };
    let (sc, cc) = (chal(g), chal(g));
    let key: Vec<u8> = if g.one_in(3) { let n = g.below(100); g.bytes(n) } else { g.array::<16>().to_vec() };
    let what = || format!("server challenge {}, client challenge {}, key {}", hex(&sc), hex(&cc), hex(&key));
    let (v1, v2) = guard(|| {
        (
            encode::<st::LmChallenge>(&st::Lmv1Challenge::from_client_challenge(&cc.into()).into()),
            encode::<st::LmChallenge>(&st::Lmv2Challenge::from_server_challenge(&sc.into(), &key, &cc.into()).into()),
        )
    })
    .map_err(|p| format!("{} [{}]", p.text(), what()))?;
    let mut want = cc.to_vec();
    want.extend_from_slice(&[0; 16]);
    if v1 != want {
        return Err(format!("Lmv1Challenge::from_client_challenge gives {} [{}]", hex(&v1), what()));
    }
    let mut want = hmac_md5(&key, &[&sc, &cc]).to_vec();
    want.extend_from_slice(&cc);
    if v2 != want {
        return Err(format!("Lmv2Challenge::from_server_challenge gives {}, must be {} [{}]", hex(&v2), hex(&want), what()));
    }
    cx.count("responses computed by the server");
    cx.judged(fnv(&v2));
    Ok(())
}

/// compute_mic on messages of any kind
fn mic(g: &mut Gen, cx: &mut Cx) -> Case {
    let o = Opt { consistent: true, max_infos: 200, ..Opt::default() };
    let (Any::Neg(n), Any::Chal(c), Any::Auth(a)) = (gen_any(g, Kind::Neg, o), gen_any(g, Kind::Chal, o), gen_any(g, Kind::Auth, o)) else { unreachable!() };
    let buildable = c.infos.is_empty() || c.infos.iter().filter(|a| **a == Av::Eol).count() == 1 && c.infos.last() == Some(&Av::Eol);
    if !buildable {
        cx.count("not buildable");
        return Ok(());
    }
    let (mut neg, mut chal) = (m_neg(&n), m_chal(&c));
    let key: Option<[u8; 16]> = if g.one_in(6) { None } else { Some(g.array()) };
    let mut before = m_auth(&a);
    // flags out of step with the contents
    if g.one_in(3) {
        let mut twist = |fl: &mut http_ntlm::messages::Flags| {
            if g.bool() {
                fl.0 ^= 1 << g.below(32);
            }
            if g.bool() {
                fl.0 ^= f::VERSION;
            }
        };
        twist(&mut neg.negotiate_flags);
        twist(&mut chal.negotiate_flags);
        twist(&mut before.negotiate_flags);
        cx.count("flags out of step");
    }
    let (n, c) = (o_neg(&neg), o_chal(&chal));
    let what = || format!("{:.300?} {:.300?} {:.600?} key {:?}", n, c, a, key.map(|k| hex(&k)));
    let mut first = None;
    for round in 0..3 {
        let mut m = before.clone();
        if round > 0 {
            // what was there before has no influence
            m.mic = g.array::<16>().into();
        }
        m.exported_session_key = key.map(|k| k.into());
        let mut want = m.clone();
        let r = guard(|| m.compute_mic(&neg, &chal));
        r.map_err(|p| format!("compute_mic panicked: {} [{}]", p.text(), what()))?;
        if let Some(k) = key {
            let mut zeroed = want.clone();
            zeroed.mic = [0; 16].into();
            want.mic = hmac_md5(&k, &[&encode(&neg), &encode(&chal), &encode(&zeroed)]).into();
        }
        if m != want {
            return Err(format!("after compute_mic the message is {:.900?}, must be {:.900?} [{}]", m, want, what()));
        }
        if o_neg(&neg) != n || o_chal(&chal) != c {
            return Err(format!("compute_mic changes another message [{}]", what()));
        }
        if round == 2 && key.is_some() && first.as_ref() != Some(&m.mic) {
            return Err(format!("the MIC depends on the one before [{}]", what()));
        }
        first = Some(m.mic.clone());
    }
    cx.count(if key.is_some() { "MICs of arbitrary messages" } else { "MICs without a key" });
    cx.judged(fnv(&encode(&before)) ^ 26);
    Ok(())
}
