//! Independent implementations of the primitives of MS-NLMP, written from RFC 1320, RFC 1321,
//! RFC 2104, FIPS 46 and the RC4 description. They share no code with http-ntlm or its dependencies.

pub fn md4(data: &[u8]) -> [u8; 16] {
    let mut s = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476];
    for block in pad(data).chunks(64) {
        let x = words(block);
        let [mut a, mut b, mut c, mut d] = s;
        for i in 0..16 {
            let f = (b & c) | (!b & d);
            let t = a.wrapping_add(f).wrapping_add(x[i]).rotate_left([3, 7, 11, 19][i % 4]);
            (a, d, c, b) = (d, c, b, t);
        }
        for i in 0..16 {
            let f = (b & c) | (b & d) | (c & d);
            let t = a.wrapping_add(f).wrapping_add(x[(i % 4) * 4 + i / 4]).wrapping_add(0x5a827999)
                .rotate_left([3, 5, 9, 13][i % 4]);
            (a, d, c, b) = (d, c, b, t);
        }
        const O: [usize; 16] = [0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15];
        for i in 0..16 {
            let f = b ^ c ^ d;
            let t = a.wrapping_add(f).wrapping_add(x[O[i]]).wrapping_add(0x6ed9eba1)
                .rotate_left([3, 9, 11, 15][i % 4]);
            (a, d, c, b) = (d, c, b, t);
        }
        for (s, v) in s.iter_mut().zip([a, b, c, d]) {
            *s = s.wrapping_add(v);
        }
    }
    out(s)
}

pub fn md5(data: &[u8]) -> [u8; 16] {
    const R: [[u32; 4]; 4] = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]];
    use std::sync::OnceLock;
    static K: OnceLock<[u32; 64]> = OnceLock::new();
    let k = K.get_or_init(|| {
        let mut k = [0; 64];
        for (i, k) in k.iter_mut().enumerate() {
            *k = (((i + 1) as f64).sin().abs() * 4294967296.0) as u32;
        }
        k
    });
    let mut s = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476];
    for block in pad(data).chunks(64) {
        let x = words(block);
        let [mut a, mut b, mut c, mut d] = s;
        for i in 0..64 {
            let (f, g) = match i / 16 {
                0 => ((b & c) | (!b & d), i),
                1 => ((d & b) | (!d & c), (5 * i + 1) % 16),
                2 => (b ^ c ^ d, (3 * i + 5) % 16),
                _ => (c ^ (b | !d), (7 * i) % 16),
            };
            let t = b.wrapping_add(
                a.wrapping_add(f).wrapping_add(k[i]).wrapping_add(x[g]).rotate_left(R[i / 16][i % 4]),
            );
            (a, d, c, b) = (d, c, b, t);
        }
        for (s, v) in s.iter_mut().zip([a, b, c, d]) {
            *s = s.wrapping_add(v);
        }
    }
    out(s)
}

fn pad(data: &[u8]) -> Vec<u8> {
    let mut v = data.to_vec();
    v.push(0x80);
    while v.len() % 64 != 56 {
        v.push(0);
    }
    v.extend_from_slice(&((data.len() as u64) * 8).to_le_bytes());
    v
}

fn words(block: &[u8]) -> [u32; 16] {
    let mut x = [0; 16];
    for (x, c) in x.iter_mut().zip(block.chunks(4)) {
        *x = u32::from_le_bytes([c[0], c[1], c[2], c[3]]);
    }
    x
}

fn out(s: [u32; 4]) -> [u8; 16] {
    let mut o = [0; 16];
    for (o, s) in o.chunks_mut(4).zip(s) {
        o.copy_from_slice(&s.to_le_bytes());
    }
    o
}

pub fn hmac_md5(key: &[u8], data: &[&[u8]]) -> [u8; 16] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..16].copy_from_slice(&md5(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut inner: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    for d in data {
        inner.extend_from_slice(d);
    }
    let mut outer: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    outer.extend_from_slice(&md5(&inner));
    md5(&outer)
}

pub fn rc4(key: &[u8], data: &[u8]) -> Vec<u8> {
    let mut s: Vec<u8> = (0..=255).collect();
    let mut j = 0usize;
    for i in 0..256 {
        j = (j + s[i] as usize + key[i % key.len()] as usize) & 255;
        s.swap(i, j);
    }
    let (mut i, mut j) = (0usize, 0usize);
    data.iter()
        .map(|b| {
            i = (i + 1) & 255;
            j = (j + s[i] as usize) & 255;
            s.swap(i, j);
            b ^ s[(s[i] as usize + s[j] as usize) & 255]
        })
        .collect()
}

// FIPS 46-3, bit 1 is the most significant
const IP: [u8; 64] = [
    58, 50, 42, 34, 26, 18, 10, 2, 60, 52, 44, 36, 28, 20, 12, 4, 62, 54, 46, 38, 30, 22, 14, 6, 64, 56,
    48, 40, 32, 24, 16, 8, 57, 49, 41, 33, 25, 17, 9, 1, 59, 51, 43, 35, 27, 19, 11, 3, 61, 53, 45, 37,
    29, 21, 13, 5, 63, 55, 47, 39, 31, 23, 15, 7,
];
const FP: [u8; 64] = [
    40, 8, 48, 16, 56, 24, 64, 32, 39, 7, 47, 15, 55, 23, 63, 31, 38, 6, 46, 14, 54, 22, 62, 30, 37, 5,
    45, 13, 53, 21, 61, 29, 36, 4, 44, 12, 52, 20, 60, 28, 35, 3, 43, 11, 51, 19, 59, 27, 34, 2, 42, 10,
    50, 18, 58, 26, 33, 1, 41, 9, 49, 17, 57, 25,
];
const E: [u8; 48] = [
    32, 1, 2, 3, 4, 5, 4, 5, 6, 7, 8, 9, 8, 9, 10, 11, 12, 13, 12, 13, 14, 15, 16, 17, 16, 17, 18, 19,
    20, 21, 20, 21, 22, 23, 24, 25, 24, 25, 26, 27, 28, 29, 28, 29, 30, 31, 32, 1,
];
const P: [u8; 32] = [
    16, 7, 20, 21, 29, 12, 28, 17, 1, 15, 23, 26, 5, 18, 31, 10, 2, 8, 24, 14, 32, 27, 3, 9, 19, 13, 30,
    6, 22, 11, 4, 25,
];
const PC1: [u8; 56] = [
    57, 49, 41, 33, 25, 17, 9, 1, 58, 50, 42, 34, 26, 18, 10, 2, 59, 51, 43, 35, 27, 19, 11, 3, 60, 52,
    44, 36, 63, 55, 47, 39, 31, 23, 15, 7, 62, 54, 46, 38, 30, 22, 14, 6, 61, 53, 45, 37, 29, 21, 13, 5,
    28, 20, 12, 4,
];
const PC2: [u8; 48] = [
    14, 17, 11, 24, 1, 5, 3, 28, 15, 6, 21, 10, 23, 19, 12, 4, 26, 8, 16, 7, 27, 20, 13, 2, 41, 52, 31,
    37, 47, 55, 30, 40, 51, 45, 33, 48, 44, 49, 39, 56, 34, 53, 46, 42, 50, 36, 29, 32,
];
const SHIFTS: [u8; 16] = [1, 1, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 1];
const SBOX: [[u8; 64]; 8] = [
    [14, 4, 13, 1, 2, 15, 11, 8, 3, 10, 6, 12, 5, 9, 0, 7, 0, 15, 7, 4, 14, 2, 13, 1, 10, 6, 12, 11, 9, 5, 3, 8, 4, 1, 14, 8, 13, 6, 2, 11, 15, 12, 9, 7, 3, 10, 5, 0, 15, 12, 8, 2, 4, 9, 1, 7, 5, 11, 3, 14, 10, 0, 6, 13],
    [15, 1, 8, 14, 6, 11, 3, 4, 9, 7, 2, 13, 12, 0, 5, 10, 3, 13, 4, 7, 15, 2, 8, 14, 12, 0, 1, 10, 6, 9, 11, 5, 0, 14, 7, 11, 10, 4, 13, 1, 5, 8, 12, 6, 9, 3, 2, 15, 13, 8, 10, 1, 3, 15, 4, 2, 11, 6, 7, 12, 0, 5, 14, 9],
    [10, 0, 9, 14, 6, 3, 15, 5, 1, 13, 12, 7, 11, 4, 2, 8, 13, 7, 0, 9, 3, 4, 6, 10, 2, 8, 5, 14, 12, 11, 15, 1, 13, 6, 4, 9, 8, 15, 3, 0, 11, 1, 2, 12, 5, 10, 14, 7, 1, 10, 13, 0, 6, 9, 8, 7, 4, 15, 14, 3, 11, 5, 2, 12],
    [7, 13, 14, 3, 0, 6, 9, 10, 1, 2, 8, 5, 11, 12, 4, 15, 13, 8, 11, 5, 6, 15, 0, 3, 4, 7, 2, 12, 1, 10, 14, 9, 10, 6, 9, 0, 12, 11, 7, 13, 15, 1, 3, 14, 5, 2, 8, 4, 3, 15, 0, 6, 10, 1, 13, 8, 9, 4, 5, 11, 12, 7, 2, 14],
    [2, 12, 4, 1, 7, 10, 11, 6, 8, 5, 3, 15, 13, 0, 14, 9, 14, 11, 2, 12, 4, 7, 13, 1, 5, 0, 15, 10, 3, 9, 8, 6, 4, 2, 1, 11, 10, 13, 7, 8, 15, 9, 12, 5, 6, 3, 0, 14, 11, 8, 12, 7, 1, 14, 2, 13, 6, 15, 0, 9, 10, 4, 5, 3],
    [12, 1, 10, 15, 9, 2, 6, 8, 0, 13, 3, 4, 14, 7, 5, 11, 10, 15, 4, 2, 7, 12, 9, 5, 6, 1, 13, 14, 0, 11, 3, 8, 9, 14, 15, 5, 2, 8, 12, 3, 7, 0, 4, 10, 1, 13, 11, 6, 4, 3, 2, 12, 9, 5, 15, 10, 11, 14, 1, 7, 6, 0, 8, 13],
    [4, 11, 2, 14, 15, 0, 8, 13, 3, 12, 9, 7, 5, 10, 6, 1, 13, 0, 11, 7, 4, 9, 1, 10, 14, 3, 5, 12, 2, 15, 8, 6, 1, 4, 11, 13, 12, 3, 7, 14, 10, 15, 6, 8, 0, 5, 9, 2, 6, 11, 13, 8, 1, 4, 10, 7, 9, 5, 0, 15, 14, 2, 3, 12],
    [13, 2, 8, 4, 6, 15, 11, 1, 10, 9, 3, 14, 5, 0, 12, 7, 1, 15, 13, 8, 10, 3, 7, 4, 12, 5, 6, 11, 0, 14, 9, 2, 7, 11, 4, 1, 9, 12, 14, 2, 0, 6, 10, 13, 15, 3, 5, 8, 2, 1, 14, 7, 4, 10, 8, 13, 15, 12, 9, 0, 3, 5, 6, 11],
];

fn permute(v: u64, width: u32, table: &[u8]) -> u64 {
    table.iter().fold(0, |acc, &bit| (acc << 1) | (v >> (width - bit as u32)) & 1)
}

/// DES with an 8 byte key, whose parity bits are ignored
pub fn des(key: &[u8; 8], block: &[u8; 8]) -> [u8; 8] {
    let k = permute(u64::from_be_bytes(*key), 64, &PC1);
    let (mut c, mut d) = ((k >> 28) & 0xfff_ffff, k & 0xfff_ffff);
    let v = permute(u64::from_be_bytes(*block), 64, &IP);
    let (mut l, mut r) = (v >> 32, v & 0xffff_ffff);
    for s in SHIFTS {
        for _ in 0..s {
            c = ((c << 1) | (c >> 27)) & 0xfff_ffff;
            d = ((d << 1) | (d >> 27)) & 0xfff_ffff;
        }
        let x = permute(r, 32, &E) ^ permute((c << 28) | d, 56, &PC2);
        let mut f = 0;
        for (i, sbox) in SBOX.iter().enumerate() {
            let six = (x >> (42 - 6 * i)) & 63;
            let row = ((six >> 4) & 2) | (six & 1);
            let col = (six >> 1) & 15;
            f = (f << 4) | sbox[(row * 16 + col) as usize] as u64;
        }
        (l, r) = (r, l ^ permute(f, 32, &P));
    }
    permute((r << 32) | l, 64, &FP).to_be_bytes()
}

/// DES with a 7 byte key, spread over 8 bytes of which the low bit is unused
pub fn des7(key: &[u8], block: &[u8; 8]) -> [u8; 8] {
    assert_eq!(key.len(), 7);
    let bits = key.iter().fold(0u64, |a, b| (a << 8) | *b as u64);
    let mut k = [0; 8];
    for (i, k) in k.iter_mut().enumerate() {
        *k = (((bits >> (49 - 7 * i)) & 0x7f) << 1) as u8;
    }
    des(&k, block)
}

pub fn desl(key: &[u8; 16], data: &[u8; 8]) -> [u8; 24] {
    let mut k = [0u8; 21];
    k[..16].copy_from_slice(key);
    let mut o = [0; 24];
    for i in 0..3 {
        o[i * 8..][..8].copy_from_slice(&des7(&k[i * 7..][..7], data));
    }
    o
}

pub fn utf16(s: &str) -> Vec<u8> {
    s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect()
}

pub fn nt_hash(password: &str) -> [u8; 16] {
    md4(&utf16(password))
}

/// Upper case where no character becomes several
pub fn upper_simple(s: &str) -> String {
    s.chars()
        .map(|c| {
            let mut u = c.to_uppercase();
            match (u.next(), u.next()) {
                (Some(u), None) => u,
                _ => c,
            }
        })
        .collect()
}

fn distinct<T: PartialEq>(v: Vec<T>) -> Vec<T> {
    let mut out = Vec::new();
    for x in v {
        if !out.contains(&x) {
            out.push(x);
        }
    }
    out
}

/// The LM hash. MS-NLMP leaves open how characters outside of ASCII are upper-cased and encoded:
/// one hash per reading
pub fn lm_hashes(password: &str) -> Vec<[u8; 16]> {
    // the hash is of 14 bytes
    let start: String = password.chars().take(15).collect();
    let full = start.to_uppercase();
    let simple = upper_simple(&start);
    let mut texts = vec![full.as_bytes().to_vec(), simple.as_bytes().to_vec()];
    if simple.chars().all(|c| (c as u32) < 0x100) {
        texts.push(simple.chars().map(|c| c as u8).collect());
    }
    let hash = |text: Vec<u8>| {
        let mut p = text;
        p.resize(14, 0);
        let mut h = [0; 16];
        h[..8].copy_from_slice(&des7(&p[..7], b"KGS!@#$%"));
        h[8..].copy_from_slice(&des7(&p[7..], b"KGS!@#$%"));
        h
    };
    distinct(texts).into_iter().map(hash).collect()
}

/// The NTLMv2 hash, one per reading of "upper case"
pub fn ntlmv2_hashes(user: &str, nt_hash: &[u8; 16], domain: &str) -> Vec<[u8; 16]> {
    distinct(vec![user.to_uppercase(), upper_simple(user)])
        .into_iter()
        .map(|u| hmac_md5(nt_hash, &[&utf16(&u), &utf16(domain)]))
        .collect()
}

/// Known answers of the RFCs, FIPS and MS-NLMP 4.2: a wrong oracle must not run
pub fn self_test() {
    let hex = |b: &[u8]| crate::util::hex(b);
    assert_eq!(hex(&md4(b"")), "31d6cfe0d16ae931b73c59d7e0c089c0");
    assert_eq!(hex(&md4(b"message digest")), "d9130a8164549fe818874806e1c7014b");
    assert_eq!(
        hex(&md4(b"12345678901234567890123456789012345678901234567890123456789012345678901234567890")),
        "e33b4ddc9c38f2199c3e7b164fcc0536"
    );
    assert_eq!(hex(&md5(b"")), "d41d8cd98f00b204e9800998ecf8427e");
    assert_eq!(
        hex(&md5(b"12345678901234567890123456789012345678901234567890123456789012345678901234567890")),
        "57edf4a22be3c955ac49da2e2107b67a"
    );
    assert_eq!(hex(&hmac_md5(&[0x0b; 16], &[b"Hi There"])), "9294727a3638bb1c13f48ef8158bfc9d");
    assert_eq!(
        hex(&hmac_md5(&[0xaa; 80], &[b"Test Using Larger Than Block-Size Key - Hash Key First"])),
        "6b1ab7fe4bd7bf8f0b62e6ce61b9d0cd"
    );
    assert_eq!(hex(&rc4(b"Key", b"Plaintext")), "bbf316e8d940af0ad3");
    assert_eq!(hex(&des(&0x133457799BBCDFF1u64.to_be_bytes(), &0x0123456789ABCDEFu64.to_be_bytes())), "85e813540f0ab405");
    // MS-NLMP 4.2.1, 4.2.2, 4.2.3, 4.2.4
    let sc = [0x01, 0x23, 0x45, 0x67, 0x89, 0xab, 0xcd, 0xef];
    let lm = lm_hashes("Password")[0];
    let nt = nt_hash("Password");
    assert_eq!(hex(&lm), "e52cac67419a9a224a3b108f3fa6cb6d");
    assert_eq!(hex(&nt), "a4f49c406510bdcab6824ee7c30fd852");
    assert_eq!(hex(&ntlmv2_hashes("User", &nt, "Domain")[0]), "0c868a403bfd7a93a3001ef22ef02e3f");
    assert_eq!(hex(&desl(&nt, &sc)), "67c43011f30298a2ad35ece64f16331c44bdbed927841f94");
    assert_eq!(hex(&desl(&lm, &sc)), "98def7b87f88aa5dafe2df779688a172def11c7d5ccdef13");
    assert_eq!(
        hex(&hmac_md5(&ntlmv2_hashes("User", &nt, "Domain")[0], &[&sc, &[0xaa; 8]])),
        "86c35097ac9cec102554764a57cccc19"
    );
}
