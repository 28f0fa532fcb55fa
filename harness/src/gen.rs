//! Source of all choices a workload makes: a seeded generator, or a tape of bytes (libFuzzer).

use crate::util::{mix, unhex};
use std::sync::OnceLock;

pub struct Gen<'t> {
    state: u64,
    tape: Option<(&'t [u8], usize)>,
}

/// Constants found in the sources under test, so that workloads reach the values they compare with
#[derive(Default)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub strings: Vec<Vec<u8>>,
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict::default();
        if let Ok(path) = std::env::var("NTLM_DICT") {
            if let Ok(text) = std::fs::read_to_string(path) {
                for line in text.lines() {
                    match line.split_once(' ') {
                        Some(("i", v)) => d.ints.extend(v.parse::<u64>()),
                        Some(("s", v)) => d.strings.push(unhex(v)),
                        _ => (),
                    }
                }
            }
        }
        d
    })
}

const LENS: [usize; 48] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 23, 24, 25, 27, 28, 31, 32,
    33, 40, 47, 48, 49, 55, 56, 57, 63, 64, 65, 72, 80, 100, 127, 128, 129, 200, 255, 256,
];
const BIG_LENS: [usize; 26] = [
    257, 300, 511, 512, 513, 777, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192,
    8193, 10000, 16383, 16384, 16385, 32766, 32767, 32768,
];

/// Miri is thousands of times slower: mostly short data
pub fn small(n: usize, g: &mut Gen) -> usize {
    if cfg!(miri) {
        n.min(if g.one_in(16) { 300 } else { 24 })
    } else {
        n
    }
}

impl<'t> Gen<'t> {
    pub fn new(seed: u64) -> Self {
        Gen { state: mix(seed ^ 0x9e3779b97f4a7c15), tape: None }
    }

    #[allow(dead_code)]
    pub fn from_tape(tape: &'t [u8]) -> Self {
        Gen { state: 0x1234567, tape: Some((tape, 0)) }
    }

    pub fn u64(&mut self) -> u64 {
        self.raw(8)
    }

    fn raw(&mut self, bytes: usize) -> u64 {
        if let Some((tape, pos)) = self.tape.as_mut() {
            if *pos < tape.len() {
                let mut v = 0;
                for _ in 0..bytes {
                    v = v << 8 | tape.get(*pos).copied().unwrap_or(0) as u64;
                    *pos += 1;
                }
                return v;
            }
        }
        self.state = self.state.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.state)
    }

    pub fn u8(&mut self) -> u8 {
        self.raw(1) as u8
    }
    pub fn u16(&mut self) -> u16 {
        self.raw(2) as u16
    }
    pub fn u32(&mut self) -> u32 {
        self.raw(4) as u32
    }

    /// Uniform below `n`
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        (if n <= 256 { self.raw(1) & 0xff } else { self.raw(4) & 0xffff_ffff }) as usize % n
    }

    /// True once in `n`
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn bool(&mut self) -> bool {
        self.raw(1) & 1 == 1
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }

    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    pub fn array<const N: usize>(&mut self) -> [u8; N] {
        let mut a = [0; N];
        match self.below(12) {
            0 => (),
            1 => a = [0xff; N],
            2 => a[self.below(N)] = self.u8(),
            _ => a.iter_mut().for_each(|b| *b = self.u8()),
        }
        a
    }

    pub fn dict_int(&mut self) -> Option<u64> {
        let d = dict();
        if d.ints.is_empty() {
            return None;
        }
        let v = d.ints[self.below(d.ints.len())];
        Some(match self.below(6) {
            0 => v.wrapping_add(1),
            1 => v.wrapping_sub(1),
            2 => v.wrapping_mul(2),
            _ => v,
        })
    }

    /// An integer with boundary values more likely
    pub fn int(&mut self, bits: u32) -> u64 {
        let mask = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
        let v = match self.below(10) {
            0 => self.below(4) as u64,
            1 => (1u64 << self.below(bits as usize)).wrapping_sub(self.below(3) as u64).wrapping_add(1),
            2 => mask - self.below(3) as u64,
            3 => self.dict_int().unwrap_or(0),
            4 => self.u8() as u64,
            _ => self.u64(),
        };
        v & mask
    }

    /// A length, mostly small, at most `max`
    pub fn len(&mut self, max: usize) -> usize {
        let v = match self.below(64) {
            0 => self.pick(&BIG_LENS),
            1 => max - self.below(4).min(max),
            2 => self.dict_int().unwrap_or(0).min(70_000) as usize,
            3 => self.below(1 + max.min(2000)),
            4..=9 => self.pick(&LENS),
            _ => self.below(16),
        };
        small(v.min(max), self)
    }

    pub fn char(&mut self, class: usize, nul: bool) -> char {
        let c = match class {
            0 | 1 | 2 => self.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") as char,
            3 => (0x20 + self.below(0x5f)) as u8 as char,
            4 => char::from_u32(self.below(0x100) as u32).unwrap(),
            5 => char::from_u32(0x370 + self.below(0x1c0) as u32).unwrap(), // Greek, Cyrillic
            6 => self.pick(&[
                '\\', '@', '.', '/', ':', ' ', '\t', '\n', '\r', '\u{7f}', '\u{a0}', '\u{feff}', '\u{fffd}', '\u{fffe}',
                '\u{ffff}', '\u{d7ff}', '\u{e000}', '\u{10000}', '\u{10ffff}', 'ÿ', 'µ', 'ſ', 'ı', 'i', 'é', '\u{301}',
                'ß', 'ŉ', '\u{fb01}', '\u{2028}', '\u{200b}', '\u{80}', '\u{ff}', '\u{100}', '\u{7ff}', '\u{800}',
            ]),
            7 => char::from_u32(0x10000 + self.below(0x100000) as u32).unwrap(),
            8 => char::from_u32(0x4e00 + self.below(0x5000) as u32).unwrap(),
            9 => char::from_u32(0x100 + self.below(0x250) as u32).unwrap(), // Latin extended
            10 => char::from_u32(0x1f00 + self.below(0x100) as u32).unwrap_or('a'),
            11 => char::from_u32(((1 + self.below(0xd7)) << 8) as u32).unwrap(), // low byte zero
            _ => char::from_u32(self.u32() % 0x110000).unwrap_or('\u{e000}'),
        };
        if c == '\0' && !nul {
            'x'
        } else {
            c
        }
    }

    /// A text of which the UTF-16 form has at most `max16` bytes and the UTF-8 form `max8`
    pub fn text(&mut self, nul: bool, max16: usize, max8: usize) -> String {
        if self.one_in(24) && !dict().strings.is_empty() {
            let d = dict();
            let raw = &d.strings[self.below(d.strings.len())];
            let mut s = String::from_utf8_lossy(raw).into_owned();
            if self.one_in(4) {
                s.push(self.char(0, nul));
            }
            if !nul {
                s = s.replace('\0', "");
            }
            if s.encode_utf16().count() * 2 <= max16 && s.len() <= max8 {
                return s;
            }
        }
        let n = self.len(max16 / 2);
        let class = self.below(16);
        let mixed = self.one_in(4);
        let repeat = n > 300;
        let mut s = String::new();
        let (mut l16, mut l8) = (0, 0);
        let unit: Vec<char> = (0..if repeat { 1 + self.below(5) } else { 0 }).map(|_| self.char(class, nul)).collect();
        for i in 0..n {
            let class = if mixed { self.below(16) } else { class };
            let c = if repeat && i + 3 < n { unit[i % unit.len()] } else { self.char(class, nul) };
            l16 += 2 * c.len_utf16();
            l8 += c.len_utf8();
            if l16 > max16.min(2 * n) || l8 > max8 {
                break;
            }
            s.push(c);
        }
        s
    }
}
