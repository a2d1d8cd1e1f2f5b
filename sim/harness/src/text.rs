//! Text as the game records it: windows-1252 or UTF-16, NUL terminated.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};

pub static HIGH: [char; 32] = [
    '\u{20AC}', '\u{81}', '\u{201A}', '\u{192}', '\u{201E}', '\u{2026}', '\u{2020}', '\u{2021}', '\u{2C6}', '\u{2030}', '\u{160}',
    '\u{2039}', '\u{152}', '\u{8D}', '\u{17D}', '\u{8F}', '\u{90}', '\u{2018}', '\u{2019}', '\u{201C}', '\u{201D}', '\u{2022}',
    '\u{2013}', '\u{2014}', '\u{2DC}', '\u{2122}', '\u{161}', '\u{203A}', '\u{153}', '\u{9D}', '\u{17E}', '\u{178}',
];

pub fn c1252(b: u8) -> char {
    if (0x80..0xa0).contains(&b) {
        HIGH[b as usize - 0x80]
    } else {
        b as char
    }
}
pub fn to1252(c: char) -> Option<u8> {
    if let Some(i) = HIGH.iter().position(|&h| h == c) {
        return Some(0x80 + i as u8);
    }
    let v = c as u32;
    if v < 0x80 || (0xa0..0x100).contains(&v) {
        Some(v as u8)
    } else {
        None
    }
}
pub fn dec1252(b: &[u8]) -> String {
    b.iter().map(|&x| c1252(x)).collect()
}
pub fn dec_utf16(b: &[u8]) -> String {
    let odd = b.len() % 2 != 0;
    let u: Vec<u16> = b.chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
    let mut s: String = char::decode_utf16(u).map(|r| r.unwrap_or('\u{FFFD}')).collect();
    if odd {
        s.push('\u{FFFD}');
    }
    s
}

/// `w`: recorded as UTF-16 (also chosen automatically when 1252 cannot hold
/// the text). `z`: an empty text recorded as length zero instead of one NUL.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Txt {
    pub s: String,
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub w: bool,
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub z: bool,
}

impl From<&str> for Txt {
    fn from(s: &str) -> Txt {
        Txt { s: s.into(), w: false, z: false }
    }
}

impl Txt {
    /// (length field, bytes)
    pub fn encode(&self) -> (i32, Vec<u8>) {
        if self.s.is_empty() && self.z {
            return (0, vec![]);
        }
        let narrow: Option<Vec<u8>> = if self.w { None } else { self.s.chars().map(to1252).collect() };
        match narrow {
            Some(mut b) => {
                b.push(0);
                (b.len() as i32, b)
            }
            None => {
                let mut b: Vec<u8> = vec![];
                let mut n = 0;
                for u in self.s.encode_utf16().chain(Some(0)) {
                    b.extend_from_slice(&u.to_le_bytes());
                    n += 1;
                }
                (-n, b)
            }
        }
    }
    /// Size in units of the length field.
    pub fn units(&self) -> usize {
        self.encode().0.unsigned_abs() as usize
    }
    pub fn put(&self, out: &mut Vec<u8>) {
        let (n, b) = self.encode();
        out.extend_from_slice(&n.to_le_bytes());
        out.extend_from_slice(&b);
    }
    pub fn gen(r: &mut Rng, max_units: usize) -> Txt {
        let kind = r.below(12);
        let maxc = max_units.saturating_sub(1);
        let n = match r.below(120) {
            0..=2 => maxc,
            3 => maxc.saturating_sub(1 + r.below(2)),
            // around the sizes buffers have
            4 => ((1usize << (5 + r.below(6))) + r.below(5)).saturating_sub(3).min(maxc),
            _ => r.size(maxc.min(60)),
        };
        let mut s = String::new();
        match kind {
            0 => return Txt { s, w: r.bool(), z: false },
            1 => return Txt { s, w: false, z: true },
            2..=6 => {
                for _ in 0..n {
                    s.push((b' ' + r.below(95) as u8) as char);
                }
            }
            7 | 8 => {
                for _ in 0..n {
                    s.push(c1252(r.below(255) as u8 + 1));
                }
            }
            9 => {
                // wide text, possibly with a byte order mark or astral chars
                let mut units = 0;
                if r.one_in(3) && n > 0 {
                    s.push('\u{FEFF}');
                    units += 1;
                }
                while units < n {
                    let c = match r.below(5) {
                        0 => char::from_u32(0x1F600 + r.below(60) as u32).unwrap(),
                        1 => char::from_u32(0x4E00 + r.below(5000) as u32).unwrap(),
                        2 => char::from_u32(1 + r.below(0xD7FF) as u32).unwrap(),
                        3 => *r.pick(&['\u{FFFD}', '\u{FFFF}', '\u{2603}', '\u{E000}', '\u{80}', '\u{9f}']),
                        _ => (b'a' + r.below(26) as u8) as char,
                    };
                    if units + c.len_utf16() > n {
                        break;
                    }
                    units += c.len_utf16();
                    s.push(c);
                }
                return Txt { s, w: true, z: false };
            }
            10 => {
                let t = ["\"\\/\u{8}\u{c}\n\r\t", "\u{1}\u{1f}\u{7f}", "ï»¿x", "None", "</script>", "\u{2028}", "a\u{0}b", "é"];
                s = r.pick(&t).chars().take(maxc).collect();
            }
            _ => {
                s = "Player ".to_string();
                s.push_str(&r.below(1000).to_string());
                s = s.chars().take(maxc).collect();
            }
        }
        let w = r.one_in(5);
        let mut t = Txt { s, w, z: false };
        while t.units() > max_units.max(1) {
            t.s.pop();
        }
        t
    }
}

#[cfg(test)]
mod t {}
