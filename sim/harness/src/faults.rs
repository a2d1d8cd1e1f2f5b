//! The fault injector: what a disk, a cable or a crashed writer does to the
//! durable image. Faults are explicit and replayable; positions are taken
//! modulo the place they aim at, so a minimised image keeps meaningful faults.
use crate::rec::{FieldKind, Image};
use crate::rng::Rng;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Reg {
    All,
    Header,
    Content,
    /// Content in front of the stream.
    Front,
    Net,
    Footer,
    /// The size and checksum words of the header, of the content.
    Words,
    Words2,
    After,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Fault {
    /// Bit rot.
    Flip(Reg, u32),
    /// A burst of at most 32 damaged bits (mask) starting at a bit.
    Burst(Reg, u32, u32),
    /// A block that reads as a constant (lost or zeroed sectors).
    Fill(Reg, u32, u32, u8),
    /// A block of garbage (torn or foreign write).
    Junk(Reg, u32, u32, u64),
    /// A block holding what another place of the file holds (misdirected or
    /// stale write): from, to, length.
    Misdirect(Reg, u32, u32, u32),
    /// Two blocks exchanged (reordered writes).
    Swap(Reg, u32, u32, u32),
    /// Bytes delivered twice.
    Dup(Reg, u32, u32),
    /// Bytes lost in transfer, the rest moves up.
    Drop(Reg, u32, u32),
    /// The file ends early (crash of the writer).
    Trunc(Reg, u32),
    /// Bytes after the end (slack, stale file tail).
    Slack(u32, u64),
    /// The n-th length, count, size or number word overwritten.
    Word(u32, u32),
    /// A word moved by a small amount.
    Nudge(u32, i32),
}

impl Fault {
    pub fn name(&self) -> &'static str {
        match self {
            Fault::Flip(..) => "bit_rot",
            Fault::Burst(..) => "burst",
            Fault::Fill(..) => "lost_block",
            Fault::Junk(..) => "torn_block",
            Fault::Misdirect(..) => "misdirected_write",
            Fault::Swap(..) => "reordered_blocks",
            Fault::Dup(..) => "duplicated_bytes",
            Fault::Drop(..) => "dropped_bytes",
            Fault::Trunc(..) => "short_write",
            Fault::Slack(..) => "trailing_slack",
            Fault::Word(..) => "overwritten_word",
            Fault::Nudge(..) => "nudged_word",
        }
    }
}

/// An image with damage on it; section ranges move with lost and repeated
/// bytes so that the writer's closing step can be replayed over the damage.
#[derive(Clone, Debug)]
pub struct Dmg {
    pub bytes: Vec<u8>,
    pub header: (usize, usize),
    pub content: (usize, usize),
    pub net: (usize, usize),
    pub fields: Vec<(FieldKind, usize)>,
    pub fired: Vec<&'static str>,
}

impl Dmg {
    pub fn new(i: &Image) -> Dmg {
        Dmg { bytes: i.bytes.clone(), header: i.header, content: i.content, net: i.net, fields: i.fields.clone(), fired: vec![] }
    }
    fn reg(&self, r: Reg) -> (usize, usize) {
        let n = self.bytes.len();
        let (a, b) = match r {
            Reg::All => (0, n),
            Reg::Header => self.header,
            Reg::Content => self.content,
            Reg::Front => (self.content.0, self.net.0),
            Reg::Net => self.net,
            Reg::Footer => (self.net.1, self.content.1),
            Reg::Words => (self.header.0.saturating_sub(8), self.header.0),
            Reg::Words2 => (self.content.0.saturating_sub(8), self.content.0),
            Reg::After => (self.content.1, n),
        };
        (a.min(n), b.min(n).max(a.min(n)))
    }
    fn shift(&mut self, at: usize, by: isize, cut: usize) {
        let f = |p: usize| -> usize {
            if p <= at {
                p
            } else if by < 0 {
                p - (p - at).min(cut)
            } else {
                p + by as usize
            }
        };
        self.header = (f(self.header.0), f(self.header.1));
        self.content = (f(self.content.0), f(self.content.1));
        self.net = (f(self.net.0), f(self.net.1));
        for x in &mut self.fields {
            x.1 = f(x.1);
        }
    }
    pub fn apply(&mut self, f: &Fault) {
        let before = self.bytes.len();
        let mut hit = true;
        match *f {
            Fault::Flip(r, at) => hit = self.burst(r, at, 1),
            Fault::Burst(r, at, mask) => hit = self.burst(r, at, mask),
            Fault::Fill(r, at, len, v) => {
                let (s, e) = self.block(r, at, len);
                hit = self.bytes[s..e].iter().any(|&x| x != v);
                self.bytes[s..e].fill(v);
            }
            Fault::Junk(r, at, len, seed) => {
                let (s, e) = self.block(r, at, len);
                let mut g = Rng::new(seed);
                for x in &mut self.bytes[s..e] {
                    *x = g.u64() as u8;
                }
                hit = s < e;
            }
            Fault::Misdirect(r, from, to, len) => {
                let (s, e) = self.block(Reg::All, from, len);
                let src = self.bytes[s..e].to_vec();
                let (t, u) = self.block(r, to, src.len() as u32);
                let n = u - t;
                hit = self.bytes[t..u] != src[..n];
                self.bytes[t..u].copy_from_slice(&src[..n]);
            }
            Fault::Swap(r, a, b, len) => {
                let (s, e) = self.block(r, a, len);
                let (t, u) = self.block(r, b, len);
                let n = (e - s).min(u - t);
                if s + n <= t || t + n <= s {
                    hit = self.bytes[s..s + n] != self.bytes[t..t + n];
                    for i in 0..n {
                        self.bytes.swap(s + i, t + i);
                    }
                } else {
                    hit = false;
                }
            }
            Fault::Dup(r, at, len) => {
                let (s, e) = self.block(r, at, len);
                let v = self.bytes[s..e].to_vec();
                self.bytes.splice(e..e, v);
                self.shift(e.saturating_sub(1), (e - s) as isize, 0);
                hit = s < e;
            }
            Fault::Drop(r, at, len) => {
                let (s, e) = self.block(r, at, len);
                self.bytes.drain(s..e);
                self.shift(s, -1, e - s);
                hit = s < e;
            }
            Fault::Trunc(r, at) => {
                let (s, e) = self.reg(r);
                let p = s + (at as usize % (e - s).max(1));
                self.bytes.truncate(p);
            }
            Fault::Slack(n, seed) => {
                let mut g = Rng::new(seed);
                self.bytes.extend((0..n).map(|_| g.u64() as u8));
            }
            Fault::Word(k, v) => hit = self.word(k, |_| v),
            Fault::Nudge(k, d) => hit = self.word(k, |o| o.wrapping_add(d as u32)),
        }
        if hit || before != self.bytes.len() {
            self.fired.push(f.name());
        }
    }
    fn word(&mut self, k: u32, g: impl Fn(u32) -> u32) -> bool {
        if self.fields.is_empty() {
            return false;
        }
        let p = self.fields[k as usize % self.fields.len()].1;
        if p + 4 > self.bytes.len() {
            return false;
        }
        let o = u32::from_le_bytes(self.bytes[p..p + 4].try_into().unwrap());
        let v = g(o);
        self.bytes[p..p + 4].copy_from_slice(&v.to_le_bytes());
        o != v
    }
    fn block(&self, r: Reg, at: u32, len: u32) -> (usize, usize) {
        let (s, e) = self.reg(r);
        if s == e {
            return (s, s);
        }
        let p = s + at as usize % (e - s);
        (p, (p + len as usize).min(e))
    }
    fn burst(&mut self, r: Reg, at: u32, mask: u32) -> bool {
        let (s, e) = self.reg(r);
        if s == e {
            return false;
        }
        let bit = at as usize % ((e - s) * 8);
        let mut hit = false;
        for k in 0..32 {
            let b = bit + k;
            if mask >> k & 1 != 0 && b < (e - s) * 8 {
                self.bytes[s + b / 8] ^= 1 << (b % 8);
                hit = true;
            }
        }
        hit
    }
    /// The writer closes the file over the damage: sizes, then checksums.
    pub fn refinalize(&mut self) {
        let n = self.bytes.len();
        let (h, c) = (self.header, self.content);
        if self.net.0 >= 4 && self.net.1 <= n && self.net.0 <= self.net.1 {
            // stream size, unless the size word itself is gone
            let p = self.net.0 - 4;
            let v = (self.net.1 - self.net.0) as u32;
            self.bytes[p..p + 4].copy_from_slice(&v.to_le_bytes());
        }
        if h.0 >= 8 && h.1 <= n && c.0 >= h.1 + 8 && c.1 <= n && h.0 <= h.1 && c.0 <= c.1 {
            crate::rec::finalize(&mut self.bytes, h, c);
        }
    }
    /// Checksums only, over the sections as they stand.
    pub fn recrc(&mut self) {
        let n = self.bytes.len();
        for (s, e) in [self.header, self.content] {
            if s >= 8 && e <= n && s <= e {
                let c = crate::crc::fast(&self.bytes[s..e]);
                self.bytes[s - 4..s].copy_from_slice(&c.to_le_bytes());
            }
        }
    }
}

pub fn gen_len(r: &mut Rng) -> u32 {
    match r.below(5) {
        0 => *r.pick(&[1u32, 4, 8, 16, 64, 512, 4096]),
        1 => r.below(512) as u32,
        _ => 1 + r.size(63) as u32,
    }
}

pub fn gen_word(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => *r.pick(&[
            0u32, 1, 2, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_ffff, 0xffff_fffe, 25_000, 25_001, 10_000, 10_001, 24_999,
            (-10_000i32) as u32, (-10_001i32) as u32, (-5000i32) as u32, 0x4000_0000, 0x00ff_ffff,
        ]),
        1 => r.below(300) as u32,
        2 => r.u32(),
        _ => r.edgy(32) as u32,
    }
}

/// Any single fault aimed at `reg`.
pub fn gen_in(r: &mut Rng, reg: Reg) -> Fault {
    let at = r.u32();
    match r.below(12) {
        0 | 1 => Fault::Flip(reg, at),
        2 | 3 => {
            let m = 1 | r.u32() << r.below(31);
            Fault::Burst(reg, at, if r.bool() { m } else { m & 0xff })
        }
        4 => Fault::Fill(reg, at, gen_len(r), *r.pick(&[0u8, 0, 0, 0xff, 0x41])),
        5 => Fault::Junk(reg, at, gen_len(r), r.u64()),
        6 => Fault::Misdirect(reg, r.u32(), at, gen_len(r)),
        7 => Fault::Swap(reg, at, r.u32(), gen_len(r)),
        8 => Fault::Dup(reg, at, gen_len(r)),
        9 => Fault::Drop(reg, at, gen_len(r)),
        10 => Fault::Flip(reg, at & 0xff),
        _ => Fault::Flip(reg, at),
    }
}

pub fn gen_any(r: &mut Rng) -> Fault {
    let reg = *r.pick(&[Reg::All, Reg::Header, Reg::Content, Reg::Front, Reg::Net, Reg::Net, Reg::Footer, Reg::Footer, Reg::Words, Reg::Words2]);
    match r.below(10) {
        0..=2 => Fault::Word(r.u32(), gen_word(r)),
        3 => Fault::Nudge(r.u32(), *r.pick(&[-1, 1, -2, 2, 4, -4, 8, 256, -256, 65536])),
        4 if r.one_in(3) => Fault::Trunc(*r.pick(&[Reg::All, Reg::Header, Reg::Net, Reg::Footer, Reg::Content]), r.u32()),
        5 if r.one_in(3) => Fault::Slack(r.size(600) as u32, r.u64()),
        _ => gen_in(r, reg),
    }
}
