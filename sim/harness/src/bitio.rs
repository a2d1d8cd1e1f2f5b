//! Bit-level writer (the recorder's pen) and a slow, obvious bit reader (the
//! reference decoder's eye). Least significant bit first.
#[derive(Clone, Default, Debug)]
pub struct BitW {
    pub bytes: Vec<u8>,
    pub len: usize,
}

impl BitW {
    pub fn new() -> BitW {
        BitW::default()
    }
    pub fn bit(&mut self, b: bool) {
        if self.len % 8 == 0 {
            self.bytes.push(0);
        }
        if b {
            *self.bytes.last_mut().unwrap() |= 1 << (self.len % 8);
        }
        self.len += 1;
    }
    pub fn bits(&mut self, v: u64, n: u32) {
        for i in 0..n {
            self.bit(v >> i & 1 != 0);
        }
    }
    pub fn raw(&mut self, b: &[u8]) {
        for &x in b {
            self.bits(x as u64, 8);
        }
    }
    pub fn u8(&mut self, v: u8) {
        self.bits(v as u64, 8)
    }
    pub fn u32(&mut self, v: u32) {
        self.bits(v as u64, 32)
    }
    pub fn i32(&mut self, v: i32) {
        self.bits(v as u32 as u64, 32)
    }
    pub fn u64(&mut self, v: u64) {
        self.bits(v, 64)
    }
    pub fn f32(&mut self, v: f32) {
        self.bits(v.to_bits() as u64, 32)
    }
    /// The game's compressed integer below `max`: bits are written from the
    /// least significant while they could still matter.
    pub fn max(&mut self, v: u64, max: u64) {
        let n = width(max).max(1) - 1;
        self.bits(v, n);
        let low = v & ((1u64 << n) - 1);
        if low + (1 << n) < max {
            self.bit(v >> n & 1 != 0);
        }
    }
    pub fn append(&mut self, o: &BitW) {
        for i in 0..o.len {
            self.bit(o.bytes[i / 8] >> (i % 8) & 1 != 0);
        }
    }
}

pub fn width(v: u64) -> u32 {
    64 - v.leading_zeros()
}

/// Can `v` be written with `max` at all?
pub fn fits_max(v: u64, max: u64) -> bool {
    if max <= 1 {
        return v == 0;
    }
    let n = width(max) - 1;
    v < max || v < (1 << n)
}

#[derive(Clone, Debug)]
pub struct BitR<'a> {
    pub data: &'a [u8],
    pub pos: usize,
}

impl<'a> BitR<'a> {
    pub fn new(data: &'a [u8]) -> BitR<'a> {
        BitR { data, pos: 0 }
    }
    pub fn left(&self) -> usize {
        self.data.len() * 8 - self.pos
    }
    pub fn bit(&mut self) -> Option<bool> {
        if self.left() == 0 {
            return None;
        }
        let b = self.data[self.pos / 8] >> (self.pos % 8) & 1 != 0;
        self.pos += 1;
        Some(b)
    }
    pub fn bits(&mut self, n: u32) -> Option<u64> {
        if self.left() < n as usize {
            return None;
        }
        let mut v = 0u64;
        for i in 0..n {
            v |= (self.bit()? as u64) << i;
        }
        Some(v)
    }
    pub fn u8(&mut self) -> Option<u8> {
        self.bits(8).map(|x| x as u8)
    }
    pub fn u32(&mut self) -> Option<u32> {
        self.bits(32).map(|x| x as u32)
    }
    pub fn i32(&mut self) -> Option<i32> {
        self.bits(32).map(|x| x as u32 as i32)
    }
    pub fn u64(&mut self) -> Option<u64> {
        self.bits(64)
    }
    pub fn f32(&mut self) -> Option<f32> {
        self.u32().map(f32::from_bits)
    }
    pub fn raw(&mut self, n: usize) -> Option<Vec<u8>> {
        if self.left() < n * 8 {
            return None;
        }
        (0..n).map(|_| self.u8()).collect()
    }
    pub fn max(&mut self, max: u64) -> Option<u64> {
        let n = width(max).max(1) - 1;
        let v = self.bits(n)?;
        let up = v + (1 << n);
        if up >= max {
            Some(v)
        } else if self.bit()? {
            Some(up)
        } else {
            Some(v)
        }
    }
}
