// A small replay writer for demonstrations.
#![allow(dead_code)]
pub struct Bits(pub Vec<u8>, pub usize);
impl Bits {
    pub fn new() -> Bits {
        Bits(vec![], 0)
    }
    pub fn put(&mut self, v: u64, n: u32) -> &mut Self {
        for i in 0..n {
            if self.1 % 8 == 0 {
                self.0.push(0);
            }
            if v >> i & 1 == 1 {
                *self.0.last_mut().unwrap() |= 1 << (self.1 % 8);
            }
            self.1 += 1;
        }
        self
    }
    pub fn bit(&mut self, b: bool) -> &mut Self {
        self.put(b as u64, 1)
    }
    pub fn u8(&mut self, v: u8) -> &mut Self {
        self.put(v as u64, 8)
    }
    pub fn u32(&mut self, v: u32) -> &mut Self {
        self.put(v as u64, 32)
    }
    pub fn i32(&mut self, v: i32) -> &mut Self {
        self.put(v as u32 as u64, 32)
    }
    pub fn u64(&mut self, v: u64) -> &mut Self {
        self.put(v, 64)
    }
    pub fn f32(&mut self, v: f32) -> &mut Self {
        self.u32(v.to_bits())
    }
    pub fn bytes(&mut self, b: &[u8]) -> &mut Self {
        for &x in b {
            self.u8(x);
        }
        self
    }
    pub fn text(&mut self, s: &str) -> &mut Self {
        self.i32(s.len() as i32 + 1);
        self.bytes(s.as_bytes());
        self.u8(0)
    }
    /// A number below `max` the way the game compresses it.
    pub fn max(&mut self, v: u64, max: u64) -> &mut Self {
        let w = (64 - max.leading_zeros()).max(1) - 1;
        let low = v & ((1 << w) - 1);
        self.put(low, w);
        if low + (1 << w) < max {
            self.put(v >> w & 1, 1);
        }
        self
    }
    pub fn vec(&mut self, x: i32, y: i32, z: i32, net: i32) -> &mut Self {
        let mut size = 0;
        while [x, y, z].iter().any(|c| !(-(2i64 << size)..(2i64 << size)).contains(&(*c as i64))) {
            size += 1;
        }
        self.max(size, if net >= 7 { 22 } else { 20 });
        for c in [x, y, z] {
            self.put((c as i64 + (2 << size)) as u64, size as u32 + 2);
        }
        self
    }
    pub fn frame(&mut self, t: f32, d: f32) -> &mut Self {
        self.f32(t).f32(d)
    }
}

pub fn put_str(b: &mut Vec<u8>, s: &str) {
    b.extend(((s.len() + 1) as i32).to_le_bytes());
    b.extend(s.as_bytes());
    b.push(0);
}
pub fn put_utf16(b: &mut Vec<u8>, s: &str) {
    let u: Vec<u16> = s.encode_utf16().collect();
    b.extend((-(u.len() as i32 + 1)).to_le_bytes());
    for x in u {
        b.extend(x.to_le_bytes());
    }
    b.extend([0, 0]);
}
/// ASCII as windows-1252, anything else as UTF-16.
pub fn put_text(b: &mut Vec<u8>, s: &str) {
    if s.is_ascii() {
        put_str(b, s)
    } else {
        put_utf16(b, s)
    }
}
pub fn prop(b: &mut Vec<u8>, key: &str, kind: &str, payload: &[u8]) {
    put_str(b, key);
    put_str(b, kind);
    b.extend((payload.len() as u64).to_le_bytes());
    b.extend(payload);
}
pub fn int_prop(b: &mut Vec<u8>, key: &str, v: i32) {
    prop(b, key, "IntProperty", &v.to_le_bytes())
}
pub fn str_prop(b: &mut Vec<u8>, key: &str, v: &str) {
    let mut p = vec![];
    put_text(&mut p, v);
    prop(b, key, "StrProperty", &p)
}

pub struct Mk {
    pub ver: (i32, i32, i32),
    /// Encoded properties, without the final None.
    pub props: Vec<u8>,
    pub levels: Vec<String>,
    pub keys: Vec<(f32, i32, i32)>,
    pub debug: Vec<(i32, String, String)>,
    pub ticks: Vec<(String, i32)>,
    pub packages: Vec<String>,
    pub objects: Vec<String>,
    pub names: Vec<String>,
    pub classes: Vec<(String, i32)>,
    /// object index, parent id, cache id, (object index, stream id)
    pub cache: Vec<(i32, i32, i32, Vec<(i32, i32)>)>,
    pub net: Vec<u8>,
}
impl Default for Mk {
    fn default() -> Mk {
        let mut props = vec![];
        int_prop(&mut props, "TeamSize", 3);
        Mk {
            ver: (868, 32, 10),
            props,
            levels: vec!["stadium_p".into()],
            keys: vec![(1.5, 1, 100)],
            debug: vec![],
            ticks: vec![("Team0Goal".into(), 7)],
            packages: vec![],
            objects: vec![],
            names: vec!["a".into()],
            classes: vec![],
            cache: vec![],
            net: vec![],
        }
    }
}
impl Mk {
    pub fn objects(mut self, o: &[&str]) -> Mk {
        self.objects = o.iter().map(|x| x.to_string()).collect();
        self
    }
    pub fn cache(mut self, o: i32, props: &[(i32, i32)]) -> Mk {
        let n = self.cache.len() as i32;
        self.cache.push((o, n, n + 1, props.to_vec()));
        self
    }
    pub fn int(mut self, k: &str, v: i32) -> Mk {
        int_prop(&mut self.props, k, v);
        self
    }
    pub fn str(mut self, k: &str, v: &str) -> Mk {
        str_prop(&mut self.props, k, v);
        self
    }
    pub fn net(mut self, frames: i32, b: &Bits) -> Mk {
        int_prop(&mut self.props, "NumFrames", frames);
        self.net = b.0.clone();
        self
    }
    pub fn header(&self) -> Vec<u8> {
        let mut h = vec![];
        h.extend(self.ver.0.to_le_bytes());
        h.extend(self.ver.1.to_le_bytes());
        if self.ver.0 > 865 && self.ver.1 > 17 {
            h.extend(self.ver.2.to_le_bytes());
        }
        put_str(&mut h, "TAGame.Replay_Soccar_TA");
        h.extend(&self.props);
        put_str(&mut h, "None");
        h
    }
    pub fn body(&self) -> Vec<u8> {
        let mut b = vec![];
        let n = |b: &mut Vec<u8>, x: usize| b.extend((x as i32).to_le_bytes());
        let list = |b: &mut Vec<u8>, l: &[String]| {
            b.extend((l.len() as i32).to_le_bytes());
            for x in l {
                put_text(b, x);
            }
        };
        list(&mut b, &self.levels);
        n(&mut b, self.keys.len());
        for k in &self.keys {
            b.extend(k.0.to_le_bytes());
            b.extend(k.1.to_le_bytes());
            b.extend(k.2.to_le_bytes());
        }
        n(&mut b, self.net.len());
        b.extend(&self.net);
        n(&mut b, self.debug.len());
        for d in &self.debug {
            b.extend(d.0.to_le_bytes());
            put_text(&mut b, &d.1);
            put_text(&mut b, &d.2);
        }
        n(&mut b, self.ticks.len());
        for d in &self.ticks {
            put_text(&mut b, &d.0);
            b.extend(d.1.to_le_bytes());
        }
        list(&mut b, &self.packages);
        list(&mut b, &self.objects);
        list(&mut b, &self.names);
        n(&mut b, self.classes.len());
        for d in &self.classes {
            put_str(&mut b, &d.0);
            b.extend(d.1.to_le_bytes());
        }
        n(&mut b, self.cache.len());
        for c in &self.cache {
            for x in [c.0, c.1, c.2, c.3.len() as i32] {
                b.extend(x.to_le_bytes());
            }
            for p in &c.3 {
                b.extend(p.0.to_le_bytes());
                b.extend(p.1.to_le_bytes());
            }
        }
        b
    }
    pub fn file(&self) -> Vec<u8> {
        close(&self.header(), &self.body())
    }
}
pub fn close(h: &[u8], b: &[u8]) -> Vec<u8> {
    let mut f = vec![];
    for s in [h, b] {
        f.extend((s.len() as i32).to_le_bytes());
        f.extend(crc(s).to_le_bytes());
        f.extend(s);
    }
    f
}
pub fn crc(data: &[u8]) -> u32 {
    let mut c: u32 = !0xefcb_f201u32;
    for &b in data {
        c ^= (b as u32) << 24;
        for _ in 0..8 {
            c = if c & 0x8000_0000 != 0 { (c << 1) ^ 0x04c1_1db7 } else { c << 1 };
        }
    }
    !c
}
