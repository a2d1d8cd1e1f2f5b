//! Reference reader of everything around the network stream, in the plainest
//! way, used to tell which section of a damaged file is readable.
use crate::rec::net_gate;
use crate::text;
use crate::world::{Inputs, TableErr, World};
use boxcars::*;

pub const MAX_LIST: i64 = 25_000;
pub const MAX_TEXT: i64 = 10_000;
pub const MAX_DEPTH: usize = 32;

/// Why reading stopped.
#[derive(Clone, Debug, PartialEq)]
pub enum Why {
    /// Bytes needed, bytes left.
    End(i64, usize),
    Utf8(std::str::Utf8Error),
    TextTooLarge(i32),
    ListTooLarge(i32),
    Kind(String),
}
/// Where and why reading stopped: the part of the file, the bytes read by then.
#[derive(Clone, Debug, PartialEq)]
pub struct Stop {
    pub part: &'static str,
    pub at: usize,
    pub why: Why,
}
type R<T> = Result<T, Stop>;

struct C<'a> {
    d: &'a [u8],
    p: usize,
}
impl<'a> C<'a> {
    fn no<T>(&self, why: Why) -> R<T> {
        Err(Stop { part: "", at: self.p, why })
    }
    fn part<T>(&mut self, part: &'static str, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        f(self).map_err(|e| Stop { part, ..e })
    }
    fn take(&mut self, n: i64) -> R<&'a [u8]> {
        if n < 0 || n as u64 > (self.d.len() - self.p) as u64 {
            return self.no(Why::End(n, self.d.len() - self.p));
        }
        let s = &self.d[self.p..self.p + n as usize];
        self.p += n as usize;
        Ok(s)
    }
    fn i32(&mut self) -> R<i32> {
        Ok(i32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn u32(&mut self) -> R<u32> {
        Ok(self.i32()? as u32)
    }
    fn f32(&mut self) -> R<f32> {
        Ok(f32::from_bits(self.u32()?))
    }
    fn str(&mut self) -> R<String> {
        let n = self.i32()? as i64;
        let b = self.take(n)?;
        match std::str::from_utf8(&b[..b.len().saturating_sub(1)]) {
            Ok(s) => Ok(s.into()),
            Err(e) => self.no(Why::Utf8(e)),
        }
    }
    fn text(&mut self) -> R<String> {
        let n = self.i32()? as i64;
        if n.abs() > MAX_TEXT {
            return self.no(Why::TextTooLarge(n as i32));
        }
        if n < 0 {
            let b = self.take(-n * 2)?;
            Ok(text::dec_utf16(&b[..b.len() - 2]))
        } else {
            let b = self.take(n)?;
            Ok(text::dec1252(&b[..b.len().saturating_sub(1)]))
        }
    }
    fn count(&mut self) -> R<usize> {
        let n = self.i32()? as i64;
        if !(0..=MAX_LIST).contains(&n) {
            return self.no(Why::ListTooLarge(n as i32));
        }
        Ok(n as usize)
    }
    fn list<T>(&mut self, f: impl Fn(&mut Self) -> R<T>) -> R<Vec<T>> {
        let n = self.count()?;
        (0..n).map(|_| f(self)).collect()
    }
    fn dict(&mut self, quirks: bool, depth: usize) -> R<Vec<(String, HeaderProp)>> {
        let mut v = vec![];
        loop {
            let key = self.str()?;
            if key == "None" {
                return Ok(v);
            }
            let kind = self.str()?;
            self.take(4)?;
            self.take(4)?;
            let nest = |c: &Self| if depth >= MAX_DEPTH { c.no(Why::Kind(kind.clone())) } else { Ok(()) };
            let p = match kind.as_str() {
                "BoolProperty" => HeaderProp::Bool(self.take(if quirks { 4 } else { 1 })?[0] == 1),
                "ByteProperty" if quirks => HeaderProp::Byte { kind: self.text()?, value: None },
                "ByteProperty" => {
                    let kind = self.str()?;
                    if kind == "None" {
                        self.take(1)?;
                        continue;
                    }
                    HeaderProp::Byte { kind, value: Some(self.str()?) }
                }
                "ArrayProperty" => {
                    nest(self)?;
                    let n = self.count()?;
                    HeaderProp::Array((0..n).map(|_| self.dict(quirks, depth + 1)).collect::<R<_>>()?)
                }
                "StructProperty" => {
                    nest(self)?;
                    HeaderProp::Struct { name: self.str()?, fields: self.dict(quirks, depth + 1)? }
                }
                "FloatProperty" => HeaderProp::Float(self.f32()?),
                "IntProperty" => HeaderProp::Int(self.i32()?),
                "QWordProperty" => HeaderProp::QWord(u64::from_le_bytes(self.take(8)?.try_into().unwrap())),
                "NameProperty" => HeaderProp::Name(self.text()?),
                "StrProperty" => HeaderProp::Str(self.text()?),
                _ => return self.no(Why::Kind(kind.clone())),
            };
            v.push((key, p));
        }
    }
}

#[derive(Clone, Debug)]
pub struct Sect {
    /// Start of the payload and its declared size.
    pub at: usize,
    pub size: i32,
    pub stored: u32,
    pub computed: u32,
    /// The declared range was inside the file.
    pub covered: bool,
    /// Whether what it should hold could be read.
    pub read: R<()>,
    /// One past the last byte consumed.
    pub end: usize,
}
impl Sect {
    pub fn crc_ok(&self) -> bool {
        self.stored == self.computed
    }
}

pub struct Ref {
    pub header: Option<Sect>,
    pub content: Option<Sect>,
    /// With both sections read: the result, network frames left out, and the
    /// place of the stream.
    pub replay: Option<Replay>,
    pub net: (usize, usize),
    /// What could not be read, the first time.
    pub stop: Option<Stop>,
}

pub fn read(d: &[u8]) -> Ref {
    let mut out = Ref { header: None, content: None, replay: None, net: (0, 0), stop: None };
    let mut c = C { d, p: 0 };
    let sect = |c: &mut C, parts: [&'static str; 2]| -> R<Sect> {
        let size = c.part(parts[0], |c| c.i32())?;
        let stored = c.part(parts[1], |c| c.u32())?;
        let at = c.p;
        let covered = size >= 0 && size as usize <= d.len() - at;
        let computed = if covered { crate::crc::fast(&d[at..at + size as usize]) } else { 0 };
        Ok(Sect { at, size, stored, computed, covered, read: Ok(()), end: at })
    };
    let missing = |s: &Sect, part: &'static str| Stop { part, at: s.at, why: Why::End(s.size as i64, d.len() - s.at) };
    let mut h = match sect(&mut c, ["header size", "header crc"]) {
        Ok(h) => h,
        Err(e) => {
            out.stop = Some(e);
            return out;
        }
    };
    if !h.covered {
        let e = missing(&h, "header data");
        out.stop = Some(e.clone());
        h.read = Err(e);
        out.header = Some(h);
        return out;
    }
    let mut r = Replay {
        header_size: h.size,
        header_crc: h.stored,
        major_version: 0,
        minor_version: 0,
        net_version: None,
        game_type: String::new(),
        properties: vec![],
        content_size: 0,
        content_crc: 0,
        network_frames: None,
        levels: vec![],
        keyframes: vec![],
        debug_info: vec![],
        tick_marks: vec![],
        packages: vec![],
        objects: vec![],
        names: vec![],
        class_indices: vec![],
        net_cache: vec![],
    };
    h.read = (|| {
        r.major_version = c.part("major version", |c| c.i32())?;
        r.minor_version = c.part("minor version", |c| c.i32())?;
        if net_gate((r.major_version, r.minor_version, 0)) {
            r.net_version = Some(c.part("net version", |c| c.i32())?);
        }
        r.game_type = c.part("game type", |c| c.text())?;
        r.properties = c.part("header properties", |c| c.dict(r.major_version == 0 && r.minor_version == 0, 0))?;
        Ok(())
    })();
    h.end = c.p;
    let ok = h.read.is_ok();
    out.stop = h.read.clone().err();
    out.header = Some(h);
    if !ok {
        return out;
    }
    let mut b = match sect(&mut c, ["content size", "content crc"]) {
        Ok(b) => b,
        Err(e) => {
            out.stop = Some(e);
            return out;
        }
    };
    if !b.covered {
        let e = missing(&b, "content data");
        out.stop = Some(e.clone());
        b.read = Err(e);
        out.content = Some(b);
        return out;
    }
    r.content_size = b.size;
    r.content_crc = b.stored;
    let net = &mut out.net;
    b.read = (|| {
        r.levels = c.part("levels", |c| c.list(|c| c.text()))?;
        r.keyframes = c.part("keyframes", |c| c.list(|c| Ok(KeyFrame { time: c.f32()?, frame: c.i32()?, position: c.i32()? })))?;
        let n = c.part("network size", |c| c.i32())? as i64;
        let s = c.p;
        c.part("network data", |c| c.take(n))?;
        *net = (s, c.p);
        r.debug_info = c.part("debug info", |c| c.list(|c| Ok(DebugInfo { frame: c.i32()?, user: c.text()?, text: c.text()? })))?;
        r.tick_marks = c.part("tickmarks", |c| c.list(|c| Ok(TickMark { description: c.text()?, frame: c.i32()? })))?;
        r.packages = c.part("packages", |c| c.list(|c| c.text()))?;
        r.objects = c.part("objects", |c| c.list(|c| c.text()))?;
        r.names = c.part("names", |c| c.list(|c| c.text()))?;
        r.class_indices = c.part("class index", |c| c.list(|c| Ok(ClassIndex { class: c.str()?, index: c.i32()? })))?;
        r.net_cache = c.part("net cache", |c| {
            c.list(|c| {
                Ok(ClassNetCache {
                    object_ind: c.i32()?,
                    parent_id: c.i32()?,
                    cache_id: c.i32()?,
                    properties: c.list(|c| Ok(CacheProp { object_ind: c.i32()?, stream_id: c.i32()? }))?,
                })
            })
        })?;
        Ok(())
    })();
    b.end = c.p;
    let ok = b.read.is_ok();
    out.stop = b.read.clone().err();
    out.content = Some(b);
    if ok {
        out.replay = Some(r);
    }
    out
}

/// The class tables and limits implied by a header and footer.
pub fn world(r: &Replay) -> Result<World, TableErr> {
    let find = |k: &str| r.properties.iter().find(|p| p.0 == k).map(|p| &p.1);
    let int = |k: &str| match find(k) {
        Some(HeaderProp::Int(v)) => Some(*v),
        _ => None,
    };
    let string = |k: &str| match find(k) {
        Some(HeaderProp::Str(t)) | Some(HeaderProp::Name(t)) => Some(t.as_str()),
        _ => None,
    };
    World::new(Inputs {
        ver: (r.major_version, r.minor_version, r.net_version.unwrap_or(0)),
        num_frames: int("NumFrames"),
        max_channels: int("MaxChannels"),
        lan: string("MatchType") == Some("Lan"),
        build: string("BuildVersion"),
        objects: r.objects.clone(),
        cache: r.net_cache.iter().map(|c| (c.object_ind, c.properties.iter().map(|p| (p.object_ind, p.stream_id)).collect())).collect(),
    })
}
