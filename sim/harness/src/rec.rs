//! The simulated recorder: a structured recording, its generator, and the
//! writer that turns it into the durable image (with a map of every length,
//! count and size field, so that faults can aim at them).
use crate::attrs::{self, Ver};
use crate::bitio::{fits_max, BitW};
use crate::rng::Rng;
use crate::tables::{self, Tag};
use crate::text::Txt;
use crate::world::{Inputs, TableErr, World, INSTANCES};
use boxcars::*;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum HP {
    /// The raw byte; only 1 is true.
    Bool(u8),
    Byte(String, String),
    /// A byte property of kind "None": present on disk, not part of the data.
    Gone(u8),
    /// Float by bits.
    F(u32),
    Int(i32),
    Name(Txt),
    Q(u64),
    Str(Txt),
    Struct(String, Vec<(String, HP)>),
    Array(Vec<Vec<(String, HP)>>),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct CacheR {
    pub o: i32,
    pub p: i32,
    pub c: i32,
    /// (object index, stream id)
    pub props: Vec<(i32, i32)>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Ev {
    /// actor, name, flag, object, trajectory seed
    New(u32, i32, bool, i32, u64),
    Del(u32),
    /// actor, (stream, payload seed)
    Upd(u32, Vec<(i32, u64)>),
    /// Update whose payload is these raw (value, width) pieces.
    Raw(u32, i32, Vec<(u64, u32)>),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct FrameR {
    /// Bits of the two floats.
    pub t: u32,
    pub d: u32,
    pub ev: Vec<Ev>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Tail {
    /// 64 zero bits after the last frame.
    pub mark: bool,
    /// Fill the last partial byte with ones instead of zeros.
    pub ones: bool,
    pub extra: Vec<u8>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Rec {
    pub ver: Ver,
    pub game: Txt,
    pub props: Vec<(String, HP)>,
    pub levels: Vec<Txt>,
    pub keys: Vec<(u32, i32, i32)>,
    pub debug: Vec<(i32, Txt, Txt)>,
    pub ticks: Vec<(Txt, i32)>,
    pub packages: Vec<Txt>,
    pub objects: Vec<Txt>,
    pub names: Vec<Txt>,
    pub classes: Vec<(String, i32)>,
    pub cache: Vec<CacheR>,
    pub frames: Vec<FrameR>,
    pub tail: Tail,
    /// Seed for the fields a reader must not trust (property sizes).
    pub junk: u64,
    /// Slack inside the content section and after it.
    pub slack: Vec<u8>,
    pub after: Vec<u8>,
    /// Payload floats may be NaN or infinite.
    #[serde(default)]
    pub wild: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FieldKind {
    SecSize,
    SecCrc,
    Version,
    TextLen,
    Count,
    NetSize,
    PropSize,
    Num,
}

#[derive(Clone, Debug)]
pub struct Image {
    pub bytes: Vec<u8>,
    pub fields: Vec<(FieldKind, usize)>,
    pub header: (usize, usize),
    pub content: (usize, usize),
    pub net: (usize, usize),
    /// Bit position of the end of each frame inside the stream.
    pub ends: Vec<usize>,
    /// Bit positions of event starts inside the stream.
    pub marks: Vec<usize>,
    pub bits: usize,
    /// Frames as recorded, as long as everything recorded was possible.
    pub frames: Vec<Frame>,
    /// First frame index that holds an impossible event, if any.
    pub bad_frame: Option<usize>,
    pub world: Result<World, TableErr>,
}

pub fn net_gate(v: Ver) -> bool {
    v.0 > 865 && v.1 > 17
}

impl Rec {
    pub fn eff_ver(&self) -> Ver {
        if net_gate(self.ver) {
            self.ver
        } else {
            (self.ver.0, self.ver.1, 0)
        }
    }
    pub fn quirks(&self) -> bool {
        self.ver.0 == 0 && self.ver.1 == 0
    }
    /// The properties a reader sees.
    pub fn visible(&self) -> Vec<(&str, &HP)> {
        self.props.iter().filter(|p| self.quirks() || !matches!(p.1, HP::Gone(_))).map(|p| (p.0.as_str(), &p.1)).collect()
    }
    pub fn prop(&self, k: &str) -> Option<&HP> {
        self.visible().into_iter().find(|p| p.0 == k).map(|p| p.1)
    }
    pub fn int(&self, k: &str) -> Option<i32> {
        match self.prop(k) {
            Some(HP::Int(v)) => Some(*v),
            _ => None,
        }
    }
    fn string(&self, k: &str) -> Option<&str> {
        match self.prop(k) {
            Some(HP::Str(t)) | Some(HP::Name(t)) => Some(&t.s),
            _ => None,
        }
    }
    pub fn set_int(&mut self, k: &str, v: i32) {
        if let Some(p) = self.props.iter_mut().find(|p| p.0 == k) {
            p.1 = HP::Int(v);
        } else {
            self.props.push((k.into(), HP::Int(v)));
        }
    }
    pub fn set_str(&mut self, k: &str, v: &str) {
        if let Some(p) = self.props.iter_mut().find(|p| p.0 == k) {
            p.1 = HP::Str(Txt::from(v));
        } else {
            self.props.push((k.into(), HP::Str(Txt::from(v))));
        }
    }
    pub fn world(&self) -> Result<World, TableErr> {
        World::new(Inputs {
            ver: self.eff_ver(),
            num_frames: self.int("NumFrames"),
            max_channels: self.int("MaxChannels"),
            lan: self.string("MatchType") == Some("Lan"),
            build: self.string("BuildVersion"),
            objects: self.objects.iter().map(|t| t.s.clone()).collect(),
            cache: self.cache.iter().map(|c| (c.o, c.props.clone())).collect(),
        })
    }

    /// Writes the durable image.
    pub fn image(&self) -> Image {
        let mut o = Out { b: vec![], f: vec![], r: Rng::new(self.junk) };
        // header
        o.mark(FieldKind::SecSize);
        o.i32(0);
        o.mark(FieldKind::SecCrc);
        o.u32(0);
        let h0 = o.b.len();
        o.mark(FieldKind::Version);
        o.i32(self.ver.0);
        o.mark(FieldKind::Version);
        o.i32(self.ver.1);
        if net_gate(self.ver) {
            o.mark(FieldKind::Version);
            o.i32(self.ver.2);
        }
        o.text(&self.game);
        o.rdict(&self.props, self.quirks());
        let h1 = o.b.len();
        // content
        o.mark(FieldKind::SecSize);
        o.i32(0);
        o.mark(FieldKind::SecCrc);
        o.u32(0);
        let c0 = o.b.len();
        o.list(&self.levels, |o, t| o.text(t));
        o.list(&self.keys, |o, k| {
            o.u32(k.0);
            o.i32(k.1);
            o.i32(k.2)
        });
        let world = self.world();
        let s = self.stream(world.as_ref().ok());
        o.mark(FieldKind::NetSize);
        o.i32(s.w.bytes.len() as i32);
        let n0 = o.b.len();
        o.b.extend_from_slice(&s.w.bytes);
        let n1 = o.b.len();
        o.list(&self.debug, |o, d| {
            o.i32(d.0);
            o.text(&d.1);
            o.text(&d.2)
        });
        o.list(&self.ticks, |o, t| {
            o.text(&t.0);
            o.i32(t.1)
        });
        o.list(&self.packages, |o, t| o.text(t));
        o.list(&self.objects, |o, t| o.text(t));
        o.list(&self.names, |o, t| o.text(t));
        o.list(&self.classes, |o, c| {
            o.str(&c.0);
            o.mark(FieldKind::Num);
            o.i32(c.1)
        });
        o.list(&self.cache, |o, c| {
            o.mark(FieldKind::Num);
            o.i32(c.o);
            o.mark(FieldKind::Num);
            o.i32(c.p);
            o.mark(FieldKind::Num);
            o.i32(c.c);
            o.list(&c.props, |o, p| {
                o.mark(FieldKind::Num);
                o.i32(p.0);
                o.mark(FieldKind::Num);
                o.i32(p.1)
            })
        });
        o.b.extend_from_slice(&self.slack);
        let c1 = o.b.len();
        o.b.extend_from_slice(&self.after);
        let mut img = Image {
            bytes: o.b,
            fields: o.f,
            header: (h0, h1),
            content: (c0, c1),
            net: (n0, n1),
            ends: s.ends,
            marks: s.marks,
            bits: s.bits,
            frames: s.frames,
            bad_frame: s.bad,
            world,
        };
        img.finalize();
        img
    }

    fn stream(&self, w: Option<&World>) -> Stream {
        let mut s = Stream::default();
        if let Some(w) = w {
            let mut live: std::collections::BTreeMap<u32, i32> = Default::default();
            'f: for (fi, f) in self.frames.iter().enumerate() {
                let (t, d) = (f32::from_bits(f.t), f32::from_bits(f.d));
                s.marks.push(s.w.len);
                s.w.u32(f.t);
                s.w.u32(f.d);
                let bad = |t: f32| t < 0.0 || (t > 0.0 && t < 1e-10);
                if bad(t) || bad(d) || (t == 0.0 && d == 0.0) {
                    s.bad = Some(fi);
                    break 'f;
                }
                let mut fr = Frame { time: t, delta: d, new_actors: vec![], deleted_actors: vec![], updated_actors: vec![] };
                for e in &f.ev {
                    let id = match e {
                        Ev::New(a, ..) | Ev::Del(a) | Ev::Upd(a, _) | Ev::Raw(a, ..) => *a,
                    };
                    if !fits_max(id as u64, w.max_channels as u64) {
                        continue;
                    }
                    s.marks.push(s.w.len);
                    s.w.bit(true);
                    s.w.max(id as u64, w.max_channels as u64);
                    match e {
                        Ev::Del(_) => {
                            s.w.bit(false);
                            live.remove(&id);
                            fr.deleted_actors.push(ActorId(id as i32));
                        }
                        Ev::New(_, name, flag, obj, seed) => {
                            s.w.bit(true);
                            s.w.bit(true);
                            let mut name_id = None;
                            if w.has_name() {
                                s.w.i32(*name);
                                name_id = Some(*name);
                            }
                            s.w.bit(*flag);
                            s.w.i32(*obj);
                            if *obj < 0 || *obj as usize >= w.objects.len() {
                                s.bad = Some(fi);
                                break 'f;
                            }
                            let (b, t) = attrs::trajectory(w.spawns[*obj as usize], *seed, w.ctx.net());
                            s.w.append(&b);
                            if w.table(*obj).is_none() {
                                s.bad = Some(fi);
                                break 'f;
                            }
                            live.insert(id, *obj);
                            fr.new_actors.push(NewActor {
                                actor_id: ActorId(id as i32),
                                name_id,
                                object_id: ObjectId(*obj),
                                initial_trajectory: t,
                            });
                        }
                        Ev::Upd(_, ups) => {
                            s.w.bit(true);
                            s.w.bit(false);
                            let Some(t) = live.get(&id).and_then(|o| w.table(*o)) else {
                                s.bad = Some(fi);
                                break 'f;
                            };
                            for (st, seed) in ups {
                                if t.max < 0 || *st < 0 || !fits_max(*st as u64, t.max_u64()) {
                                    continue;
                                }
                                s.marks.push(s.w.len);
                                s.w.bit(true);
                                s.w.max(*st as u64, t.max_u64());
                                let Some(&(Some(tag), po)) = t.attrs.get(st) else {
                                    s.bad = Some(fi);
                                    break 'f;
                                };
                                let (b, a) = attrs::payload(tag, *seed, &w.ctx, self.wild);
                                s.w.append(&b);
                                fr.updated_actors.push(UpdatedAttribute {
                                    actor_id: ActorId(id as i32),
                                    stream_id: StreamId(*st),
                                    object_id: ObjectId(po),
                                    attribute: a,
                                });
                            }
                            s.w.bit(false);
                        }
                        Ev::Raw(_, st, pieces) => {
                            s.w.bit(true);
                            s.w.bit(false);
                            if let Some(t) = live.get(&id).and_then(|o| w.table(*o)) {
                                if t.max >= 0 && *st >= 0 && fits_max(*st as u64, t.max_u64()) {
                                    s.w.bit(true);
                                    s.w.max(*st as u64, t.max_u64());
                                }
                            }
                            for (v, n) in pieces {
                                s.w.bits(*v, (*n).min(64));
                            }
                            s.bad = Some(fi);
                            break 'f;
                        }
                    }
                }
                s.w.bit(false);
                s.frames.push(fr);
                s.ends.push(s.w.len);
            }
        }
        if self.tail.mark {
            s.w.u64(0);
        }
        s.bits = s.w.len;
        while s.w.len % 8 != 0 {
            s.w.bit(self.tail.ones);
        }
        s.w.raw(&self.tail.extra);
        s
    }

    /// What a reader must return, network frames aside. The sizes and
    /// checksums are those in the image.
    pub fn expect(&self, img: &Image, frames: Option<NetworkFrames>) -> Replay {
        let rd = |o: usize| u32::from_le_bytes(img.bytes[o..o + 4].try_into().unwrap());
        let (h, c) = (img.header.0 - 8, img.content.0 - 8);
        let s = |t: &Txt| t.s.clone();
        Replay {
            header_size: rd(h) as i32,
            header_crc: rd(h + 4),
            major_version: self.ver.0,
            minor_version: self.ver.1,
            net_version: if net_gate(self.ver) { Some(self.ver.2) } else { None },
            game_type: s(&self.game),
            properties: props(&self.props, self.quirks()),
            content_size: rd(c) as i32,
            content_crc: rd(c + 4),
            network_frames: frames,
            levels: self.levels.iter().map(s).collect(),
            keyframes: self
                .keys
                .iter()
                .map(|k| KeyFrame { time: f32::from_bits(k.0), frame: k.1, position: k.2 })
                .collect(),
            debug_info: self.debug.iter().map(|d| DebugInfo { frame: d.0, user: s(&d.1), text: s(&d.2) }).collect(),
            tick_marks: self.ticks.iter().map(|t| TickMark { description: s(&t.0), frame: t.1 }).collect(),
            packages: self.packages.iter().map(s).collect(),
            objects: self.objects.iter().map(s).collect(),
            names: self.names.iter().map(s).collect(),
            class_indices: self.classes.iter().map(|c| ClassIndex { class: c.0.clone(), index: c.1 }).collect(),
            net_cache: self
                .cache
                .iter()
                .map(|c| ClassNetCache {
                    object_ind: c.o,
                    parent_id: c.p,
                    cache_id: c.c,
                    properties: c.props.iter().map(|p| CacheProp { object_ind: p.0, stream_id: p.1 }).collect(),
                })
                .collect(),
        }
    }
}

pub fn props(p: &[(String, HP)], quirks: bool) -> Vec<(String, HeaderProp)> {
    p.iter()
        .filter_map(|(k, v)| {
            let v = match v {
                HP::Bool(b) => HeaderProp::Bool(*b == 1),
                HP::Byte(k, _) if quirks => HeaderProp::Byte { kind: k.clone(), value: None },
                HP::Byte(k, v) => HeaderProp::Byte { kind: k.clone(), value: Some(v.clone()) },
                HP::Gone(_) if quirks => HeaderProp::Byte { kind: "None".into(), value: None },
                HP::Gone(_) => return None,
                HP::F(b) => HeaderProp::Float(f32::from_bits(*b)),
                HP::Int(i) => HeaderProp::Int(*i),
                HP::Name(t) => HeaderProp::Name(t.s.clone()),
                HP::Q(q) => HeaderProp::QWord(*q),
                HP::Str(t) => HeaderProp::Str(t.s.clone()),
                HP::Struct(n, f) => HeaderProp::Struct { name: n.clone(), fields: props(f, quirks) },
                HP::Array(a) => HeaderProp::Array(a.iter().map(|e| props(e, quirks)).collect()),
            };
            Some((k.clone(), v))
        })
        .collect()
}

#[derive(Default)]
struct Stream {
    w: BitW,
    bits: usize,
    ends: Vec<usize>,
    marks: Vec<usize>,
    frames: Vec<Frame>,
    bad: Option<usize>,
}

impl Image {
    /// Re-finalises sizes and checksums (what the writer does when it closes
    /// the file).
    pub fn finalize(&mut self) {
        finalize(&mut self.bytes, self.header, self.content);
    }
    pub fn end(&self) -> usize {
        self.content.1
    }
}

pub fn finalize(b: &mut [u8], header: (usize, usize), content: (usize, usize)) {
    for (s, e) in [header, content] {
        let c = crate::crc::fast(&b[s..e]);
        b[s - 8..s - 4].copy_from_slice(&((e - s) as u32).to_le_bytes());
        b[s - 4..s].copy_from_slice(&c.to_le_bytes());
    }
}

struct Out {
    b: Vec<u8>,
    f: Vec<(FieldKind, usize)>,
    r: Rng,
}
impl Out {
    fn mark(&mut self, k: FieldKind) {
        self.f.push((k, self.b.len()));
    }
    fn i32(&mut self, v: i32) {
        self.b.extend_from_slice(&v.to_le_bytes());
    }
    fn u32(&mut self, v: u32) {
        self.b.extend_from_slice(&v.to_le_bytes());
    }
    fn text(&mut self, t: &Txt) {
        self.mark(FieldKind::TextLen);
        t.put(&mut self.b);
    }
    fn str(&mut self, s: &str) {
        self.mark(FieldKind::TextLen);
        self.i32(s.len() as i32 + 1);
        self.b.extend_from_slice(s.as_bytes());
        self.b.push(0);
    }
    fn list<T>(&mut self, v: &[T], f: impl Fn(&mut Out, &T)) {
        self.mark(FieldKind::Count);
        self.i32(v.len() as i32);
        for x in v {
            f(self, x);
        }
    }
    fn rdict(&mut self, p: &[(String, HP)], quirks: bool) {
        for (k, v) in p {
            self.str(k);
            let kind = match v {
                HP::Bool(_) => "BoolProperty",
                HP::Byte(..) | HP::Gone(_) => "ByteProperty",
                HP::F(_) => "FloatProperty",
                HP::Int(_) => "IntProperty",
                HP::Name(_) => "NameProperty",
                HP::Q(_) => "QWordProperty",
                HP::Str(_) => "StrProperty",
                HP::Struct(..) => "StructProperty",
                HP::Array(_) => "ArrayProperty",
            };
            self.str(kind);
            self.mark(FieldKind::PropSize);
            let j = if self.r.one_in(3) { self.r.edgy(32) } else { 4 };
            self.u32(j as u32);
            let j = if self.r.one_in(3) { self.r.edgy(32) } else { 0 };
            self.u32(j as u32);
            match v {
                HP::Bool(b) => {
                    self.b.push(*b);
                    if quirks {
                        let j = self.r.edgy(24) as u32;
                        self.b.extend_from_slice(&j.to_le_bytes()[..3]);
                    }
                }
                HP::Byte(k, v) => {
                    if quirks {
                        self.text(&Txt::from(k.as_str()));
                    } else {
                        self.str(k);
                        self.str(v);
                    }
                }
                HP::Gone(x) => {
                    self.str("None");
                    if !quirks {
                        self.b.push(*x);
                    }
                }
                HP::F(b) => self.u32(*b),
                HP::Int(i) => {
                    self.mark(FieldKind::Num);
                    self.i32(*i)
                }
                HP::Name(t) | HP::Str(t) => self.text(t),
                HP::Q(q) => self.b.extend_from_slice(&q.to_le_bytes()),
                HP::Struct(n, f) => {
                    self.str(n);
                    self.rdict(f, quirks);
                }
                HP::Array(a) => {
                    self.mark(FieldKind::Count);
                    self.i32(a.len() as i32);
                    for e in a {
                        self.rdict(e, quirks);
                    }
                }
            }
        }
        self.str("None");
    }
}

// ---------------------------------------------------------------- generator

/// Swarm knobs, drawn per run.
#[derive(Clone, Debug)]
pub struct Knobs {
    pub frames: usize,
    pub events: usize,
    pub leaves: usize,
    pub header: usize,
    pub footer: usize,
    pub focus: Option<Tag>,
    pub wild: bool,
    pub odd_tables: bool,
    pub odd_channels: bool,
    pub ver: Option<Ver>,
    pub hot_ids: bool,
    pub long_text: bool,
    pub text_rich: bool,
    pub cheap_attrs: bool,
    /// One recording in this many is far larger than usual in one respect (0:
    /// none).
    pub bulk: usize,
}

impl Knobs {
    pub fn swarm(r: &mut Rng) -> Knobs {
        Knobs {
            frames: r.size(24),
            events: 1 + r.size(12),
            leaves: 1 + r.size(10),
            header: r.size(14),
            footer: r.size(8),
            focus: None,
            wild: false,
            odd_tables: r.one_in(3),
            odd_channels: r.one_in(3),
            ver: None,
            hot_ids: r.bool(),
            long_text: r.one_in(12),
            text_rich: r.one_in(2),
            cheap_attrs: r.one_in(3),
            bulk: 0,
        }
    }
    pub fn small(r: &mut Rng) -> Knobs {
        let mut k = Knobs::swarm(r);
        k.frames = k.frames.min(6);
        k.events = k.events.min(5);
        k.leaves = k.leaves.min(4);
        k.header = k.header.min(5);
        k.footer = k.footer.min(3);
        k.long_text = false;
        k
    }
}

pub fn gen_ver(r: &mut Rng) -> Ver {
    let major = *r.pick(&[868, 868, 868, 868, 868, 868, 868, 868, 868, 867, 869, 866, 865, 0, 1]);
    let minor = *r.pick(&[0, 8, 9, 11, 12, 13, 14, 15, 17, 18, 19, 20, 20, 21, 22, 23, 24, 25, 32, 32]);
    let net = match r.below(12) {
        0 => r.edgy(32) as u32 as i32,
        1 => -1,
        _ => *r.pick(&[0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 10, 11]),
    };
    let near = *r.pick(&[
        (868, 12, 0),
        (868, 11, 0),
        (868, 14, 0),
        (868, 13, 0),
        (868, 17, 0),
        (868, 18, 0),
        (868, 18, -1),
        (868, 19, 10),
        (868, 20, 0),
        (868, 20, -1),
        (868, 23, 7),
        (868, 23, 8),
        (868, 23, 9),
        (868, 24, 9),
        (868, 24, 10),
        (868, 22, 10),
        (868, 24, 0),
        (868, 32, 10),
        (867, 32, 10),
    ]);
    match r.below(10) {
        0..=4 => (major, minor, net),
        5..=8 => near,
        _ => (r.edgy(32) as u32 as i32, r.edgy(32) as u32 as i32, net),
    }
}

fn gen_key(r: &mut Rng) -> String {
    let t = ["Goals", "PlayerName", "Team0Score", "Id", "Date", "RecordFPS", "bBot", "Score", "Platform", "OnlineID", "frame", "x"];
    match r.below(8) {
        0 => {
            let k = r.size(20);
            (0..k).map(|_| char::from_u32(1 + r.below(0x2fff) as u32).unwrap_or('?')).collect()
        }
        1 => {
            let m = if r.one_in(20) { 12_000 } else { 40 };
            "K".repeat(r.size(m))
        }
        2 => "none".into(),
        _ => r.pick(&t).to_string(),
    }
}

pub fn gen_hp(r: &mut Rng, depth: usize, rich: bool) -> HP {
    let max = if r.one_in(60) { 10_000 } else { 40 };
    let text = |r: &mut Rng| if rich { Txt::gen(r, max) } else { Txt::from(*r.pick(&["Online", "abc", "Offline", ""])) };
    match r.below(if depth < 3 { 12 } else { 9 }) {
        0 => HP::Bool(*r.pick(&[0u8, 1, 1, 1, 2, 255])),
        1 => {
            let k = r.pick(&["OnlinePlatform", "x", "None ", "é"]).to_string();
            let v = r.pick(&["OnlinePlatform_Steam", "", "None", "OnlinePlatform_PS4", "ü"]).to_string();
            HP::Byte(k, v)
        }
        2 => HP::Gone(r.u64() as u8),
        3 => {
            let mut v = if r.bool() { r.edgy(32) as u32 } else { (r.below(10000) as f32 / 8.0).to_bits() };
            if !f32::from_bits(v).is_finite() {
                v &= 0xbfff_ffff;
            }
            HP::F(v)
        }
        4 => HP::Int(r.edgy(32) as u32 as i32),
        5 => HP::Name(text(r)),
        6 => HP::Q(r.edgy(64)),
        7 | 8 => HP::Str(text(r)),
        9 => {
            let n = r.below(4);
            HP::Struct(gen_key(r), gen_dict(r, n, depth + 1, rich))
        }
        _ => {
            let n = if r.one_in(10) { r.below(40) } else { r.below(4) };
            HP::Array(
                (0..n)
                    .map(|_| {
                        let m = if n > 8 { r.below(2) } else { r.below(4) };
                        gen_dict(r, m, depth + 1, rich)
                    })
                    .collect(),
            )
        }
    }
}

pub fn gen_dict(r: &mut Rng, n: usize, depth: usize, rich: bool) -> Vec<(String, HP)> {
    let mut v: Vec<(String, HP)> = vec![];
    for _ in 0..n {
        let k = if !v.is_empty() && r.one_in(6) { v[r.below(v.len())].0.clone() } else { gen_key(r) };
        let k = if k == "None" { "Nones".into() } else { k };
        v.push((k, gen_hp(r, depth, rich)));
    }
    v
}

fn tag_names(t: Tag) -> Vec<&'static str> {
    tables::ATTRS.iter().filter(|a| a.1 == t).map(|a| a.0).collect()
}

/// An object name whose class chain is known.
fn gen_leaf(r: &mut Rng) -> String {
    match r.below(10) {
        0 | 1 => {
            let (p, _) = r.pick(INSTANCES);
            let pre = *r.pick(&["", "stadium_p.", "Park_P.", "x.", "\u{e9}toile_\u{df}.", "\u{661f}."]);
            let end = match r.below(8) {
                // maps have names of their own, of any length and script
                0 => "\u{e9}".repeat(r.size(300)),
                1 => format!("x{}", "\u{fc}".repeat(r.size(300))),
                2 => "\u{661f}\u{1f600}".repeat(r.size(100)),
                3 => "n".repeat(r.size(600)),
                _ => r.below(200).to_string(),
            };
            format!("{pre}TheWorld:PersistentLevel.{p}_{end}")
        }
        2 => {
            // close to the instance pattern, but a class of its own
            r.pick(INSTANCES).1.to_string()
        }
        _ => r.pick(tables::PARENTS).0.to_string(),
    }
}

pub fn chain(name: &str) -> Vec<String> {
    let mut v = vec![name.to_string()];
    let mut cur = name.to_string();
    while let Some(p) = tables::parent(crate::world::normalize(&cur)) {
        v.push(p.to_string());
        cur = p.to_string();
    }
    v
}

pub fn gen(r: &mut Rng, k: &Knobs) -> Rec {
    let ver = k.ver.unwrap_or_else(|| gen_ver(r));
    // ---- objects
    let mut objects: Vec<String> = vec![];
    let leaves: Vec<String> = (0..k.leaves).map(|_| gen_leaf(r)).collect();
    for l in &leaves {
        for (i, n) in chain(l).into_iter().enumerate() {
            if !objects.contains(&n) && (i == 0 || !k.odd_tables || !r.one_in(5)) {
                objects.push(n);
            }
        }
    }
    let nclass = objects.len();
    let mut attr_names: Vec<&'static str> = vec![];
    for _ in 0..(k.leaves * 3 + 4) {
        let n = match k.focus {
            Some(t) if r.bool() => *r.pick(&tag_names(t)),
            _ => {
                if r.bool() {
                    {
                        let t = *r.pick(attrs::ALL_TAGS);
                        *r.pick(&tag_names(t))
                    }
                } else {
                    r.pick(tables::ATTRS).0
                }
            }
        };
        if !attr_names.contains(&n) {
            attr_names.push(n);
        }
    }
    for a in &attr_names {
        objects.push(a.to_string());
    }
    for p in [
        "TAGame.ProductAttribute_UserColor_TA",
        "TAGame.ProductAttribute_Painted_TA",
        "TAGame.ProductAttribute_TitleID_TA",
        "TAGame.ProductAttribute_SpecialEdition_TA",
        "TAGame.ProductAttribute_TeamEdition_TA",
    ] {
        if !r.one_in(3) {
            objects.push(p.into());
        }
    }
    for i in 0..r.size(4) {
        objects.push(format!("Unknown.Thing_{i}"));
    }
    let mut unknown_attr = None;
    if r.one_in(3) {
        let n = match r.below(4) {
            0 => format!("TAGame.Car_TA:{}", "\u{e9}".repeat(r.size(200))),
            1 => format!("TAGame.Car_TA:x{}", "\u{661f}".repeat(r.size(100))),
            _ => "TAGame.Car_TA:NobodyKnows".into(),
        };
        objects.push(n.clone());
        unknown_attr = Some(n);
    }
    if r.one_in(4) {
        let d = objects[r.below(objects.len())].clone();
        objects.push(d);
    }
    if !r.one_in(3) {
        r.shuffle(&mut objects);
    }
    let ind = |n: &str| objects.iter().position(|o| o == n).unwrap() as i32;
    // ---- class tables
    let class_names: Vec<String> = {
        let mut v: Vec<String> = vec![];
        for l in &leaves {
            for n in chain(l) {
                if objects.contains(&n) && !v.contains(&n) {
                    v.push(n);
                }
            }
        }
        v
    };
    let _ = nclass;
    let mut cache: Vec<CacheR> = vec![];
    let mut depth_max: std::collections::HashMap<String, i32> = Default::default();
    // parents first, so that ids can continue after the parent's
    let mut order = class_names.clone();
    order.sort_by_key(|n| chain(n).len());
    let sparse = k.odd_tables && r.one_in(3);
    for n in &order {
        let up = chain(n).iter().skip(1).filter_map(|a| depth_max.get(a).copied()).max().unwrap_or(0);
        let mut next = up;
        let cnt = if r.one_in(4) { 0 } else { r.size(8) };
        let mut props = vec![];
        for _ in 0..cnt {
            let a = match &unknown_attr {
                Some(u) if r.one_in(20) => u.as_str(),
                _ => *r.pick(&attr_names),
            };
            let st = if sparse && r.one_in(2) {
                {
                    let w = *r.pick(&[4u32, 7, 8, 12, 20, 31]);
                    r.edgy(w) as i32
                }
            } else if k.odd_tables && next > 0 && r.one_in(5) {
                r.below(next as usize) as i32
            } else {
                next
            };
            next = next.max(st.saturating_add(1));
            props.push((ind(a), st));
        }
        depth_max.insert(n.clone(), next);
        if props.is_empty() && r.one_in(2) {
            continue;
        }
        if k.odd_tables && props.len() > 1 && r.one_in(4) {
            let tail = props.split_off(props.len() / 2);
            cache.push(CacheR { o: ind(n), p: r.edgy(16) as i32, c: cache.len() as i32, props: tail });
        }
        cache.push(CacheR { o: ind(n), p: r.below(30) as i32, c: cache.len() as i32, props });
    }
    if k.odd_tables && r.one_in(6) {
        cache.push(CacheR { o: *r.pick(&[-1, objects.len() as i32 + 3, i32::MAX]), p: 0, c: 0, props: vec![] });
    }
    if !r.one_in(3) {
        r.shuffle(&mut cache);
    }
    // ---- header
    let mut props = gen_dict(r, k.header, 0, k.text_rich);
    let max_channels = if k.odd_channels {
        match r.below(4) {
            0 => Some(r.range(0, 9) as i32),
            1 => Some(*r.pick(&[199, 200, 201, 255, 256, 257, 1022, 1023, 1024, 1025, 2047, 65535, i32::MAX, -1, i32::MIN])),
            2 => Some(r.edgy(16) as i32),
            _ => None,
        }
    } else {
        *r.pick(&[None, Some(1023), Some(1023), Some(2047)])
    };
    if let Some(m) = max_channels {
        let at = r.below(props.len() + 1);
        props.insert(at, ("MaxChannels".into(), HP::Int(m)));
    }
    if r.one_in(2) {
        let t = Txt::from(*r.pick(&["Lan", "Online", "Private", "lan", "Offline"]));
        let at = r.below(props.len() + 1);
        props.insert(at, ("MatchType".into(), if r.one_in(4) { HP::Str(t) } else { HP::Name(t) }));
    }
    if r.one_in(2) {
        let t = Txt::from(*r.pick(&[
            "221120.42953.406184",
            "221120.42953.406183",
            "221120.42953.406185",
            "221120.42953.40618",
            "221119.99999.999999",
            "230101.1.1",
            "9",
            "180326.56784.194622",
            "",
        ]));
        let at = r.below(props.len() + 1);
        props.insert(at, ("BuildVersion".into(), if r.one_in(4) { HP::Name(t) } else { HP::Str(t) }));
    }
    let at = r.below(props.len() + 1);
    props.insert(at, ("NumFrames".into(), HP::Int(0)));
    // A well-known key that has another kind, or that is there twice: the
    // first one counts, and only if it is of the right kind.
    if k.header > 0 && r.one_in(10) {
        let k = *r.pick(&["MaxChannels", "MatchType", "BuildVersion", "NumFrames"]);
        let v = match (k, r.below(4)) {
            ("MatchType", 0) => HP::Name("Lan".into()),
            ("BuildVersion", 0) => HP::Str("221120.42953.406184".into()),
            ("MaxChannels", 0) => HP::Int(511),
            ("NumFrames", 0) => HP::Int(1),
            _ => gen_hp(r, 2, false),
        };
        let first = props.iter().position(|p| p.0 == k).map_or(0, |x| if k == "NumFrames" { x + 1 } else { 0 });
        let at = r.range(first as i64, props.len() as i64) as usize;
        props.insert(at, (k.into(), v));
    }
    let ml = if k.long_text { 10_000 } else { 40 };
    let rich = k.text_rich;
    let txt = |r: &mut Rng| if rich { Txt::gen(r, ml) } else { Txt::from(*r.pick(&["a", "Stadium_P", "Player", ""])) };
    let nf = |r: &mut Rng| r.size(k.footer);
    let mut rec = Rec {
        ver,
        game: if rich { txt(r) } else { Txt::from("TAGame.Replay_Soccar_TA") },
        props,
        levels: (0..nf(r)).map(|_| txt(r)).collect(),
        keys: (0..nf(r))
            .map(|_| {
                let mut t = r.edgy(32) as u32;
                if !f32::from_bits(t).is_finite() {
                    t &= 0xbfff_ffff;
                }
                (t, r.edgy(32) as u32 as i32, r.edgy(32) as u32 as i32)
            })
            .collect(),
        debug: (0..nf(r)).map(|_| (r.edgy(32) as u32 as i32, txt(r), txt(r))).collect(),
        ticks: (0..nf(r)).map(|_| (txt(r), r.edgy(32) as u32 as i32)).collect(),
        packages: (0..nf(r)).map(|_| txt(r)).collect(),
        objects: objects
            .iter()
            .map(|o| Txt { s: o.clone(), w: r.one_in(15), z: false })
            .collect(),
        names: (0..nf(r)).map(|_| txt(r)).collect(),
        classes: (0..nf(r))
            .map(|_| {
                let n = r.pick(&class_names).clone();
                (n, r.edgy(32) as u32 as i32)
            })
            .collect(),
        cache,
        frames: vec![],
        tail: Tail::default(),
        junk: r.u64(),
        slack: if r.one_in(8) { (0..r.size(40)).map(|_| r.u64() as u8).collect() } else { vec![] },
        after: if r.one_in(4) { (0..r.size(60)).map(|_| r.u64() as u8).collect() } else { vec![] },
        wild: k.wild,
    };
    if k.bulk > 0 && r.one_in(k.bulk) {
        bulk(r, &mut rec, k);
    } else {
        gen_frames(r, &mut rec, k);
    }
    rec
}

/// A size around where narrow counters and fixed limits end.
fn large(r: &mut Rng, max: usize) -> usize {
    let n = match r.below(4) {
        0 => *r.pick(&[4096usize, 8192, 10_000, 16_384, 20_000, 24_999, 25_000, 32_768, 65_536, 100_000, 131_072]),
        1 => max,
        _ => r.range(1000, max as i64 + 1) as usize,
    };
    (n + r.below(3)).saturating_sub(1).min(max)
}

/// Makes one respect of a recording as large as real ones get, or larger.
pub fn bulk(r: &mut Rng, rec: &mut Rec, k: &Knobs) {
    let mut k = k.clone();
    let some = |i: usize| Txt::from(["Stadium_P", "Player", "TAGame.Car_TA", "x"][i % 4]);
    let list = 25_000;
    match r.below(20) {
        0 => rec.names = (0..large(r, list)).map(some).collect(),
        1 => rec.levels = (0..large(r, list)).map(some).collect(),
        2 => rec.packages = (0..large(r, list)).map(some).collect(),
        3 => rec.keys = (0..large(r, list) as u32).map(|i| (i, i as i32, -(i as i32))).collect(),
        4 => rec.debug = (0..large(r, list)).map(|i| (i as i32, some(i), some(i / 7))).collect(),
        5 => rec.ticks = (0..large(r, list)).map(|i| (some(i), i as i32)).collect(),
        6 => rec.classes = (0..large(r, list)).map(|i| (some(i).s, i as i32)).collect(),
        // objects and classes with large numbers
        7 | 8 => {
            let n = large(r, list - rec.objects.len().min(2000));
            let mut all: Vec<Txt> = (0..n).map(|i| Txt::from(format!("Some.Thing_{i}").as_str())).collect();
            all.append(&mut rec.objects);
            rec.objects = all;
            for c in &mut rec.cache {
                c.o = c.o.saturating_add(n as i32);
                for p in &mut c.props {
                    p.0 = p.0.saturating_add(n as i32);
                }
            }
        }
        // tables of classes nobody uses
        9 => {
            let n = large(r, list - rec.cache.len());
            let at = r.below(rec.cache.len() + 1);
            let more = (0..n).map(|i| CacheR { o: 1_000_000 + i as i32, p: 0, c: 0, props: vec![] });
            rec.cache.splice(at..at, more);
        }
        // a class with many attributes
        10 if !rec.cache.is_empty() => {
            let i = r.below(rec.cache.len());
            let (n, no) = (large(r, 5000), rec.objects.len());
            let p = &mut rec.cache[i].props;
            let from = p.iter().map(|x| x.1).max().unwrap_or(0).clamp(0, 1 << 20);
            let mut o = r.fork();
            p.extend((0..n).map(|i| (o.below(no) as i32, from + 1 + i as i32)));
        }
        // the header
        11 => {
            let n = large(r, list);
            rec.props.push(("Goals".into(), HP::Array((0..n).map(|i| vec![("frame".to_string(), HP::Int(i as i32))]).collect())));
        }
        12 => {
            let n = large(r, list);
            rec.props.extend((0..n).map(|i| (format!("Key{}", i % 300), HP::Int(i as i32))));
        }
        // bytes nobody looks at
        13 => {
            let n = *r.pick(&[60_000, 65_536, 1 << 20, (1 << 20) + 3, 1 << 21]);
            let b = r.u64() as u8;
            let v = if r.bool() { &mut rec.slack } else { &mut rec.after };
            v.extend((0..n).map(|i| b ^ (i as u8)));
        }
        // a long match
        14 | 15 => {
            let most = if r.one_in(3) { 70_000 } else { 12_000 };
            k.frames = large(r, most);
            k.events = if most > 12_000 { r.below(2) } else { 1 + r.below(3) };
        }
        // crowded frames
        16 | 17 => {
            k.frames = 1 + r.below(3);
            k.events = large(r, 6000);
        }
        // much of everything
        _ => {
            k.frames = 200 + r.below(800);
            k.events = 20;
        }
    }
    gen_frames(r, rec, &k);
}

pub fn gen_time(r: &mut Rng, base: f32) -> u32 {
    match r.below(12) {
        0 => *r.pick(&[1e-10f32.to_bits(), 1.0f32.to_bits(), f32::MAX.to_bits(), 0x8000_0000, 0]),
        _ => base.to_bits(),
    }
}

pub fn actor_pool(r: &mut Rng, k: &Knobs, max_channels: u32) -> Vec<u32> {
    let m = max_channels as u64;
    let mut v: Vec<u32> = if k.hot_ids {
        (0..1 + r.below(4) as u32).collect()
    } else {
        let mut v = vec![];
        for _ in 0..1 + r.below(10) {
            v.push(match r.below(5) {
                0 => *r.pick(&[198u32, 199, 200, 201]),
                1 => max_channels.wrapping_sub(1 + r.below(3) as u32),
                2 => r.edgy(12) as u32,
                _ => r.below(max_channels.clamp(1, 2048) as usize) as u32,
            });
        }
        v
    };
    v.retain(|&x| fits_max(x as u64, m) && x <= i32::MAX as u32);
    v.sort();
    v.dedup();
    if v.is_empty() {
        v.push(0);
    }
    v
}

/// Fills `rec.frames` with a possible history and sets NumFrames.
pub fn gen_frames(r: &mut Rng, rec: &mut Rec, k: &Knobs) {
    let Ok(w) = rec.world() else { return };
    let pool = actor_pool(r, k, w.max_channels);
    let mut spawnable: Vec<i32> = (0..w.objects.len() as i32).filter(|&o| w.table(o).is_some()).collect();
    // objects with attributes to update are more interesting
    let rich: Vec<i32> = spawnable.iter().copied().filter(|&o| !w.table(o).unwrap().attrs.is_empty()).collect();
    for _ in 0..2 {
        spawnable.extend_from_slice(&rich);
    }
    let mut live: std::collections::BTreeMap<u32, i32> = Default::default();
    let mut time = r.below(1000) as f32 / 16.0;
    for _ in 0..k.frames {
        let delta = (1 + r.below(64)) as f32 / 1024.0;
        let (mut t, d) = (gen_time(r, time), gen_time(r, delta));
        if f32::from_bits(t) == 0.0 && f32::from_bits(d) == 0.0 {
            t = 1.0f32.to_bits();
        }
        time += delta;
        let mut ev = vec![];
        for _ in 0..r.below(k.events + 1) {
            let a = *r.pick(&pool);
            match (r.below(10), live.get(&a).copied()) {
                (0..=1, _) if !spawnable.is_empty() => {
                    let o = *r.pick(&spawnable);
                    ev.push(Ev::New(a, r.edgy(32) as u32 as i32, r.bool(), o, seed(r)));
                    live.insert(a, o);
                }
                (2, Some(_)) => {
                    ev.push(Ev::Del(a));
                    live.remove(&a);
                }
                (3, None) if r.one_in(4) => ev.push(Ev::Del(a)),
                (_, Some(o)) => {
                    let t = w.table(o).unwrap();
                    let good: Vec<(i32, Tag)> = t
                        .attrs
                        .iter()
                        .filter_map(|(s, (tag, _))| tag.map(|t| (*s, t)))
                        .filter(|(s, _)| *s >= 0 && fits_max(*s as u64, t.max_u64()))
                        .collect();
                    let good: Vec<(i32, Tag)> = match k.focus {
                        Some(f) if good.iter().any(|g| g.1 == f) && !r.one_in(3) => good.into_iter().filter(|g| g.1 == f).collect(),
                        _ => good,
                    };
                    let n = if good.is_empty() { 0 } else { r.size(5) };
                    let ups = (0..n)
                        .map(|_| {
                            let g = r.pick(&good);
                            (g.0, if k.cheap_attrs && r.one_in(3) { 0 } else { seed(r) })
                        })
                        .collect();
                    ev.push(Ev::Upd(a, ups));
                }
                (_, None) if !spawnable.is_empty() => {
                    let o = *r.pick(&spawnable);
                    ev.push(Ev::New(a, r.below(100) as i32, r.bool(), o, seed(r)));
                    live.insert(a, o);
                }
                _ => {}
            }
        }
        rec.frames.push(FrameR { t, d, ev });
    }
    let n = rec.frames.len() as i32;
    match r.below(8) {
        0 => {
            rec.tail = Tail { mark: true, ones: r.bool(), extra: (0..r.size(12)).map(|_| r.u64() as u8).collect() };
            rec.set_int("NumFrames", n + r.size(4) as i32);
        }
        1 => {
            rec.tail = Tail { mark: false, ones: r.bool(), extra: (0..r.size(12)).map(|_| r.u64() as u8).collect() };
            rec.set_int("NumFrames", n);
        }
        _ => {
            rec.tail = Tail { mark: false, ones: r.one_in(3), extra: vec![] };
            rec.set_int("NumFrames", n);
        }
    }
    // A count that is no integer is no count.
    if k.header > 0 && r.one_in(60) {
        let v = match gen_hp(r, 3, false) {
            HP::Int(v) if r.bool() => HP::Q(v as u32 as u64),
            HP::Int(v) => HP::F((v as f32).to_bits()),
            HP::Gone(_) => HP::Bool(1),
            v => v,
        };
        if let Some(p) = rec.props.iter_mut().find(|p| p.0 == "NumFrames") {
            p.1 = v;
        }
    }
}

pub fn seed(r: &mut Rng) -> u64 {
    1 + (r.u64() & 0xffff_ffff)
}

/// What the intact image must yield: frames or a table error; None when the
/// recording is not one a reader can be judged on (shrunken leftovers).
pub fn expected_frames(rec: &Rec, img: &Image) -> Option<Result<Vec<Frame>, TableErr>> {
    let w = match &img.world {
        Err(e) => return Some(Err(e.clone())),
        Ok(w) => w,
    };
    let Some(n) = w.num_frames else { return Some(Ok(vec![])) };
    let netlen = img.net.1 - img.net.0;
    if n as i64 as usize > netlen {
        return Some(Err(TableErr::TooManyFrames(n)));
    }
    let n = n as usize;
    if img.bad_frame.is_some_and(|b| b < n) {
        return None;
    }
    if n <= img.frames.len() {
        return Some(Ok(img.frames[..n].to_vec()));
    }
    if rec.tail.mark || (img.bits % 8 == 0 && rec.tail.extra.is_empty()) {
        return Some(Ok(img.frames.clone()));
    }
    None
}
