//! Payloads of every attribute kind: what the game puts in the stream and the
//! value a reader must get back. Generated from (kind, seed, version).
use crate::bitio::BitW;
use crate::rng::Rng;
use crate::tables::Tag;
use crate::text::{c1252, Txt};
use boxcars::*;

pub type Ver = (i32, i32, i32);

#[derive(Clone, Debug)]
pub struct Ctx {
    pub ver: Ver,
    pub rl223: bool,
    /// color, painted, title, special edition, team edition
    pub prod: [Option<i32>; 5],
    pub nobj: i32,
}

impl Ctx {
    pub fn net(&self) -> i32 {
        self.ver.2
    }
}

struct G<'a> {
    r: Rng,
    w: BitW,
    c: &'a Ctx,
    simple: bool,
    /// Values meant to be floats stay finite.
    finite: bool,
}

/// Attribute payload for `(tag, seed)`. Seed 0 is the plainest payload; odd
/// multiples explore edges. Floats are finite unless `wild` is set.
pub fn payload(tag: Tag, seed: u64, c: &Ctx, wild: bool) -> (BitW, Attribute) {
    let mut g = G { r: Rng::new(seed ^ 0xA77), w: BitW::new(), c, simple: seed == 0, finite: !wild };
    let a = g.attr(tag);
    (g.w, a)
}

/// Initial trajectory payload.
pub fn trajectory(sp: crate::tables::Spawn, seed: u64, net: i32) -> (BitW, Trajectory) {
    use crate::tables::Spawn;
    let c = Ctx { ver: (0, 0, net), rl223: false, prod: [None; 5], nobj: 0 };
    let mut g = G { r: Rng::new(seed ^ 0x7A), w: BitW::new(), c: &c, simple: seed == 0, finite: true };
    let t = match sp {
        Spawn::None => Trajectory { location: None, rotation: None },
        Spawn::Loc => Trajectory { location: Some(g.vec3i()), rotation: None },
        Spawn::LocRot => {
            let l = g.vec3i();
            let r = g.rotation();
            Trajectory { location: Some(l), rotation: Some(r) }
        }
    };
    (g.w, t)
}

impl G<'_> {
    fn val(&mut self, bits: u32) -> u64 {
        let v = if self.simple { 0 } else { self.r.edgy(bits) };
        self.w.bits(v, bits);
        v
    }
    fn b(&mut self) -> bool {
        let v = !self.simple && self.r.bool();
        self.w.bit(v);
        v
    }
    fn u8(&mut self) -> u8 {
        self.val(8) as u8
    }
    fn u32(&mut self) -> u32 {
        self.val(32) as u32
    }
    fn i32(&mut self) -> i32 {
        self.val(32) as u32 as i32
    }
    fn f32(&mut self) -> f32 {
        let mut v = if self.simple {
            0
        } else {
            match self.r.below(6) {
                0 => *self.r.pick(&[0u32, 0x8000_0000, 1, 0x007f_ffff, 0x0080_0000, 0x7f7f_ffff, 0xff7f_ffff, 0x3f80_0000]),
                1 => (self.r.below(20000) as f32 / 100.0 - 100.0).to_bits(),
                _ => self.r.u32(),
            }
        };
        if !self.finite && self.r.one_in(6) {
            v = *self.r.pick(&[0x7f80_0000u32, 0xff80_0000, 0x7fc0_0000, 0x7f80_0001, 0xffff_ffff]);
        }
        if self.finite && !f32::from_bits(v).is_finite() {
            v &= 0xbfff_ffff;
        }
        self.w.u32(v);
        f32::from_bits(v)
    }
    fn text_max(&mut self, max: usize) -> String {
        let t = if self.simple { Txt::default() } else { Txt::gen(&mut self.r, max) };
        let (n, b) = t.encode();
        self.w.i32(n);
        self.w.raw(&b);
        t.s
    }
    fn text(&mut self) -> String {
        // 1,024 bytes is the limit for a text in the stream.
        let wide = self.r.one_in(3);
        let max = if wide { 512 } else { 1024 };
        let mut probe = self.r.clone();
        let t = if self.simple { Txt::default() } else { Txt::gen(&mut probe, max) };
        if t.encode().1.len() > 1024 {
            return self.text_max(512);
        }
        self.text_max(max)
    }
    fn vec3i(&mut self) -> Vector3i {
        let max: u64 = if self.c.net() >= 7 { 22 } else { 20 };
        let s = if self.simple { 0 } else { self.r.below(max as usize) as u64 };
        self.w.max(s, max);
        let bias = 1i64 << (s + 1);
        let n = s as u32 + 2;
        let x = self.val(n) as i64 - bias;
        let y = self.val(n) as i64 - bias;
        let z = self.val(n) as i64 - bias;
        Vector3i { x: x as i32, y: y as i32, z: z as i32 }
    }
    fn vec3f(&mut self) -> Vector3f {
        let v = self.vec3i();
        Vector3f { x: v.x as f32 / 100.0, y: v.y as f32 / 100.0, z: v.z as f32 / 100.0 }
    }
    fn rotation(&mut self) -> Rotation {
        let mut one = || if self.b() { Some(self.u8() as i8) } else { None };
        Rotation { yaw: one(), pitch: one(), roll: one() }
    }
    fn active_actor(&mut self) -> ActiveActor {
        let active = self.b();
        ActiveActor { active, actor: ActorId(self.i32()) }
    }
    fn quat(&mut self) -> Quaternion {
        if self.c.net() >= 7 {
            let largest = self.val(2);
            let mut v = [0u32; 3];
            // Mostly unit quaternions; anything the bits allow otherwise.
            let sane = self.finite || self.r.bool();
            for x in &mut v {
                let q = if self.simple {
                    1 << 17
                } else if sane {
                    ((1 << 17) + self.r.range(-75_000, 75_000)) as u64
                } else {
                    self.r.edgy(18)
                };
                self.w.bits(q, 18);
                *x = q as u32;
            }
            quat_from(largest, v)
        } else {
            let mut f = || compressed(self.val(16) as u32);
            Quaternion { x: f(), y: f(), z: f(), w: 0.0 }
        }
    }
    fn explosion(&mut self) -> Explosion {
        let flag = self.b();
        let actor = ActorId(self.i32());
        Explosion { flag, actor, location: self.vec3f() }
    }
    fn loadout(&mut self) -> Loadout {
        let version = if self.simple {
            0
        } else if self.r.bool() {
            *self.r.pick(&[9u8, 10, 11, 12, 15, 16, 17, 18, 19, 20, 21, 22, 23, 28, 127, 128, 255])
        } else {
            self.r.below(30) as u8
        };
        self.w.u8(version);
        let (body, decal, wheels, rocket_trail, antenna, topper, unknown1) =
            (self.u32(), self.u32(), self.u32(), self.u32(), self.u32(), self.u32(), self.u32());
        let unknown2 = if version > 10 { Some(self.u32()) } else { None };
        let (mut engine_audio, mut trail, mut goal_explosion) = (None, None, None);
        if version >= 16 {
            engine_audio = Some(self.u32());
            trail = Some(self.u32());
            goal_explosion = Some(self.u32());
        }
        let banner = if version >= 17 { Some(self.u32()) } else { None };
        let product_id = if version >= 19 { Some(self.u32()) } else { None };
        if version >= 22 {
            self.u32();
            self.u32();
            self.u32();
        }
        Loadout {
            version,
            body,
            decal,
            wheels,
            rocket_trail,
            antenna,
            topper,
            unknown1,
            unknown2,
            engine_audio,
            trail,
            goal_explosion,
            banner,
            product_id,
        }
    }
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    fn remote(&mut self, system_id: u8) -> RemoteId {
        match system_id {
            0 => {
                let v = if self.r.bool() { 0 } else { self.r.edgy(24) };
                let v = if self.simple { 0 } else { v };
                self.w.bits(v, 24);
                RemoteId::SplitScreen(v as u32)
            }
            1 => RemoteId::Steam(self.val(64)),
            2 => {
                let n = if self.simple { 0 } else { self.r.below(17) };
                let mut raw = vec![0u8; 16];
                let hi = self.r.one_in(3);
                for x in raw.iter_mut().take(n) {
                    *x = if hi { self.r.below(255) as u8 + 1 } else { b'A' + self.r.below(26) as u8 };
                }
                if n < 15 && self.r.one_in(4) {
                    // stale bytes behind the terminator
                    for x in raw.iter_mut().skip(n + 1) {
                        *x = self.r.u64() as u8;
                    }
                }
                self.w.raw(&raw);
                let name: String = raw[..n].iter().map(|&b| c1252(b)).collect();
                let k = if self.c.net() >= 1 { 16 } else { 8 };
                let unknown1 = self.bytes(k);
                RemoteId::PlayStation(Ps4Id { online_id: self.val(64), name, unknown1 })
            }
            4 => RemoteId::Xbox(self.val(64)),
            5 => RemoteId::QQ(self.val(64)),
            6 => {
                let online_id = self.val(64);
                RemoteId::Switch(SwitchId { online_id, unknown1: self.bytes(24) })
            }
            7 => {
                let online_id = self.val(64);
                let unknown1 = if self.c.net() < 10 { self.bytes(24) } else { vec![] };
                RemoteId::PsyNet(PsyNetId { online_id, unknown1 })
            }
            11 => RemoteId::Epic(self.text()),
            _ => unreachable!(),
        }
    }
    fn system(&mut self) -> u8 {
        if self.simple {
            1
        } else {
            *self.r.pick(&[0u8, 1, 2, 4, 5, 6, 7, 11])
        }
    }
    fn unique_id(&mut self) -> UniqueId {
        let system_id = self.system();
        self.w.u8(system_id);
        let remote_id = self.remote(system_id);
        UniqueId { system_id, remote_id, local_id: self.u8() }
    }
    fn product(&mut self) -> Product {
        let unknown = self.b();
        let ids = self.c.prod;
        let obj = if self.simple {
            i32::MAX
        } else {
            match self.r.below(6) {
                0 => self.r.range(0, self.c.nobj.max(1) as i64) as i32,
                1 => self.r.edgy(32) as u32 as i32,
                2 => 0,
                _ => self.r.pick(&ids).unwrap_or(0),
            }
        };
        self.w.i32(obj);
        let v = self.c.ver;
        let value = if Some(obj) == ids[0] {
            if v >= (868, 23, 8) {
                ProductValue::NewColor(self.u32())
            } else if self.b() {
                ProductValue::OldColor(self.val(31) as u32)
            } else {
                ProductValue::NoColor
            }
        } else if Some(obj) == ids[1] {
            if v >= (868, 18, 0) {
                ProductValue::NewPaint(self.val(31) as u32)
            } else {
                ProductValue::OldPaint(self.small14())
            }
        } else if Some(obj) == ids[2] {
            ProductValue::Title(self.text())
        } else if Some(obj) == ids[3] {
            ProductValue::SpecialEdition(self.val(31) as u32)
        } else if Some(obj) == ids[4] {
            if v >= (868, 18, 0) {
                ProductValue::NewTeamEdition(self.val(31) as u32)
            } else {
                ProductValue::OldTeamEdition(self.small14())
            }
        } else {
            ProductValue::Absent
        };
        Product { unknown, object_ind: ObjectId(obj), value }
    }
    fn small14(&mut self) -> u32 {
        let x = if self.simple { 0 } else { self.r.below(14) as u64 };
        self.w.max(x, 14);
        x as u32
    }
    fn online(&mut self) -> Vec<Vec<Product>> {
        let n = if self.simple {
            0
        } else if self.r.one_in(60) {
            *self.r.pick(&[127usize, 128, 255])
        } else {
            self.r.below(5)
        };
        self.w.u8(n as u8);
        (0..n)
            .map(|_| {
                let m = if n > 20 {
                    self.r.below(2)
                } else if self.r.one_in(80) {
                    *self.r.pick(&[127usize, 128, 255])
                } else {
                    self.r.below(4)
                };
                self.w.u8(m as u8);
                (0..m).map(|_| self.product()).collect()
            })
            .collect()
    }

    fn attr(&mut self, tag: Tag) -> Attribute {
        let v = self.c.ver;
        match tag {
            Tag::Boolean => Attribute::Boolean(self.b()),
            Tag::Byte => Attribute::Byte(self.u8()),
            Tag::AppliedDamage => {
                let id = self.u8();
                let position = self.vec3f();
                let damage_index = self.i32();
                Attribute::AppliedDamage(AppliedDamage { id, position, damage_index, total_damage: self.i32() })
            }
            Tag::DamageState => {
                let tile_state = self.u8();
                let damaged = self.b();
                let offender = ActorId(self.i32());
                let ball_position = self.vec3f();
                let direct_hit = self.b();
                Attribute::DamageState(DamageState { tile_state, damaged, offender, ball_position, direct_hit, unknown1: self.b() })
            }
            Tag::CamSettings => {
                let (fov, height, angle, distance, stiffness, swivel) =
                    (self.f32(), self.f32(), self.f32(), self.f32(), self.f32(), self.f32());
                let transition = if v >= (868, 20, 0) { Some(self.f32()) } else { None };
                Attribute::CamSettings(Box::new(CamSettings { fov, height, angle, distance, stiffness, swivel, transition }))
            }
            Tag::ClubColors => {
                let blue_flag = self.b();
                let blue_color = self.u8();
                let orange_flag = self.b();
                Attribute::ClubColors(ClubColors { blue_flag, blue_color, orange_flag, orange_color: self.u8() })
            }
            Tag::Demolish => {
                let attacker_flag = self.b();
                let attacker = ActorId(self.i32());
                let victim_flag = self.b();
                let victim = ActorId(self.i32());
                let attack_velocity = self.vec3f();
                let victim_velocity = self.vec3f();
                Attribute::Demolish(Box::new(Demolish { attacker_flag, attacker, victim_flag, victim, attack_velocity, victim_velocity }))
            }
            Tag::DemolishFx => {
                let custom_demo_flag = self.b();
                let custom_demo_id = self.i32();
                let attacker_flag = self.b();
                let attacker = ActorId(self.i32());
                let victim_flag = self.b();
                let victim = ActorId(self.i32());
                let attack_velocity = self.vec3f();
                let victim_velocity = self.vec3f();
                Attribute::DemolishFx(Box::new(DemolishFx {
                    custom_demo_flag,
                    custom_demo_id,
                    attacker_flag,
                    attacker,
                    victim_flag,
                    victim,
                    attack_velocity,
                    victim_velocity,
                }))
            }
            Tag::DemolishExtended => {
                let attacker_pri = self.active_actor();
                let self_demo = self.active_actor();
                let self_demolish = self.b();
                let goal_explosion_owner = self.active_actor();
                let attacker = self.active_actor();
                let victim = self.active_actor();
                let attacker_velocity = self.vec3f();
                let victim_velocity = self.vec3f();
                Attribute::DemolishExtended(Box::new(DemolishExtended {
                    attacker_pri,
                    self_demo,
                    self_demolish,
                    goal_explosion_owner,
                    attacker,
                    victim,
                    attacker_velocity,
                    victim_velocity,
                }))
            }
            Tag::Enum => Attribute::Enum(self.val(11) as u16),
            Tag::Explosion => Attribute::Explosion(self.explosion()),
            Tag::ExtendedExplosion => {
                let explosion = self.explosion();
                let unknown1 = self.b();
                Attribute::ExtendedExplosion(ExtendedExplosion { explosion, unknown1, secondary_actor: ActorId(self.i32()) })
            }
            Tag::FlaggedByte => {
                let f = self.b();
                Attribute::FlaggedByte(f, self.u8())
            }
            Tag::ActiveActor => Attribute::ActiveActor(self.active_actor()),
            Tag::Float => Attribute::Float(self.f32()),
            Tag::GameMode => {
                let n = if v < (868, 12, 0) { 2 } else { 8 };
                Attribute::GameMode(n, self.val(n as u32) as u8)
            }
            Tag::Int => Attribute::Int(self.i32()),
            Tag::Int64 => Attribute::Int64(self.val(64) as i64),
            Tag::Loadout => Attribute::Loadout(Box::new(self.loadout())),
            Tag::TeamLoadout => {
                let blue = self.loadout();
                Attribute::TeamLoadout(Box::new(TeamLoadout { blue, orange: self.loadout() }))
            }
            Tag::Location => Attribute::Location(self.vec3f()),
            Tag::MusicStinger => {
                let flag = self.b();
                let cue = self.u32();
                Attribute::MusicStinger(MusicStinger { flag, cue, trigger: self.u8() })
            }
            Tag::Pickup => {
                let instigator = if self.b() { Some(ActorId(self.i32())) } else { None };
                Attribute::Pickup(Pickup { instigator, picked_up: self.b() })
            }
            Tag::PickupNew => {
                let instigator = if self.b() { Some(ActorId(self.i32())) } else { None };
                Attribute::PickupNew(PickupNew { instigator, picked_up: self.u8() })
            }
            Tag::PlayerHistoryKey => Attribute::PlayerHistoryKey(self.val(14) as u16),
            Tag::QWordString => {
                if self.c.rl223 {
                    Attribute::String(self.text())
                } else {
                    Attribute::QWord(self.val(64))
                }
            }
            Tag::Welded => {
                let active = self.b();
                let actor = ActorId(self.i32());
                let offset = self.vec3f();
                let mass = self.f32();
                Attribute::Welded(Welded { active, actor, offset, mass, rotation: self.rotation() })
            }
            Tag::RigidBody => {
                let sleeping = self.b();
                let location = self.vec3f();
                let rotation = self.quat();
                let (mut l, mut a) = (None, None);
                if !sleeping {
                    l = Some(self.vec3f());
                    a = Some(self.vec3f());
                }
                Attribute::RigidBody(RigidBody { sleeping, location, rotation, linear_velocity: l, angular_velocity: a })
            }
            Tag::Title => {
                let (a, b) = (self.b(), self.b());
                let (c, d, e, f, g) = (self.u32(), self.u32(), self.u32(), self.u32(), self.u32());
                Attribute::Title(a, b, c, d, e, f, g, self.b())
            }
            Tag::TeamPaint => {
                let team = self.u8();
                let primary_color = self.u8();
                let accent_color = self.u8();
                let primary_finish = self.u32();
                Attribute::TeamPaint(TeamPaint { team, primary_color, accent_color, primary_finish, accent_finish: self.u32() })
            }
            Tag::String => Attribute::String(self.text()),
            Tag::UniqueId => Attribute::UniqueId(Box::new(self.unique_id())),
            Tag::Reservation => {
                let number = self.val(3) as u32;
                let unique_id = self.unique_id();
                let name = if unique_id.system_id != 0 {
                    Some(self.text())
                } else if unique_id.remote_id != RemoteId::SplitScreen(0) {
                    // A NUL terminated byte string that stops at 255 bytes of
                    // text when no terminator came earlier.
                    let n = match self.r.below(4) {
                        0 => 0,
                        1 => 300,
                        2 => 245 + self.r.below(12),
                        _ => self.r.below(40),
                    };
                    // How many bytes outside ASCII count towards the limit
                    // is anybody's guess: such names stay below it.
                    let hi = n < 100 && self.r.one_in(3);
                    let mut s = String::new();
                    for _ in 0..n {
                        if s.len() >= 255 {
                            break;
                        }
                        let c = if hi { self.r.below(255) as u8 + 1 } else { b'a' + self.r.below(26) as u8 };
                        self.w.u8(c);
                        s.push(c as char);
                    }
                    if s.len() < 255 {
                        self.w.u8(0);
                    }
                    Some(s)
                } else {
                    None
                };
                let unknown1 = self.b();
                let unknown2 = self.b();
                let unknown3 = if v >= (868, 12, 0) { Some(self.val(6) as u8) } else { None };
                Attribute::Reservation(Box::new(Reservation { number, unique_id, name, unknown1, unknown2, unknown3 }))
            }
            Tag::PartyLeader => {
                let system_id = self.system();
                self.w.u8(system_id);
                if system_id == 0 {
                    Attribute::PartyLeader(None)
                } else {
                    let remote_id = self.remote(system_id);
                    Attribute::PartyLeader(Some(Box::new(UniqueId { system_id, remote_id, local_id: self.u8() })))
                }
            }
            Tag::PrivateMatchSettings => {
                let mutators = self.text();
                let joinable_by = self.u32();
                let max_players = self.u32();
                let game_name = self.text();
                let password = self.text();
                Attribute::PrivateMatch(Box::new(PrivateMatchSettings {
                    mutators,
                    joinable_by,
                    max_players,
                    game_name,
                    password,
                    flag: self.b(),
                }))
            }
            Tag::LoadoutOnline => Attribute::LoadoutOnline(self.online()),
            Tag::LoadoutsOnline => {
                let blue = self.online();
                let orange = self.online();
                let unknown1 = self.b();
                Attribute::LoadoutsOnline(LoadoutsOnline { blue, orange, unknown1, unknown2: self.b() })
            }
            Tag::StatEvent => {
                let unknown1 = self.b();
                Attribute::StatEvent(StatEvent { unknown1, object_id: self.i32() })
            }
            Tag::RotationTag => Attribute::Rotation(self.rotation()),
            Tag::RepStatTitle => {
                let unknown = self.b();
                let name = self.text();
                let unknown2 = self.b();
                let index = self.u32();
                Attribute::RepStatTitle(RepStatTitle { unknown, name, unknown2, index, value: self.u32() })
            }
            Tag::PickupInfo => {
                let available_pickups = [self.active_actor(), self.active_actor(), self.active_actor()];
                Attribute::PickupInfo(PickupInfo { available_pickups, items_are_preview: self.b() })
            }
            Tag::Impulse => {
                let compressed_rotation = self.i32();
                Attribute::Impulse(Impulse { compressed_rotation, speed: self.f32() })
            }
            Tag::ReplicatedBoost => {
                let grant_count = self.u8();
                let boost_amount = self.u8();
                let unused1 = self.u8();
                Attribute::ReplicatedBoost(ReplicatedBoost { grant_count, boost_amount, unused1, unused2: self.u8() })
            }
            Tag::LogoData => {
                let logo_id = self.u32();
                Attribute::LogoData(LogoData { logo_id, swap_colors: self.b() })
            }
        }
    }
}

pub fn compressed(v: u32) -> f32 {
    ((v as i32 + i32::from(i16::MIN)) as f32) * (i16::MAX as f32).recip()
}

pub fn quat_from(largest: u64, v: [u32; 3]) -> Quaternion {
    let un = |v: u32| {
        let max = ((1u32 << 18) - 1) as f32;
        ((v as f32 / max) - 0.5) * 2.0 * std::f32::consts::FRAC_1_SQRT_2
    };
    let (a, b, c) = (un(v[0]), un(v[1]), un(v[2]));
    let e = c.mul_add(-c, b.mul_add(-b, a.mul_add(-a, 1.0))).sqrt();
    match largest {
        0 => Quaternion { x: e, y: a, z: b, w: c },
        1 => Quaternion { x: a, y: e, z: b, w: c },
        2 => Quaternion { x: a, y: b, z: e, w: c },
        _ => Quaternion { x: a, y: b, z: c, w: e },
    }
}

pub static ALL_TAGS: &[Tag] = &[
    Tag::Boolean,
    Tag::Byte,
    Tag::AppliedDamage,
    Tag::DamageState,
    Tag::CamSettings,
    Tag::ClubColors,
    Tag::Demolish,
    Tag::DemolishFx,
    Tag::DemolishExtended,
    Tag::Enum,
    Tag::Explosion,
    Tag::ExtendedExplosion,
    Tag::FlaggedByte,
    Tag::ActiveActor,
    Tag::Float,
    Tag::GameMode,
    Tag::Int,
    Tag::Int64,
    Tag::Loadout,
    Tag::TeamLoadout,
    Tag::Location,
    Tag::MusicStinger,
    Tag::Pickup,
    Tag::PickupNew,
    Tag::PlayerHistoryKey,
    Tag::QWordString,
    Tag::Welded,
    Tag::RigidBody,
    Tag::Title,
    Tag::TeamPaint,
    Tag::String,
    Tag::UniqueId,
    Tag::Reservation,
    Tag::PartyLeader,
    Tag::PrivateMatchSettings,
    Tag::LoadoutOnline,
    Tag::LoadoutsOnline,
    Tag::StatEvent,
    Tag::RotationTag,
    Tag::RepStatTitle,
    Tag::PickupInfo,
    Tag::Impulse,
    Tag::ReplicatedBoost,
    Tag::LogoData,
];
