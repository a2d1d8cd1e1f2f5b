//! Reference decoder of the network stream: bit by bit, one obvious step at a
//! time, no lookahead, no shortcuts.
use crate::attrs::{compressed, quat_from};
use crate::bitio::BitR;
use crate::tables::{Spawn, Tag};
use crate::text;
use crate::world::World;
use boxcars::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    NotEnough,
    Time(u32),
    Delta(u32),
    Object(i32),
    MissingActor(i32),
    MissingCache(i32, i32),
    MissingAttr(i32, i32, i32),
    /// actor, actor object, stream, why
    Attr(i32, i32, i32, AErr),
}
#[derive(Clone, Debug, PartialEq)]
pub enum AErr {
    NotEnough,
    Remote(u8),
    BigString(i32),
}

#[derive(Clone, Debug)]
pub struct Decoded {
    pub frames: Vec<Frame>,
    /// Bit position after each complete frame.
    pub ends: Vec<usize>,
    pub fault: Option<Fault>,
    /// Where the frame that failed began.
    pub fault_at: usize,
    /// What was read in the failing frame before the fault.
    pub new_before: Vec<NewActor>,
    pub upd_before: Vec<UpdatedAttribute>,
    /// Actors alive at the end, or at the fault.
    pub live: BTreeMap<i32, i32>,
    pub pos: usize,
    pub end_marker: bool,
}

type R<T> = Result<T, AErr>;
fn n<T>(o: Option<T>) -> R<T> {
    o.ok_or(AErr::NotEnough)
}

pub struct A<'a, 'b> {
    pub b: &'a mut BitR<'b>,
    pub w: &'a World,
}

impl A<'_, '_> {
    fn net(&self) -> i32 {
        self.w.ctx.ver.2
    }
    pub fn vec3i(&mut self) -> R<Vector3i> {
        let max = if self.net() >= 7 { 22 } else { 20 };
        let s = n(self.b.max(max))?;
        let bias = 1i64 << (s + 1);
        let k = s as u32 + 2;
        let x = n(self.b.bits(k))? as i64 - bias;
        let y = n(self.b.bits(k))? as i64 - bias;
        let z = n(self.b.bits(k))? as i64 - bias;
        Ok(Vector3i { x: x as i32, y: y as i32, z: z as i32 })
    }
    fn vec3f(&mut self) -> R<Vector3f> {
        let v = self.vec3i()?;
        Ok(Vector3f { x: v.x as f32 / 100.0, y: v.y as f32 / 100.0, z: v.z as f32 / 100.0 })
    }
    pub fn rotation(&mut self) -> R<Rotation> {
        let mut one = || -> R<Option<i8>> { Ok(if n(self.b.bit())? { Some(n(self.b.u8())? as i8) } else { None }) };
        Ok(Rotation { yaw: one()?, pitch: one()?, roll: one()? })
    }
    fn quat(&mut self) -> R<Quaternion> {
        if self.net() >= 7 {
            let l = n(self.b.bits(2))?;
            let v = [n(self.b.bits(18))? as u32, n(self.b.bits(18))? as u32, n(self.b.bits(18))? as u32];
            Ok(quat_from(l, v))
        } else {
            let mut f = || -> R<f32> { Ok(compressed(n(self.b.bits(16))? as u32)) };
            Ok(Quaternion { x: f()?, y: f()?, z: f()?, w: 0.0 })
        }
    }
    fn active(&mut self) -> R<ActiveActor> {
        let active = n(self.b.bit())?;
        Ok(ActiveActor { active, actor: ActorId(n(self.b.i32())?) })
    }
    fn text(&mut self) -> R<String> {
        let size = n(self.b.i32())?;
        if size == 0 {
            return Ok(String::new());
        }
        let bytes = if size < 0 { size as i64 * -2 } else { size as i64 };
        if bytes > 1024 {
            return Err(AErr::BigString(size));
        }
        let Some(raw) = self.b.raw(bytes as usize) else {
            return Err(AErr::BigString(size));
        };
        Ok(if size < 0 { text::dec_utf16(&raw[..raw.len() - 2]) } else { text::dec1252(&raw[..raw.len() - 1]) })
    }
    fn explosion(&mut self) -> R<Explosion> {
        let flag = n(self.b.bit())?;
        let actor = ActorId(n(self.b.i32())?);
        Ok(Explosion { flag, actor, location: self.vec3f()? })
    }
    fn loadout(&mut self) -> R<Loadout> {
        let version = n(self.b.u8())?;
        let mut u = || n(self.b.u32());
        let (body, decal, wheels, rocket_trail, antenna, topper, unknown1) = (u()?, u()?, u()?, u()?, u()?, u()?, u()?);
        let unknown2 = if version > 10 { Some(u()?) } else { None };
        let (mut engine_audio, mut trail, mut goal_explosion) = (None, None, None);
        if version >= 16 {
            engine_audio = Some(u()?);
            trail = Some(u()?);
            goal_explosion = Some(u()?);
        }
        let banner = if version >= 17 { Some(u()?) } else { None };
        let product_id = if version >= 19 { Some(u()?) } else { None };
        if version >= 22 {
            u()?;
            u()?;
            u()?;
        }
        Ok(Loadout {
            version,
            body,
            decal,
            wheels,
            rocket_trail,
            antenna,
            topper,
            unknown1,
            unknown2,
            engine_audio,
            trail,
            goal_explosion,
            banner,
            product_id,
        })
    }
    fn remote(&mut self, system: u8) -> R<RemoteId> {
        Ok(match system {
            0 => RemoteId::SplitScreen(n(self.b.bits(24))? as u32),
            1 => RemoteId::Steam(n(self.b.u64())?),
            2 => {
                let raw = n(self.b.raw(16))?;
                let e = raw.iter().position(|&x| x == 0).unwrap_or(16);
                let name = text::dec1252(&raw[..e]);
                let unknown1 = n(self.b.raw(if self.net() >= 1 { 16 } else { 8 }))?;
                RemoteId::PlayStation(Ps4Id { online_id: n(self.b.u64())?, name, unknown1 })
            }
            4 => RemoteId::Xbox(n(self.b.u64())?),
            5 => RemoteId::QQ(n(self.b.u64())?),
            6 => {
                let online_id = n(self.b.u64())?;
                RemoteId::Switch(SwitchId { online_id, unknown1: n(self.b.raw(24))? })
            }
            7 => {
                let online_id = n(self.b.u64())?;
                let unknown1 = if self.net() < 10 { n(self.b.raw(24))? } else { vec![] };
                RemoteId::PsyNet(PsyNetId { online_id, unknown1 })
            }
            11 => RemoteId::Epic(self.text()?),
            x => return Err(AErr::Remote(x)),
        })
    }
    fn unique(&mut self) -> R<UniqueId> {
        let system_id = n(self.b.u8())?;
        let remote_id = self.remote(system_id)?;
        Ok(UniqueId { system_id, remote_id, local_id: n(self.b.u8())? })
    }
    fn product(&mut self) -> R<Product> {
        let unknown = n(self.b.bit())?;
        let obj = n(self.b.i32())?;
        let ids = self.w.ctx.prod;
        let v = self.w.ctx.ver;
        let value = if Some(obj) == ids[0] {
            if v >= (868, 23, 8) {
                ProductValue::NewColor(n(self.b.u32())?)
            } else if n(self.b.bit())? {
                ProductValue::OldColor(n(self.b.bits(31))? as u32)
            } else {
                ProductValue::NoColor
            }
        } else if Some(obj) == ids[1] {
            if v >= (868, 18, 0) {
                ProductValue::NewPaint(n(self.b.bits(31))? as u32)
            } else {
                ProductValue::OldPaint(n(self.b.max(14))? as u32)
            }
        } else if Some(obj) == ids[2] {
            ProductValue::Title(self.text().map_err(|_| AErr::NotEnough)?)
        } else if Some(obj) == ids[3] {
            ProductValue::SpecialEdition(n(self.b.bits(31))? as u32)
        } else if Some(obj) == ids[4] {
            if v >= (868, 18, 0) {
                ProductValue::NewTeamEdition(n(self.b.bits(31))? as u32)
            } else {
                ProductValue::OldTeamEdition(n(self.b.max(14))? as u32)
            }
        } else {
            ProductValue::Absent
        };
        Ok(Product { unknown, object_ind: ObjectId(obj), value })
    }
    fn online(&mut self) -> R<Vec<Vec<Product>>> {
        let k = n(self.b.u8())?;
        (0..k)
            .map(|_| {
                let m = n(self.b.u8())?;
                (0..m).map(|_| self.product()).collect()
            })
            .collect()
    }

    pub fn attr(&mut self, tag: Tag) -> R<Attribute> {
        let v = self.w.ctx.ver;
        macro_rules! bit {
            () => {
                n(self.b.bit())?
            };
        }
        macro_rules! u8 {
            () => {
                n(self.b.u8())?
            };
        }
        macro_rules! u32 {
            () => {
                n(self.b.u32())?
            };
        }
        macro_rules! i32 {
            () => {
                n(self.b.i32())?
            };
        }
        macro_rules! f32 {
            () => {
                n(self.b.f32())?
            };
        }
        macro_rules! actor {
            () => {
                ActorId(n(self.b.i32())?)
            };
        }
        // Struct fields are evaluated in the order they are written below,
        // which is the order of the stream.
        Ok(match tag {
            Tag::Boolean => Attribute::Boolean(bit!()),
            Tag::Byte => Attribute::Byte(u8!()),
            Tag::AppliedDamage => Attribute::AppliedDamage(AppliedDamage {
                id: u8!(),
                position: self.vec3f()?,
                damage_index: i32!(),
                total_damage: i32!(),
            }),
            Tag::DamageState => Attribute::DamageState(DamageState {
                tile_state: u8!(),
                damaged: bit!(),
                offender: actor!(),
                ball_position: self.vec3f()?,
                direct_hit: bit!(),
                unknown1: bit!(),
            }),
            Tag::CamSettings => Attribute::CamSettings(Box::new(CamSettings {
                fov: f32!(),
                height: f32!(),
                angle: f32!(),
                distance: f32!(),
                stiffness: f32!(),
                swivel: f32!(),
                transition: if v >= (868, 20, 0) { Some(f32!()) } else { None },
            })),
            Tag::ClubColors => {
                Attribute::ClubColors(ClubColors { blue_flag: bit!(), blue_color: u8!(), orange_flag: bit!(), orange_color: u8!() })
            }
            Tag::Demolish => Attribute::Demolish(Box::new(Demolish {
                attacker_flag: bit!(),
                attacker: actor!(),
                victim_flag: bit!(),
                victim: actor!(),
                attack_velocity: self.vec3f()?,
                victim_velocity: self.vec3f()?,
            })),
            Tag::DemolishFx => Attribute::DemolishFx(Box::new(DemolishFx {
                custom_demo_flag: bit!(),
                custom_demo_id: i32!(),
                attacker_flag: bit!(),
                attacker: actor!(),
                victim_flag: bit!(),
                victim: actor!(),
                attack_velocity: self.vec3f()?,
                victim_velocity: self.vec3f()?,
            })),
            Tag::DemolishExtended => Attribute::DemolishExtended(Box::new(DemolishExtended {
                attacker_pri: self.active()?,
                self_demo: self.active()?,
                self_demolish: bit!(),
                goal_explosion_owner: self.active()?,
                attacker: self.active()?,
                victim: self.active()?,
                attacker_velocity: self.vec3f()?,
                victim_velocity: self.vec3f()?,
            })),
            Tag::Enum => Attribute::Enum(n(self.b.bits(11))? as u16),
            Tag::Explosion => Attribute::Explosion(self.explosion()?),
            Tag::ExtendedExplosion => Attribute::ExtendedExplosion(ExtendedExplosion {
                explosion: self.explosion()?,
                unknown1: bit!(),
                secondary_actor: actor!(),
            }),
            Tag::FlaggedByte => Attribute::FlaggedByte(bit!(), u8!()),
            Tag::ActiveActor => Attribute::ActiveActor(self.active()?),
            Tag::Float => Attribute::Float(f32!()),
            Tag::GameMode => {
                let k = if v < (868, 12, 0) { 2 } else { 8 };
                Attribute::GameMode(k, n(self.b.bits(k as u32))? as u8)
            }
            Tag::Int => Attribute::Int(i32!()),
            Tag::Int64 => Attribute::Int64(n(self.b.u64())? as i64),
            Tag::Loadout => Attribute::Loadout(Box::new(self.loadout()?)),
            Tag::TeamLoadout => Attribute::TeamLoadout(Box::new(TeamLoadout { blue: self.loadout()?, orange: self.loadout()? })),
            Tag::Location => Attribute::Location(self.vec3f()?),
            Tag::MusicStinger => Attribute::MusicStinger(MusicStinger { flag: bit!(), cue: u32!(), trigger: u8!() }),
            Tag::Pickup => Attribute::Pickup(Pickup { instigator: if bit!() { Some(actor!()) } else { None }, picked_up: bit!() }),
            Tag::PickupNew => {
                Attribute::PickupNew(PickupNew { instigator: if bit!() { Some(actor!()) } else { None }, picked_up: u8!() })
            }
            Tag::PlayerHistoryKey => Attribute::PlayerHistoryKey(n(self.b.bits(14))? as u16),
            Tag::QWordString => {
                if self.w.ctx.rl223 {
                    Attribute::String(self.text()?)
                } else {
                    Attribute::QWord(n(self.b.u64())?)
                }
            }
            Tag::Welded => Attribute::Welded(Welded {
                active: bit!(),
                actor: actor!(),
                offset: self.vec3f()?,
                mass: f32!(),
                rotation: self.rotation()?,
            }),
            Tag::RigidBody => {
                let sleeping = bit!();
                Attribute::RigidBody(RigidBody {
                    sleeping,
                    location: self.vec3f()?,
                    rotation: self.quat()?,
                    linear_velocity: if sleeping { None } else { Some(self.vec3f()?) },
                    angular_velocity: if sleeping { None } else { Some(self.vec3f()?) },
                })
            }
            Tag::Title => Attribute::Title(bit!(), bit!(), u32!(), u32!(), u32!(), u32!(), u32!(), bit!()),
            Tag::TeamPaint => Attribute::TeamPaint(TeamPaint {
                team: u8!(),
                primary_color: u8!(),
                accent_color: u8!(),
                primary_finish: u32!(),
                accent_finish: u32!(),
            }),
            Tag::String => Attribute::String(self.text()?),
            Tag::UniqueId => Attribute::UniqueId(Box::new(self.unique()?)),
            Tag::Reservation => {
                let number = n(self.b.bits(3))? as u32;
                let unique_id = self.unique()?;
                let name = if unique_id.system_id != 0 {
                    Some(self.text()?)
                } else if unique_id.remote_id != RemoteId::SplitScreen(0) {
                    let mut s = String::new();
                    while s.len() < 255 {
                        match u8!() {
                            0 => break,
                            c => s.push(c as char),
                        }
                    }
                    Some(s)
                } else {
                    None
                };
                Attribute::Reservation(Box::new(Reservation {
                    number,
                    unique_id,
                    name,
                    unknown1: bit!(),
                    unknown2: bit!(),
                    unknown3: if v >= (868, 12, 0) { Some(n(self.b.bits(6))? as u8) } else { None },
                }))
            }
            Tag::PartyLeader => {
                let system_id = u8!();
                if system_id == 0 {
                    Attribute::PartyLeader(None)
                } else {
                    let remote_id = self.remote(system_id)?;
                    Attribute::PartyLeader(Some(Box::new(UniqueId { system_id, remote_id, local_id: u8!() })))
                }
            }
            Tag::PrivateMatchSettings => Attribute::PrivateMatch(Box::new(PrivateMatchSettings {
                mutators: self.text()?,
                joinable_by: u32!(),
                max_players: u32!(),
                game_name: self.text()?,
                password: self.text()?,
                flag: bit!(),
            })),
            Tag::LoadoutOnline => Attribute::LoadoutOnline(self.online()?),
            Tag::LoadoutsOnline => Attribute::LoadoutsOnline(LoadoutsOnline {
                blue: self.online()?,
                orange: self.online()?,
                unknown1: bit!(),
                unknown2: bit!(),
            }),
            Tag::StatEvent => Attribute::StatEvent(StatEvent { unknown1: bit!(), object_id: i32!() }),
            Tag::RotationTag => Attribute::Rotation(self.rotation()?),
            Tag::RepStatTitle => Attribute::RepStatTitle(RepStatTitle {
                unknown: bit!(),
                name: self.text()?,
                unknown2: bit!(),
                index: u32!(),
                value: u32!(),
            }),
            Tag::PickupInfo => Attribute::PickupInfo(PickupInfo {
                available_pickups: [self.active()?, self.active()?, self.active()?],
                items_are_preview: bit!(),
            }),
            Tag::Impulse => Attribute::Impulse(Impulse { compressed_rotation: i32!(), speed: f32!() }),
            Tag::ReplicatedBoost => Attribute::ReplicatedBoost(ReplicatedBoost {
                grant_count: u8!(),
                boost_amount: u8!(),
                unused1: u8!(),
                unused2: u8!(),
            }),
            Tag::LogoData => Attribute::LogoData(LogoData { logo_id: u32!(), swap_colors: bit!() }),
        })
    }
}

fn bad(t: f32) -> bool {
    t < 0.0 || (t > 0.0 && t < 1e-10)
}

/// Reads up to `limit` frames.
pub fn decode(w: &World, data: &[u8], limit: usize) -> Decoded {
    let mut d = Decoded {
        frames: vec![],
        ends: vec![],
        fault: None,
        fault_at: 0,
        new_before: vec![],
        upd_before: vec![],
        live: BTreeMap::new(),
        pos: 0,
        end_marker: false,
    };
    let mut b = BitR::new(data);
    let mut actors: BTreeMap<i32, i32> = BTreeMap::new();
    while b.left() > 0 && d.frames.len() < limit {
        d.fault_at = b.pos;
        let (mut new, mut upd, mut del) = (vec![], vec![], vec![]);
        let r = frame(w, &mut b, &mut actors, &mut new, &mut del, &mut upd);
        match r {
            Ok(Some((time, delta))) => {
                d.frames.push(Frame { time, delta, new_actors: new, deleted_actors: del, updated_actors: upd });
                d.ends.push(b.pos);
            }
            Ok(None) => {
                d.end_marker = true;
                break;
            }
            Err(f) => {
                d.fault = Some(f);
                d.new_before = new;
                d.upd_before = upd;
                break;
            }
        }
    }
    d.pos = b.pos;
    d.live = actors;
    d
}

#[allow(clippy::too_many_arguments)]
fn frame(
    w: &World,
    b: &mut BitR,
    actors: &mut BTreeMap<i32, i32>,
    new: &mut Vec<NewActor>,
    del: &mut Vec<ActorId>,
    upd: &mut Vec<UpdatedAttribute>,
) -> Result<Option<(f32, f32)>, Fault> {
    let time = b.f32().ok_or(Fault::NotEnough)?;
    if bad(time) {
        return Err(Fault::Time(time.to_bits()));
    }
    let delta = b.f32().ok_or(Fault::NotEnough)?;
    if bad(delta) {
        return Err(Fault::Delta(delta.to_bits()));
    }
    if time == 0.0 && delta == 0.0 {
        return Ok(None);
    }
    while b.bit().ok_or(Fault::NotEnough)? {
        let id = b.max(w.max_channels as u64).ok_or(Fault::NotEnough)? as i32;
        if !b.bit().ok_or(Fault::NotEnough)? {
            del.push(ActorId(id));
            actors.remove(&id);
            continue;
        }
        if b.bit().ok_or(Fault::NotEnough)? {
            let name_id = if w.has_name() { Some(b.i32().ok_or(Fault::NotEnough)?) } else { None };
            b.bit().ok_or(Fault::NotEnough)?;
            let obj = b.i32().ok_or(Fault::NotEnough)?;
            if obj < 0 || obj as usize >= w.objects.len() {
                return Err(Fault::Object(obj));
            }
            let mut a = A { b, w };
            let t = match w.spawns[obj as usize] {
                Spawn::None => Ok(Trajectory { location: None, rotation: None }),
                Spawn::Loc => a.vec3i().map(|l| Trajectory { location: Some(l), rotation: None }),
                Spawn::LocRot => a
                    .vec3i()
                    .and_then(|l| a.rotation().map(|r| Trajectory { location: Some(l), rotation: Some(r) })),
            }
            .map_err(|_| Fault::NotEnough)?;
            if w.table(obj).is_none() {
                return Err(Fault::MissingCache(id, obj));
            }
            actors.insert(id, obj);
            new.push(NewActor { actor_id: ActorId(id), name_id, object_id: ObjectId(obj), initial_trajectory: t });
        } else {
            let Some(&obj) = actors.get(&id) else {
                return Err(Fault::MissingActor(id));
            };
            let t = w.table(obj).unwrap().clone();
            while b.bit().ok_or(Fault::NotEnough)? {
                if t.max < 0 {
                    return Err(Fault::NotEnough);
                }
                let st = b.max(t.max_u64()).ok_or(Fault::NotEnough)? as i32;
                let Some(&(tag, po)) = t.attrs.get(&st) else {
                    return Err(Fault::MissingAttr(id, obj, st));
                };
                let Some(tag) = tag else {
                    return Err(Fault::MissingAttr(id, obj, st));
                };
                let attribute = A { b, w }.attr(tag).map_err(|e| Fault::Attr(id, obj, st, e))?;
                upd.push(UpdatedAttribute { actor_id: ActorId(id), stream_id: StreamId(st), object_id: ObjectId(po), attribute });
            }
        }
    }
    Ok(Some((time, delta)))
}
