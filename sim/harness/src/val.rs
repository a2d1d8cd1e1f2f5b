//! The observable value of a result as a plain tree, taken from the public
//! fields one by one (not through boxcars' own serializers), so that two
//! results can be compared bit for bit and the exact JSON can be predicted.
use boxcars::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Null,
    Bool(bool),
    Int(i64),
    /// 64-bit numbers that are written as decimal strings.
    Big(String),
    F(u32),
    Str(String),
    List(Vec<Val>),
    /// Fields of a struct, in declaration order.
    Obj(Vec<(&'static str, Val)>),
    /// Key/value pairs in recorded order, keys may repeat.
    Pairs(Vec<(String, Val)>),
}

pub trait V {
    fn v(&self) -> Val;
}
macro_rules! int {
    ($($t:ty)*) => { $(impl V for $t { fn v(&self) -> Val { Val::Int(*self as i64) } })* };
}
int!(i8 u8 u16 i32 u32);
impl V for bool {
    fn v(&self) -> Val {
        Val::Bool(*self)
    }
}
impl V for f32 {
    fn v(&self) -> Val {
        Val::F(if self.is_nan() { 0x7fc0_0000 } else { self.to_bits() })
    }
}
impl V for String {
    fn v(&self) -> Val {
        Val::Str(self.clone())
    }
}
impl<T: V> V for Option<T> {
    fn v(&self) -> Val {
        self.as_ref().map(|x| x.v()).unwrap_or(Val::Null)
    }
}
impl<T: V> V for Vec<T> {
    fn v(&self) -> Val {
        Val::List(self.iter().map(|x| x.v()).collect())
    }
}
impl<T: V, const N: usize> V for [T; N] {
    fn v(&self) -> Val {
        Val::List(self.iter().map(|x| x.v()).collect())
    }
}
impl<T: V + ?Sized> V for Box<T> {
    fn v(&self) -> Val {
        (**self).v()
    }
}
struct Big<T>(T);
impl<T: std::fmt::Display> V for Big<T> {
    fn v(&self) -> Val {
        Val::Big(self.0.to_string())
    }
}
impl V for ActorId {
    fn v(&self) -> Val {
        self.0.v()
    }
}
impl V for ObjectId {
    fn v(&self) -> Val {
        self.0.v()
    }
}
impl V for StreamId {
    fn v(&self) -> Val {
        self.0.v()
    }
}

macro_rules! st {
    ($($t:ident { $($f:ident),* })*) => { $(impl V for $t { fn v(&self) -> Val {
        Val::Obj(vec![$((stringify!($f), self.$f.v())),*])
    } })* };
}
st! {
    NetworkFrames { frames }
    TickMark { description, frame }
    KeyFrame { time, frame, position }
    DebugInfo { frame, user, text }
    ClassIndex { class, index }
    CacheProp { object_ind, stream_id }
    ClassNetCache { object_ind, parent_id, cache_id, properties }
    Vector3f { x, y, z }
    Vector3i { x, y, z }
    Quaternion { x, y, z, w }
    Rotation { yaw, pitch, roll }
    Trajectory { location, rotation }
    NewActor { actor_id, name_id, object_id, initial_trajectory }
    UpdatedAttribute { actor_id, stream_id, object_id, attribute }
    Frame { time, delta, new_actors, deleted_actors, updated_actors }
    ActiveActor { active, actor }
    CamSettings { fov, height, angle, distance, stiffness, swivel, transition }
    ClubColors { blue_flag, blue_color, orange_flag, orange_color }
    AppliedDamage { id, position, damage_index, total_damage }
    DamageState { tile_state, damaged, offender, ball_position, direct_hit, unknown1 }
    Demolish { attacker_flag, attacker, victim_flag, victim, attack_velocity, victim_velocity }
    DemolishExtended { attacker_pri, self_demo, self_demolish, goal_explosion_owner, attacker, victim, attacker_velocity, victim_velocity }
    DemolishFx { custom_demo_flag, custom_demo_id, attacker_flag, attacker, victim_flag, victim, attack_velocity, victim_velocity }
    Explosion { flag, actor, location }
    ExtendedExplosion { explosion, unknown1, secondary_actor }
    Loadout { version, body, decal, wheels, rocket_trail, antenna, topper, unknown1, unknown2, engine_audio, trail, goal_explosion, banner, product_id }
    TeamLoadout { blue, orange }
    StatEvent { unknown1, object_id }
    MusicStinger { flag, cue, trigger }
    Pickup { instigator, picked_up }
    PickupNew { instigator, picked_up }
    Welded { active, actor, offset, mass, rotation }
    TeamPaint { team, primary_color, accent_color, primary_finish, accent_finish }
    RigidBody { sleeping, location, rotation, linear_velocity, angular_velocity }
    UniqueId { system_id, remote_id, local_id }
    Reservation { number, unique_id, name, unknown1, unknown2, unknown3 }
    PrivateMatchSettings { mutators, joinable_by, max_players, game_name, password, flag }
    Product { unknown, object_ind, value }
    LoadoutsOnline { blue, orange, unknown1, unknown2 }
    RepStatTitle { unknown, name, unknown2, index, value }
    PickupInfo { available_pickups, items_are_preview }
    Impulse { compressed_rotation, speed }
    ReplicatedBoost { grant_count, boost_amount, unused1, unused2 }
    LogoData { logo_id, swap_colors }
}

impl V for PsyNetId {
    fn v(&self) -> Val {
        Val::Obj(vec![("online_id", Big(self.online_id).v()), ("unknown1", self.unknown1.v())])
    }
}
impl V for SwitchId {
    fn v(&self) -> Val {
        Val::Obj(vec![("online_id", Big(self.online_id).v()), ("unknown1", self.unknown1.v())])
    }
}
impl V for Ps4Id {
    fn v(&self) -> Val {
        Val::Obj(vec![("online_id", Big(self.online_id).v()), ("name", self.name.v()), ("unknown1", self.unknown1.v())])
    }
}
fn tag(n: &'static str, v: Val) -> Val {
    Val::Obj(vec![(n, v)])
}
impl V for RemoteId {
    fn v(&self) -> Val {
        match self {
            RemoteId::PlayStation(x) => tag("PlayStation", x.v()),
            RemoteId::PsyNet(x) => tag("PsyNet", x.v()),
            RemoteId::SplitScreen(x) => tag("SplitScreen", x.v()),
            RemoteId::Steam(x) => tag("Steam", Big(x).v()),
            RemoteId::Switch(x) => tag("Switch", x.v()),
            RemoteId::Xbox(x) => tag("Xbox", Big(x).v()),
            RemoteId::QQ(x) => tag("QQ", Big(x).v()),
            RemoteId::Epic(x) => tag("Epic", x.v()),
        }
    }
}
impl V for ProductValue {
    fn v(&self) -> Val {
        use ProductValue::*;
        match self {
            NoColor => Val::Str("NoColor".into()),
            Absent => Val::Str("Absent".into()),
            OldColor(x) => tag("OldColor", x.v()),
            NewColor(x) => tag("NewColor", x.v()),
            OldPaint(x) => tag("OldPaint", x.v()),
            NewPaint(x) => tag("NewPaint", x.v()),
            Title(x) => tag("Title", x.v()),
            SpecialEdition(x) => tag("SpecialEdition", x.v()),
            OldTeamEdition(x) => tag("OldTeamEdition", x.v()),
            NewTeamEdition(x) => tag("NewTeamEdition", x.v()),
        }
    }
}
impl V for Attribute {
    fn v(&self) -> Val {
        macro_rules! arms {
            ($($n:ident)*) => { match self {
                $(Attribute::$n(x) => tag(stringify!($n), x.v()),)*
                Attribute::FlaggedByte(a, b) => tag("FlaggedByte", Val::List(vec![a.v(), b.v()])),
                Attribute::GameMode(a, b) => tag("GameMode", Val::List(vec![a.v(), b.v()])),
                Attribute::Title(a, b, c, d, e, f, g, h) => {
                    tag("Title", Val::List(vec![a.v(), b.v(), c.v(), d.v(), e.v(), f.v(), g.v(), h.v()]))
                }
                Attribute::Int64(x) => tag("Int64", Big(x).v()),
                Attribute::QWord(x) => tag("QWord", Big(x).v()),
                #[allow(unreachable_patterns)]
                _ => Val::Str("unknown attribute".into()),
            } };
        }
        arms!(Boolean Byte AppliedDamage DamageState CamSettings ClubColors Demolish DemolishExtended DemolishFx Enum
            Explosion ExtendedExplosion ActiveActor Float Int Loadout TeamLoadout Location MusicStinger PlayerHistoryKey
            Pickup PickupNew Welded TeamPaint RigidBody String UniqueId Reservation PartyLeader PrivateMatch LoadoutOnline
            LoadoutsOnline StatEvent Rotation RepStatTitle PickupInfo Impulse ReplicatedBoost LogoData)
    }
}
fn pairs(p: &[(String, HeaderProp)]) -> Val {
    Val::Pairs(p.iter().map(|(k, v)| (k.clone(), v.v())).collect())
}
impl V for HeaderProp {
    fn v(&self) -> Val {
        // The kind is kept in front so that values of different kinds differ.
        match self {
            HeaderProp::Array(a) => kind("array", Val::List(a.iter().map(|e| pairs(e)).collect())),
            HeaderProp::Bool(b) => kind("bool", b.v()),
            HeaderProp::Byte { kind: k, value } => kind("byte", Val::Obj(vec![("kind", k.v()), ("value", value.v())])),
            HeaderProp::Float(f) => kind("float", f.v()),
            HeaderProp::Int(i) => kind("int", i.v()),
            HeaderProp::Name(s) => kind("name", s.v()),
            HeaderProp::QWord(q) => kind("qword", Big(q).v()),
            HeaderProp::Str(s) => kind("str", s.v()),
            HeaderProp::Struct { name, fields } => {
                kind("struct", Val::Obj(vec![("name", name.v()), ("fields", pairs(fields))]))
            }
        }
    }
}
/// Marks a header value with its kind; erased by `plain`.
fn kind(k: &'static str, v: Val) -> Val {
    Val::Obj(vec![("\u{1}kind", Val::Str(k.into())), ("\u{1}value", v)])
}
/// The tree as JSON shows it: kinds of header values are not written.
pub fn plain(v: Val) -> Val {
    match v {
        Val::Obj(mut o) => {
            if o.len() == 2 && o[0].0 == "\u{1}kind" {
                return plain(o.pop().unwrap().1);
            }
            Val::Obj(o.into_iter().map(|(k, v)| (k, plain(v))).collect())
        }
        Val::List(l) => Val::List(l.into_iter().map(plain).collect()),
        Val::Pairs(p) => Val::Pairs(p.into_iter().map(|(k, v)| (k, plain(v))).collect()),
        v => v,
    }
}
impl V for Replay {
    fn v(&self) -> Val {
        macro_rules! f {
            ($($n:ident)*) => { vec![$((stringify!($n), self.$n.v())),*] };
        }
        let mut o = f!(header_size header_crc major_version minor_version net_version game_type);
        o.push(("properties", pairs(&self.properties)));
        o.extend(f!(content_size content_crc network_frames levels keyframes debug_info tick_marks packages objects names class_indices net_cache));
        Val::Obj(o)
    }
}

/// First difference between two trees, as a path.
pub fn diff(a: &Val, b: &Val) -> Option<String> {
    fn short(v: &Val) -> String {
        let s = match v {
            Val::F(b) => format!("float {:?} ({:#010x})", f32::from_bits(*b), b),
            v => format!("{v:?}"),
        };
        if s.len() > 160 {
            let cut: String = s.chars().take(160).collect();
            format!("{cut}...")
        } else {
            s
        }
    }
    fn go(a: &Val, b: &Val, p: &mut String) -> Option<String> {
        let l = p.len();
        let r = match (a, b) {
            (Val::List(x), Val::List(y)) => {
                for (i, (x, y)) in x.iter().zip(y).enumerate() {
                    p.push_str(&format!("[{i}]"));
                    if let Some(d) = go(x, y, p) {
                        return Some(d);
                    }
                    p.truncate(l);
                }
                if x.len() != y.len() {
                    Some(format!("{p}: {} elements, expected {}", y.len(), x.len()))
                } else {
                    None
                }
            }
            (Val::Obj(x), Val::Obj(y)) if x.len() == y.len() => {
                for ((k, x), (l2, y)) in x.iter().zip(y) {
                    if k != l2 {
                        return Some(format!("{p}: {l2} instead of {k}"));
                    }
                    if !k.starts_with('\u{1}') {
                        p.push('.');
                        p.push_str(k);
                    }
                    if let Some(d) = go(x, y, p) {
                        return Some(d);
                    }
                    p.truncate(l);
                }
                None
            }
            (Val::Pairs(x), Val::Pairs(y)) => {
                for ((k, x), (l2, y)) in x.iter().zip(y) {
                    if k != l2 {
                        return Some(format!("{p}: key {l2:?} instead of {k:?}"));
                    }
                    p.push_str(&format!(".{:?}", k));
                    if let Some(d) = go(x, y, p) {
                        return Some(d);
                    }
                    p.truncate(l);
                }
                if x.len() != y.len() {
                    Some(format!("{p}: {} pairs, expected {}", y.len(), x.len()))
                } else {
                    None
                }
            }
            (a, b) if a == b => None,
            (a, b) => Some(format!("{p}: {} instead of {}", short(b), short(a))),
        };
        r
    }
    go(a, b, &mut String::new())
}

pub fn diff_replay(want: &Replay, got: &Replay) -> Option<String> {
    diff(&want.v(), &got.v())
}
pub fn diff_frames(want: &[Frame], got: &[Frame]) -> Option<String> {
    for (i, (a, b)) in want.iter().zip(got).enumerate() {
        if let Some(d) = diff(&a.v(), &b.v()) {
            return Some(format!("frame {i}{d}"));
        }
    }
    if want.len() != got.len() {
        return Some(format!("{} frames instead of {}", got.len(), want.len()));
    }
    None
}

/// Top-level field of a difference, used to tell violations apart.
pub fn diff_key(d: &str) -> String {
    let s: String = d.chars().filter(|c| !c.is_ascii_digit()).take_while(|c| *c != ':').collect();
    let mut t: String = s.chars().take(60).collect();
    t.retain(|c| c != '"');
    t
}
