//! C26: copies and comparisons.
use super::*;
use crate::attrs;
use crate::bad;
use crate::faults::Reg;
use crate::seam::{self, Limits};
use crate::val::{Val, V};
use boxcars::*;
use serde_json::Value;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub struct C26;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    shot: Shot,
    /// What happens to the second file.
    twin: Vec<Fault>,
    /// The writer closes the second file over what happened to it.
    close: bool,
    opts: ((u8, u8), (u8, u8)),
    /// Which parts are compared, and how saved frames are altered.
    seed: u64,
}

/// Whether two trees state the same: None where numbers decide that compare
/// in their own way (NaN, the two zeros).
fn same(a: &Val, b: &Val) -> Option<bool> {
    fn all(mut i: impl Iterator<Item = Option<bool>>) -> Option<bool> {
        let mut open = false;
        for x in i.by_ref() {
            match x {
                Some(false) => return Some(false),
                None => open = true,
                _ => {}
            }
        }
        if open {
            None
        } else {
            Some(true)
        }
    }
    match (a, b) {
        (Val::F(x), Val::F(y)) => {
            let (p, q) = (f32::from_bits(*x), f32::from_bits(*y));
            if p.is_nan() && q.is_nan() || p == 0.0 && q == 0.0 && x != y {
                None
            } else {
                Some(x == y)
            }
        }
        (Val::List(x), Val::List(y)) if x.len() == y.len() => all(x.iter().zip(y).map(|(x, y)| same(x, y))),
        (Val::Obj(x), Val::Obj(y)) if x.len() == y.len() => {
            all(x.iter().zip(y).map(|((k, x), (l, y))| if k == l { same(x, y) } else { Some(false) }))
        }
        (Val::Pairs(x), Val::Pairs(y)) if x.len() == y.len() => {
            all(x.iter().zip(y).map(|((k, x), (l, y))| if k == l { same(x, y) } else { Some(false) }))
        }
        _ => Some(a == b),
    }
}

fn run<T>(st: &mut Stats, what: &str, f: impl FnOnce() -> T) -> Result<T, Viol> {
    let (r, m) = seam::metered(Limits::default(), f);
    st.calls += 1;
    st.steps += m.steps;
    match r {
        Ok(x) => Ok(x),
        Err(p) => viol("panic", format!("{what} panicked: {p}")),
    }
}

fn verdict<T: PartialEq>(st: &mut Stats, what: &str, a: &T, b: &T, want: Option<bool>, told: &dyn Fn() -> String) -> Result<(), Viol> {
    #[allow(clippy::nonminimal_bool)]
    let (eq, ne, back) = run(st, "comparing", || (a == b, a != b, b == a))?;
    if eq == ne {
        bad!("unequal", "{what}: == says {eq} and != says {ne}: {}", told());
    }
    if eq != back {
        bad!("symmetric", "{what}: {eq} one way round and {back} the other: {}", told());
    }
    match want {
        Some(w) if w != eq => {
            let k = if w { "same facts compare as different" } else { "different facts compare as the same" };
            bad!(k, "{what}: {}", told())
        }
        Some(true) => st.count("compared: the same"),
        Some(false) => st.count("compared: different"),
        None => st.count("compared: NaN or signed zero"),
    }
    Ok(())
}
fn short(v: &Val) -> String {
    let s = format!("{v:?}");
    s.chars().take(200).collect()
}
fn both<T: PartialEq + V>(st: &mut Stats, what: &str, a: &T, b: &T) -> Result<(), Viol> {
    let (x, y) = (a.v(), b.v());
    verdict(st, what, a, b, same(&x, &y), &|| match crate::val::diff(&x, &y) {
        Some(d) => d,
        None => short(&x),
    })
}
/// Neighbours inside one list, and counterparts in two.
fn lists<T: PartialEq + V>(st: &mut Stats, r: &mut Rng, what: &str, a: &[T], b: &[T]) -> Result<(), Viol> {
    for (k, l) in [(0, a), (1, b)] {
        if l.len() > 1 && r.bool() {
            let i = r.below(l.len());
            let j = if k == 0 { (i + 1) % l.len() } else { r.below(l.len()) };
            both(st, what, &l[i], &l[j])?;
        }
    }
    let n = a.len().min(b.len());
    if n > 0 {
        let start = r.below(n);
        for i in (start..n).take(40) {
            both(st, what, &a[i], &b[i])?;
        }
    }
    Ok(())
}

fn copy<T: PartialEq + V + Clone>(st: &mut Stats, what: &str, x: &T) -> Result<T, Viol> {
    let c = run(st, "copying", || x.clone())?;
    let v = x.v();
    if let Some(d) = crate::val::diff(&v, &c.v()) {
        bad!("copy", "a copy of {what} differs from it{d}");
    }
    verdict(st, &format!("{what} and its copy"), x, &c, same(&v, &v), &|| short(&v))?;
    Ok(c)
}

fn key<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn ids(st: &mut Stats, r: &mut Rng, seen: &[i32]) -> Result<(), Viol> {
    let mut n: Vec<i32> = (0..4).map(|_| if seen.is_empty() || r.one_in(3) { r.edgy(32) as i32 } else { *r.pick(seen) }).collect();
    n.push(n[0].wrapping_add(*r.pick(&[1, -1, 256, 65536, i32::MIN])));
    macro_rules! id {
        ($($t:ident)*) => { $( for &a in &n { for &b in &n {
            let (x, y) = ($t(a), $t(b));
            let got = run(st, "using ids", || (x.cmp(&y), x.partial_cmp(&y), x == y, key(&x) == key(&y), x.to_string(), i32::from(x), usize::from(x)))?;
            let want = (a.cmp(&b), Some(a.cmp(&b)), a == b, a == b, a.to_string(), a, a as usize);
            let blind = (got.0, got.1, got.2, a != b || got.3, got.4.clone(), got.5, if a < 0 { want.6 } else { got.6 });
            if blind != (want.0, want.1, want.2, true, want.4.clone(), want.5, want.6) {
                bad!("id", concat!(stringify!($t), " {} and {}: order, equality, text and numbers are {:?} instead of {:?}"), a, b, got, want);
            }
        }})* };
    }
    id!(ActorId ObjectId StreamId);
    Ok(())
}

fn attributes(f: &[Frame], r: &mut Rng, max: usize) -> Vec<Attribute> {
    let all: Vec<&Attribute> = f.iter().flat_map(|f| f.updated_actors.iter().map(|u| &u.attribute)).take(4000).collect();
    if all.is_empty() {
        return vec![];
    }
    (0..max.min(all.len())).map(|_| (*r.pick(&all)).clone()).collect()
}

/// Alters one value inside a saved frame.
fn alter(v: &mut Value, r: &mut Rng) -> bool {
    fn leaves(v: &Value) -> usize {
        match v {
            Value::Array(a) => a.iter().map(leaves).sum(),
            Value::Object(o) => o.values().map(leaves).sum(),
            _ => 1,
        }
    }
    fn go(v: &mut Value, at: &mut usize, r: &mut Rng) -> bool {
        match v {
            Value::Array(a) => a.iter_mut().any(|x| go(x, at, r)),
            Value::Object(o) => o.values_mut().any(|x| go(x, at, r)),
            x => {
                if *at > 0 {
                    *at -= 1;
                    return false;
                }
                *x = match &*x {
                    Value::Null => [Value::from(0), Value::from(false), Value::from(1.5)][r.below(3)].clone(),
                    Value::Bool(b) => Value::from(!b),
                    Value::Number(n) => {
                        if n.is_f64() {
                            let f = n.as_f64().unwrap() as f32;
                            let g = f32::from_bits(f.to_bits() ^ (1 << r.below(24)));
                            if g.is_finite() { Value::from(g) } else { Value::from(f + 1.0) }
                        } else if r.one_in(4) {
                            Value::Null
                        } else {
                            let i = n.as_i64().unwrap();
                            Value::from(*r.pick(&[i + 1, i - 1, i ^ 4, i ^ 64, i ^ 0x100, i ^ 0x10_0000]))
                        }
                    }
                    Value::String(s) => {
                        let mut t = s.clone();
                        match r.below(4) {
                            0 => t.push('x'),
                            1 => t = t.chars().rev().collect(),
                            2 => {
                                t.pop();
                            }
                            _ => {
                                let up: String = t.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
                                t = if up == t {
                                    t.parse::<u64>().map(|n| (n ^ (1 << r.below(64))).to_string()).unwrap_or(format!("{t}0"))
                                } else {
                                    up
                                };
                            }
                        }
                        Value::from(t)
                    }
                    x => x.clone(),
                };
                true
            }
        }
    }
    if r.one_in(3) {
        return mix_up(v, r);
    }
    let n = leaves(v);
    n > 0 && go(v, &mut r.below(n), r)
}

/// Alters one list or record inside a saved frame: the same values in other
/// places, more or fewer of them, the opposite of all.
fn mix_up(v: &mut Value, r: &mut Rng) -> bool {
    fn count(v: &Value) -> usize {
        match v {
            Value::Array(a) => 1 + a.iter().map(count).sum::<usize>(),
            Value::Object(o) => 1 + o.values().map(count).sum::<usize>(),
            _ => 0,
        }
    }
    fn find<'a>(v: &'a mut Value, at: &mut usize) -> Option<&'a mut Value> {
        if !v.is_array() && !v.is_object() {
            return None;
        }
        if *at == 0 {
            return Some(v);
        }
        *at -= 1;
        match v {
            Value::Array(a) => a.iter_mut().find_map(|x| find(x, at)),
            Value::Object(o) => o.values_mut().find_map(|x| find(x, at)),
            _ => None,
        }
    }
    let n = count(v);
    let Some(node) = find(v, &mut r.below(n.max(1))) else { return false };
    match node {
        Value::Array(a) => {
            if a.is_empty() {
                return false;
            }
            let (i, j) = (r.below(a.len()), r.below(a.len()));
            match r.below(5) {
                0 | 1 => a.swap(i, j),
                2 => a.reverse(),
                3 => a.insert(j, a[i].clone()),
                _ => drop(a.remove(i)),
            }
        }
        Value::Object(o) => {
            let keys: Vec<String> = o.keys().cloned().collect();
            if keys.is_empty() {
                return false;
            }
            if r.bool() {
                // The opposite of every number.
                for x in o.values_mut() {
                    if let Some(f) = x.as_f64() {
                        *x = match x.as_i64() {
                            Some(i) => Value::from(-i),
                            None => Value::from(-f as f32),
                        };
                    }
                }
            } else {
                let (p, q) = (r.pick(&keys).clone(), r.pick(&keys).clone());
                let (x, y) = (o[&p].clone(), o[&q].clone());
                o.insert(p, y);
                o.insert(q, x);
            }
        }
        _ => return false,
    }
    true
}

/// The same for a list of a replay.
fn shuffle<T: Clone>(v: &mut Vec<T>, r: &mut Rng) {
    if v.is_empty() {
        return;
    }
    let (i, j) = (r.below(v.len()), r.below(v.len()));
    match r.below(5) {
        0 | 1 => v.swap(i, j),
        2 => v.reverse(),
        3 => v.insert(j, v[i].clone()),
        _ => drop(v.remove(i)),
    }
}

fn frames(st: &mut Stats, r: &mut Rng, a: &[Frame], b: &[Frame]) -> Result<(), Viol> {
    lists(st, r, "frames", a, b)?;
    for (x, y) in a.iter().zip(b).take(12) {
        lists(st, r, "creations", &x.new_actors, &y.new_actors)?;
        lists(st, r, "updates", &x.updated_actors, &y.updated_actors)?;
        lists(st, r, "trajectories", &x.new_actors.iter().map(|n| n.initial_trajectory).collect::<Vec<_>>(), &y.new_actors.iter().map(|n| n.initial_trajectory).collect::<Vec<_>>())?;
    }
    let (p, q) = (attributes(a, r, 12), attributes(b, r, 12));
    for x in &p {
        for y in p.iter().chain(&q) {
            both(st, "attributes", x, y)?;
        }
    }
    // One value altered in a saved frame.
    for _ in 0..6 {
        let Some(i) = (!a.is_empty()).then(|| r.below(a.len())) else { break };
        if a[i].updated_actors.len() + a[i].new_actors.len() > 200 {
            continue;
        }
        let Ok(mut v) = serde_json::to_value(&a[i]) else { continue };
        if !alter(&mut v, r) {
            continue;
        }
        let Ok(x) = serde_json::from_value::<Frame>(v) else { continue };
        st.fault("altered_fact");
        both(st, "a frame and one with a value altered", &a[i], &x)?;
        for (u, w) in a[i].updated_actors.iter().zip(&x.updated_actors) {
            both(st, "an update and one with a value altered", u, w)?;
            both(st, "an attribute and one with a value altered", &u.attribute, &w.attribute)?;
            let (h, k) = run(st, "hashing", || (people(&u.attribute).map(key), people(&w.attribute).map(key)))?;
            if h != k && h.is_some() && u.attribute == w.attribute {
                bad!("hash", "equal players have different hashes: {:?}", u.attribute);
            }
        }
        let c = copy(st, "a frame", &x)?;
        both(st, "a frame and the copy of one with a value altered", &a[i], &c)?;
    }
    Ok(())
}
fn people(a: &Attribute) -> Option<&UniqueId> {
    match a {
        Attribute::UniqueId(u) | Attribute::PartyLeader(Some(u)) => Some(u),
        Attribute::Reservation(r) => Some(&r.unique_id),
        _ => None,
    }
}

fn props(st: &mut Stats, r: &mut Rng, a: &[(String, HeaderProp)], b: &[(String, HeaderProp)]) -> Result<(), Viol> {
    let x: Vec<&HeaderProp> = a.iter().map(|p| &p.1).collect();
    for (i, p) in x.iter().enumerate().take(20) {
        if let Some(q) = b.get(i) {
            both(st, "properties", *p, &q.1)?;
        }
        both(st, "properties", *p, *r.pick(&x))?;
    }
    Ok(())
}

fn replays(st: &mut Stats, r: &mut Rng, a: &Replay, b: &Replay) -> Result<(), Viol> {
    both(st, "two replays", a, b)?;
    let mut m = run(st, "copying", || b.clone())?;
    (m.header_crc, m.content_crc, m.header_size, m.content_size) = (a.header_crc, a.content_crc, a.header_size, a.content_size);
    both(st, "two replays but for sizes and checksums", a, &m)?;
    // One field taken from the other file.
    macro_rules! swap {
        ($($f:ident)*) => { [$( &|x: &mut Replay, y: &Replay| x.$f = y.$f.clone() ),*] };
    }
    let fields: [&dyn Fn(&mut Replay, &Replay); 20] = swap!(header_size header_crc major_version minor_version net_version game_type properties content_size content_crc
        network_frames levels keyframes debug_info tick_marks packages objects names class_indices net_cache net_version);
    let mut x = copy(st, "a replay", a)?;
    for _ in 0..2 {
        let k = r.below(fields.len());
        fields[k](&mut x, b);
        both(st, "a replay and one with a field of another file", a, &x)?;
    }
    let mut x = run(st, "copying", || a.clone())?;
    macro_rules! shuffled {
        ($($f:ident)*) => { [$( &|x: &mut Replay, r: &mut Rng| shuffle(&mut x.$f, r) ),*] };
    }
    let lists_of: [&dyn Fn(&mut Replay, &mut Rng); 10] = shuffled!(properties levels keyframes debug_info tick_marks packages objects names class_indices net_cache);
    let k = r.below(lists_of.len() + 2);
    match lists_of.get(k) {
        Some(f) => f(&mut x, r),
        None if k == lists_of.len() => {
            if let Some(c) = (!x.net_cache.is_empty()).then(|| r.below(x.net_cache.len())) {
                shuffle(&mut x.net_cache[c].properties, r);
            }
        }
        None => {
            if let Some(HeaderProp::Array(l)) = x.properties.iter_mut().map(|p| &mut p.1).find(|p| matches!(p, HeaderProp::Array(_))) {
                shuffle(l, r);
                if let Some(e) = l.first_mut() {
                    shuffle(e, r);
                }
            }
        }
    }
    both(st, "a replay and one with a list altered", a, &x)?;
    props(st, r, &a.properties, &b.properties)?;
    macro_rules! each {
        ($($f:ident)*) => { $(lists(st, r, stringify!($f), &a.$f, &b.$f)?;)* };
    }
    each!(levels keyframes debug_info tick_marks packages objects names class_indices net_cache);
    lists(st, r, "cache properties", &a.net_cache.iter().flat_map(|c| c.properties.iter().copied()).take(300).collect::<Vec<_>>(), &b.net_cache.iter().flat_map(|c| c.properties.iter().copied()).take(300).collect::<Vec<_>>())?;
    if let (Some(f), Some(g)) = (&a.network_frames, &b.network_frames) {
        frames(st, r, &f.frames, &g.frames)?;
    }
    // A copy is its own: it outlives the original, whatever became of that.
    let mut over = run(st, "copying", || b.clone())?;
    run(st, "copying over", || over.clone_from(a))?;
    let v = a.v();
    if let Some(d) = crate::val::diff(&v, &over.v()) {
        bad!("copy", "a replay copied over another differs from it{d}");
    }
    let mut first = run(st, "copying", || a.clone())?;
    let second = run(st, "copying a copy", || first.clone())?;
    first.objects.push("x".into());
    first.game_type.clear();
    if let Some(f) = &mut first.network_frames {
        f.frames.clear();
    }
    drop(first);
    if let Some(d) = crate::val::diff(&v, &second.v()) {
        bad!("copy", "the copy of a copy that changed and went differs{d}");
    }
    if let Some(d) = crate::val::diff(&v, &a.v()) {
        bad!("copy", "changing a copy changed the original{d}");
    }
    Ok(())
}

/// What an error states, by its parts.
fn told(e: &ParseError) -> (String, Vec<String>) {
    (glue::debug_error(e), glue::render_error(e))
}
fn errors(st: &mut Stats, a: &ParseError, b: &ParseError) -> Result<(), Viol> {
    let (x, y) = (told(a), told(b));
    let c = run(st, "copying an error", || a.clone())?;
    let t = told(&c);
    if t.1 != x.1 || t.0.len() != x.0.len() {
        bad!("copy", "the copy of an error reads {:?} instead of {:?}", t, x);
    }
    let open = |s: &str| s.contains("NaN") || s.contains("-0.0");
    let plain = !open(&x.0) && !open(&y.0);
    verdict(st, "an error and its copy", a, &c, plain.then_some(true), &|| x.0.clone())?;
    // The order in which a debug text lists a hash table means nothing.
    let letters = |s: &str| {
        let mut v = s.as_bytes().to_vec();
        v.sort_unstable();
        v
    };
    let want = if x == y {
        Some(true)
    } else if letters(&x.0) == letters(&y.0) {
        None
    } else {
        Some(false)
    };
    verdict(st, "two errors", a, b, want.filter(|_| plain), &|| format!("{} and {}", x.0, y.0))
}

impl Prop for C26 {
    type Case = Case;
    const ID: &'static str = "C26";
    const QUICK: u64 = 240_000;
    const RULE: &'static str = "runs whose (set of control-flow edges reached, kinds of outcome compared) differ";
    fn gen(r: &mut Rng, idx: u64) -> Case {
        let mut k = Knobs::small(r);
        k.bulk = 1500;
        k.text_rich = r.bool();
        if r.one_in(30) {
            (k.frames, k.events, k.cheap_attrs) = (30 + r.size(300), 1, true);
        }
        k.wild = r.one_in(6);
        if r.bool() {
            k.focus = Some(attrs::ALL_TAGS[(idx % attrs::ALL_TAGS.len() as u64) as usize]);
            k.cheap_attrs = false;
        }
        let mut shot = if r.one_in(4) { Shot::gen(r, &k, 3) } else { Shot { rec: rec::gen(r, &k), faults: vec![], close: 1 } };
        if r.one_in(5) {
            super::net::plant(r, &mut shot.rec);
            shot.close = 1;
        }
        let n = *r.pick(&[0, 1, 1, 1, 1, 2, 3]);
        let twin = (0..n)
            .map(|_| {
                let reg = *r.pick(&[Reg::Header, Reg::Net, Reg::Net, Reg::Footer, Reg::Front, Reg::Content]);
                match r.below(8) {
                    0 => Fault::Nudge(r.u32(), *r.pick(&[-1, 1, 256, 65536])),
                    1 => faults::gen_in(r, reg),
                    _ => Fault::Flip(reg, r.u32()),
                }
            })
            .collect();
        let o = opts(r);
        let p = if r.one_in(4) { opts(r) } else { o };
        Case { shot, twin, close: !r.one_in(4), opts: (o, p), seed: r.u64() }
    }
    fn exec(c: &Case, st: &mut Stats) -> Result<(), Viol> {
        let mut r = Rng::new(c.seed);
        let (_, mut d) = c.shot.build(st);
        let one = d.bytes.clone();
        d.fired.clear();
        for f in &c.twin {
            d.apply(f);
        }
        if c.close && !c.twin.is_empty() {
            d.refinalize();
        }
        for f in &d.fired {
            st.fault(f);
        }
        let ((a, b), (e, f)) = c.opts;
        let x = read(st, &one, CRCS[a as usize % 3], NETS[b as usize % 3])?;
        let y = read(st, &d.bytes, CRCS[e as usize % 3], NETS[f as usize % 3])?;
        see_out(st, &x);
        see_out(st, &y);
        let mut seen = vec![];
        if let Ok(Some(n)) = x.as_ref().map(|x| x.network_frames.as_ref()) {
            seen.extend(n.frames.iter().take(20).flat_map(|f| f.new_actors.iter().map(|a| a.actor_id.0)).take(50));
            seen.extend(n.frames.iter().take(20).flat_map(|f| f.updated_actors.iter().map(|u| u.stream_id.0)).take(50));
        }
        ids(st, &mut r, &seen)?;
        match (&x, &y) {
            (Ok(p), Ok(q)) => replays(st, &mut r, p, q),
            (Err(p), Err(q)) => errors(st, p, q),
            (Ok(p), Err(q)) | (Err(q), Ok(p)) => {
                errors(st, q, q)?;
                let z = copy(st, "a replay", p)?;
                drop(x);
                drop(y);
                drop(z);
                Ok(())
            }
        }
    }
}
