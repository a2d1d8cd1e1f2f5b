//! What a reader must know before the first frame: versions, limits, class
//! tables. Computed from the recorded header and footer in the plainest way.
use crate::attrs::{Ctx, Ver};
use crate::bitio::width;
use crate::tables::{self, Spawn, Tag};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, PartialEq)]
pub enum TableErr {
    /// stream id, object index
    StreamTooLarge(i32, i32),
    TooManyFrames(i32),
}

#[derive(Clone, Debug)]
pub struct Table {
    pub attrs: BTreeMap<i32, (Option<Tag>, i32)>,
    pub max: i32,
}
impl Table {
    pub fn bits(&self) -> u32 {
        width(self.max as u64).max(1) - 1
    }
    pub fn max_u64(&self) -> u64 {
        self.max as u32 as u64
    }
}

#[derive(Clone, Debug)]
pub struct World {
    pub ctx: Ctx,
    pub lan: bool,
    pub max_channels: u32,
    pub num_frames: Option<i32>,
    pub spawns: Vec<Spawn>,
    pub tables: Vec<Option<std::rc::Rc<Table>>>,
    pub objects: Vec<String>,
}

pub fn normalize(name: &str) -> &str {
    const P: &str = "TheWorld:PersistentLevel.";
    if name.len() <= "TheWorld:PersistentLevel.CrowdActor_TA".len() {
        return name;
    }
    let rest = match name.strip_prefix(P) {
        Some(r) => r,
        None => match name.split_once('.').and_then(|(_, s)| s.strip_prefix(P)) {
            Some(r) => r,
            None => return name,
        },
    };
    for (p, full) in INSTANCES {
        if rest.starts_with(p) {
            return full;
        }
    }
    name
}
pub static INSTANCES: &[(&str, &str)] = &[
    ("CrowdActor_TA", "TheWorld:PersistentLevel.CrowdActor_TA"),
    ("CrowdManager_TA", "TheWorld:PersistentLevel.CrowdManager_TA"),
    ("VehiclePickup_Boost_TA", "TheWorld:PersistentLevel.VehiclePickup_Boost_TA"),
    ("InMapScoreboard_TA", "TheWorld:PersistentLevel.InMapScoreboard_TA"),
    ("BreakOutActor_Platform_TA", "TheWorld:PersistentLevel.BreakOutActor_Platform_TA"),
    ("PlayerStart_Platform_TA", "TheWorld:PersistentLevel.PlayerStart_Platform_TA"),
];

pub struct Inputs<'a> {
    pub ver: Ver,
    pub num_frames: Option<i32>,
    pub max_channels: Option<i32>,
    pub lan: bool,
    pub build: Option<&'a str>,
    pub objects: Vec<String>,
    /// (object index, properties (object index, stream id))
    pub cache: Vec<(i32, Vec<(i32, i32)>)>,
}

impl World {
    pub fn new(i: Inputs<'_>) -> Result<World, TableErr> {
        let mut first: HashMap<&str, usize> = HashMap::new();
        for (k, n) in i.objects.iter().enumerate() {
            first.entry(n.as_str()).or_insert(k);
        }
        let chain = |name: &str| -> Vec<usize> {
            let mut v = vec![];
            let mut cur = name;
            while let Some(p) = tables::parent(normalize(cur)) {
                if let Some(&k) = first.get(cur) {
                    v.push(k);
                }
                cur = p;
            }
            v
        };
        let mut own: HashMap<usize, Vec<(i32, Option<Tag>, i32)>> = HashMap::new();
        for (obj, props) in &i.cache {
            for &(po, st) in props {
                let Some(n) = usize::try_from(po).ok().and_then(|k| i.objects.get(k)) else {
                    return Err(TableErr::StreamTooLarge(st, po));
                };
                if *obj >= 0 {
                    own.entry(*obj as usize).or_default().push((st, tables::attr(n), po));
                }
            }
        }
        let mut spawns = vec![Spawn::None; i.objects.len()];
        let mut tabs: Vec<Option<std::rc::Rc<Table>>> = vec![None; i.objects.len()];
        for (k, n) in i.objects.iter().enumerate() {
            if first[n.as_str()] != k {
                continue;
            }
            let ch = chain(n);
            spawns[k] = match tables::spawn(n) {
                Some(s) => s,
                None => ch.iter().find_map(|&a| tables::spawn(&i.objects[a])).unwrap_or(Spawn::None),
            };
            if ch.is_empty() {
                continue;
            }
            let mut t = BTreeMap::new();
            for &a in ch.iter().rev() {
                for &(st, tag, po) in own.get(&a).map(|v| v.as_slice()).unwrap_or(&[]) {
                    t.insert(st, (tag, po));
                }
            }
            let max = t.keys().next_back().copied().unwrap_or(2).saturating_add(1);
            tabs[k] = Some(std::rc::Rc::new(Table { attrs: t, max }));
        }
        let by = |n: &str| first.get(n).map(|&k| k as i32);
        let ctx = Ctx {
            ver: i.ver,
            rl223: i.build.map(|b| b >= "221120.42953.406184").unwrap_or(false),
            prod: [
                by("TAGame.ProductAttribute_UserColor_TA"),
                by("TAGame.ProductAttribute_Painted_TA"),
                by("TAGame.ProductAttribute_TitleID_TA"),
                by("TAGame.ProductAttribute_SpecialEdition_TA"),
                by("TAGame.ProductAttribute_TeamEdition_TA"),
            ],
            nobj: i.objects.len() as i32,
        };
        Ok(World {
            ctx,
            lan: i.lan,
            max_channels: i.max_channels.unwrap_or(1023) as u32,
            num_frames: i.num_frames,
            spawns,
            tables: tabs,
            objects: i.objects,
        })
    }
    pub fn has_name(&self) -> bool {
        let v = self.ctx.ver;
        v >= (868, 20, 0) || (v >= (868, 14, 0) && !self.lan)
    }
    pub fn table(&self, obj: i32) -> Option<&std::rc::Rc<Table>> {
        usize::try_from(obj).ok().and_then(|k| self.tables.get(k)).and_then(|t| t.as_ref())
    }
}
