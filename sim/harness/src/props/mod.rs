use crate::faults::{self, Dmg, Fault};
use crate::prop::*;
use crate::rec::{self, Image, Knobs, Rec};
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::marker::PhantomData;

pub mod c01;
pub mod copy;
pub mod cost;
pub mod load;
pub mod mach;
pub mod net;
pub mod par;
pub mod ser;
pub mod sect;
pub mod selftest;
pub mod touch;

pub fn all() -> Vec<Box<dyn Dyn>> {
    vec![
        Box::new(P::<c01::C01>(PhantomData)),
        Box::new(P::<load::C02>(PhantomData)),
        Box::new(P::<load::C03>(PhantomData)),
        Box::new(P::<sect::C04>(PhantomData)),
        Box::new(P::<sect::C05>(PhantomData)),
        Box::new(P::<sect::C06>(PhantomData)),
        Box::new(P::<sect::C07>(PhantomData)),
        Box::new(P::<net::C08>(PhantomData)),
        Box::new(P::<net::C09>(PhantomData)),
        Box::new(P::<net::C10>(PhantomData)),
        Box::new(P::<net::C11>(PhantomData)),
        Box::new(P::<net::C12>(PhantomData)),
        Box::new(P::<par::C13>(PhantomData)),
        Box::new(P::<par::C14>(PhantomData)),
        Box::new(P::<net::C15>(PhantomData)),
        Box::new(P::<ser::C16>(PhantomData)),
        Box::new(P::<ser::C17>(PhantomData)),
        Box::new(P::<mach::C22>(PhantomData)),
        Box::new(P::<sect::C23>(PhantomData)),
        Box::new(P::<cost::C24>(PhantomData)),
        Box::new(P::<cost::C25>(PhantomData)),
        Box::new(P::<copy::C26>(PhantomData)),
        Box::new(P::<touch::C27>(PhantomData)),
    ]
}
pub fn by_id(id: &str) -> Option<Box<dyn Dyn>> {
    all().into_iter().find(|p| p.id() == id)
}

/// A recording and what happened to it afterwards.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Shot {
    pub rec: Rec,
    pub faults: Vec<Fault>,
    /// 0: as is; 1: the writer closes the file over the damage (sizes and
    /// checksums); 2: checksums only.
    pub close: u8,
}

impl Shot {
    pub fn build(&self, st: &mut Stats) -> (Image, Dmg) {
        let img = self.rec.image();
        let mut d = Dmg::new(&img);
        for f in &self.faults {
            d.apply(f);
        }
        match self.close {
            1 => d.refinalize(),
            2 => d.recrc(),
            _ => {}
        }
        for f in &d.fired {
            st.fault(f);
        }
        (img, d)
    }
    pub fn gen(r: &mut Rng, k: &Knobs, max: usize) -> Shot {
        let rec = rec::gen(r, k);
        let n = if r.one_in(8) { 0 } else { 1 + r.size(max.max(2) - 1) };
        let faults = (0..n).map(|_| faults::gen_any(r)).collect();
        Shot { rec, faults, close: *r.pick(&[0, 0, 1, 1, 1, 2]) }
    }
}

pub fn opts(r: &mut Rng) -> (u8, u8) {
    (r.below(3) as u8, r.below(3) as u8)
}
