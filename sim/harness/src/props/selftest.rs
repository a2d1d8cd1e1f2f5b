//! Checks of the simulator itself.
use super::*;
use crate::{refbody, refdec, val};
use boxcars::{CrcCheck, NetworkParse};

pub fn run(a: &[String]) -> i32 {
    let mut bad = 0;
    // Real replays against the reference readers.
    for p in a {
        let Ok(d) = std::fs::read(p) else { continue };
        let r = refbody::read(&d);
        let sut = glue::parse(&d, CrcCheck::Always, NetworkParse::Always);
        match (sut, &r.replay) {
            (Ok(mut s), Some(x)) => {
                let f = s.network_frames.take();
                if let Some(m) = val::diff_replay(x, &s) {
                    println!("{p}: body differs: {m}");
                    bad += 1;
                }
                let w = match refbody::world(x) {
                    Ok(w) => w,
                    Err(e) => {
                        println!("{p}: {e:?}");
                        bad += 1;
                        continue;
                    }
                };
                let dec = refdec::decode(&w, &d[r.net.0..r.net.1], w.num_frames.unwrap_or(0) as usize);
                let f = f.unwrap().frames;
                if dec.fault.is_some() || val::diff_frames(&dec.frames, &f).is_some() {
                    println!("{p}: {} vs {} frames: {:?} {:?}", dec.frames.len(), f.len(), dec.fault, val::diff_frames(&dec.frames, &f));
                    bad += 1;
                }
            }
            (Err(e), None) => println!("{p}: both refuse: {}", kind(&e)),
            (Err(e), Some(x)) => {
                let k = match refbody::world(x) {
                    Err(e) => format!("{e:?}"),
                    Ok(w) => {
                        let dec = refdec::decode(&w, &d[r.net.0..r.net.1], w.num_frames.unwrap_or(0) as usize);
                        format!("{:?}", dec.fault)
                    }
                };
                println!("{p}: sut {} / reference {k}", kind(&e));
            }
            (Ok(_), None) => {
                println!("{p}: reference refuses {:?}", r.header.map(|h| h.read));
                bad += 1;
            }
        }
    }
    println!("{} files, {bad} disagreements", a.len());
    (bad > 0) as i32
}
