//! What reading one file comes to, said in words that mean the same on every
//! machine: no address, no hash order, no machine word. Compiled into the
//! simulator and into the program that runs on the simulated machines.
use crate::posfmt;
use boxcars::{CrcCheck, Frame, HeaderProp, NetworkParse, ParseError, ParserBuilder, Replay};
use serde::Serialize;
use std::error::Error;

pub type Parts = Vec<(&'static str, Vec<u8>)>;

fn saved<T: Serialize>(v: &T) -> Vec<u8> {
    posfmt::save_canon(v).unwrap_or_else(|e| format!("not saved: {e}").into_bytes())
}
fn put(o: &mut Vec<u8>, s: &str) {
    o.extend_from_slice(&(s.len() as u32).to_le_bytes());
    o.extend_from_slice(s.as_bytes());
}
fn props(o: &mut Vec<u8>, v: &[(String, HeaderProp)]) {
    o.extend_from_slice(&(v.len() as u32).to_le_bytes());
    for (k, x) in v {
        put(o, k);
        prop(o, x);
    }
}
fn prop(o: &mut Vec<u8>, v: &HeaderProp) {
    match v {
        HeaderProp::Array(a) => {
            o.push(0);
            o.extend_from_slice(&(a.len() as u32).to_le_bytes());
            for x in a {
                props(o, x);
            }
        }
        HeaderProp::Bool(x) => o.extend_from_slice(&[1, *x as u8]),
        HeaderProp::Byte { kind, value } => {
            o.push(2);
            put(o, kind);
            put(o, value.as_deref().unwrap_or("<none>"));
        }
        HeaderProp::Float(x) => {
            o.push(3);
            o.extend_from_slice(&x.to_bits().to_le_bytes());
        }
        HeaderProp::Int(x) => {
            o.push(4);
            o.extend_from_slice(&x.to_le_bytes());
        }
        HeaderProp::Name(x) => {
            o.push(5);
            put(o, x);
        }
        HeaderProp::QWord(x) => {
            o.push(6);
            o.extend_from_slice(&x.to_le_bytes());
        }
        HeaderProp::Str(x) => {
            o.push(7);
            put(o, x);
        }
        HeaderProp::Struct { name, fields } => {
            o.push(8);
            put(o, name);
            props(o, fields);
        }
    }
}

/// A list with an impossible count carries the count as a machine word; every
/// machine agrees on its low 32 bits.
fn word(e: &ParseError) -> Option<usize> {
    match e {
        ParseError::ListTooLarge(n) => Some(*n),
        ParseError::ParseError(_, _, b) | ParseError::CorruptReplay(_, b) => word(b),
        _ => None,
    }
}
fn text(s: String, w: Option<usize>) -> String {
    match w {
        Some(n) => s.replace(&n.to_string(), &(n as u32).to_string()),
        None => s,
    }
}

fn error(e: &ParseError, out: &mut Parts) {
    let mut cur = e;
    let mut path = vec![];
    loop {
        cur = match cur {
            ParseError::ParseError(s, at, b) => {
                path.push(format!("in {s} at {at}"));
                b
            }
            ParseError::CorruptReplay(s, b) => {
                path.push(format!("corrupt {s}"));
                b
            }
            ParseError::ListTooLarge(n) => {
                path.push(format!("list of {} is too large", *n as u32));
                break;
            }
            ParseError::NetworkError(n) => {
                path.push(format!("network: {n}"));
                break;
            }
            last => {
                path.push(format!("{last:?}"));
                break;
            }
        };
    }
    let w = word(e);
    out.push(("error", path.join(" / ").into_bytes()));
    out.push(("error text", text(e.to_string(), w).into_bytes()));
    let mut causes = vec![];
    let mut cur = e.source();
    while let Some(c) = cur {
        if causes.len() > 64 {
            break;
        }
        causes.push(text(c.to_string(), w));
        cur = c.source();
    }
    out.push(("causes", causes.join(" / ").into_bytes()));
}

fn replay(r: &Replay, more: u8, out: &mut Parts) {
    out.push(("header fields", format!("{} {:08x} {} {} {:?} {:?}", r.header_size, r.header_crc, r.major_version, r.minor_version, r.net_version, r.game_type).into_bytes()));
    out.push(("content fields", format!("{} {:08x}", r.content_size, r.content_crc).into_bytes()));
    let mut o = vec![];
    props(&mut o, &r.properties);
    out.push(("properties", o));
    out.push(("levels", saved(&r.levels)));
    out.push(("keyframes", saved(&r.keyframes)));
    out.push(("debug info", saved(&r.debug_info)));
    out.push(("tick marks", saved(&r.tick_marks)));
    out.push(("packages", saved(&r.packages)));
    out.push(("objects", saved(&r.objects)));
    out.push(("names", saved(&r.names)));
    out.push(("class indices", saved(&r.class_indices)));
    out.push(("net cache", saved(&r.net_cache)));
    match &r.network_frames {
        None => out.push(("frames", vec![])),
        Some(f) => {
            out.push(("frames", (f.frames.len() as u32).to_le_bytes().to_vec()));
            for x in &f.frames {
                out.push(("frame", saved(x)));
            }
            if more & 1 != 0 {
                restored(&f.frames, out);
            }
        }
    }
    if more & 2 != 0 {
        out.push(("JSON", serde_json::to_vec(r).unwrap_or_else(|e| e.to_string().into_bytes())));
    }
}

fn restored(f: &Vec<Frame>, out: &mut Parts) {
    let all = posfmt::save(f).unwrap_or_default();
    let back = match posfmt::load::<Vec<Frame>>(&mut &all[..]) {
        Ok(v) => saved(&v),
        Err(e) => e.to_string().into_bytes(),
    };
    out.push(("frames saved and restored", back));
    let all = serde_json::to_vec(f).unwrap_or_default();
    let back = match serde_json::from_slice::<Vec<Frame>>(&all) {
        Ok(v) => saved(&v),
        Err(e) => e.to_string().into_bytes(),
    };
    out.push(("frames saved as JSON and restored", back));
}

/// `more`: 1 the frames are also saved and restored, 2 the whole as JSON.
pub fn outcome(data: &[u8], crc: u8, net: u8, more: u8) -> Parts {
    let c = [CrcCheck::Always, CrcCheck::Never, CrcCheck::OnError][crc as usize % 3];
    let n = [NetworkParse::Always, NetworkParse::Never, NetworkParse::IgnoreOnError][net as usize % 3];
    let mut out = vec![];
    match ParserBuilder::new(data).with_crc_check(c).with_network_parse(n).parse() {
        Ok(r) => replay(&r, more, &mut out),
        Err(e) => error(&e, &mut out),
    }
    let k = data.len().min(300);
    out.push(("checksum", format!("{:08x} {:08x}", boxcars::crc::calc_crc(&data[..k]), boxcars::crc::calc_crc(&data[k / 3..k])).into_bytes()));
    out
}
