//! The program on a simulated machine: reads cases from its input, writes what
//! reading them came to. Case: length (u32), crc option, network option,
//! what more to do, file.
#[path = "../../harness/src/posfmt.rs"]
#[allow(dead_code)]
mod posfmt;
mod judge;
use std::io::{Read, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut i = std::io::stdin();
    let mut o = std::io::stdout();
    let mut hello = vec![];
    say(&mut hello, &[("machine", format!("{} bits {} {}", usize::BITS, if cfg!(target_endian = "big") { "big" } else { "little" }, if cfg!(debug_assertions) { "debug" } else { "release" }).into_bytes())]);
    o.write_all(&hello).unwrap();
    o.flush().unwrap();
    let mut head = [0u8; 7];
    while i.read_exact(&mut head).is_ok() {
        let n = u32::from_le_bytes([head[0], head[1], head[2], head[3]]) as usize;
        let mut data = vec![0; n];
        if i.read_exact(&mut data).is_err() {
            return;
        }
        let mut ans = vec![];
        match std::panic::catch_unwind(|| judge::outcome(&data, head[4], head[5], head[6])) {
            Ok(v) => say(&mut ans, &v),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()));
                say(&mut ans, &[("panic", m.unwrap_or_default().into_bytes())]);
            }
        }
        o.write_all(&ans).unwrap();
        o.flush().unwrap();
    }
}

/// Length, then for each part the lengths and texts of its name and content.
fn say(out: &mut Vec<u8>, v: &[(&'static str, Vec<u8>)]) {
    let mut t = vec![];
    for (k, s) in v {
        for x in [k.as_bytes(), s.as_slice()] {
            t.extend_from_slice(&(x.len() as u32).to_le_bytes());
            t.extend_from_slice(x);
        }
    }
    out.extend_from_slice(&(t.len() as u32).to_le_bytes());
    out.extend_from_slice(&t);
}
