//! The instrumented instantiations of the system under test. Everything in
//! here is what an application linked against boxcars would compile; it is
//! built with edge callbacks so that the simulator owns its logical clock.
use boxcars::{CrcCheck, Frame, NetworkParse, ParseError, ParserBuilder, Replay};
use std::io::{Read, Write};

#[inline(never)]
pub fn parse(data: &[u8], crc: CrcCheck, net: NetworkParse) -> Result<Replay, ParseError> {
    ParserBuilder::new(data)
        .with_crc_check(crc)
        .with_network_parse(net)
        .parse()
}

/// Same options through the other spellings of the builder. `crc`: 0 always,
/// 1 never, 2 on error, 3 unset; `net`: 0 always, 1 never, 2 ignore, 3 unset.
/// `dirty` selects other options first, which the last call must override.
#[inline(never)]
pub fn parse_spelled(data: &[u8], crc: u8, net: u8, dirty: u8) -> Result<Replay, ParseError> {
    let mut b = ParserBuilder::new(data);
    if dirty & 1 != 0 && crc != 3 {
        b = b.always_check_crc();
    }
    if dirty & 2 != 0 && net != 3 {
        b = b.must_parse_network_data();
    }
    if dirty & 4 != 0 && crc != 3 {
        b = b.with_crc_check(CrcCheck::Never);
    }
    if dirty & 8 != 0 && net != 3 {
        b = b.never_parse_network_data();
    }
    let netfirst = dirty & 16 != 0;
    fn n<'a>(b: ParserBuilder<'a>, net: u8) -> ParserBuilder<'a> {
        match net {
            0 => b.must_parse_network_data(),
            1 => b.never_parse_network_data(),
            2 => b.ignore_network_data_on_error(),
            _ => b,
        }
    }
    fn c<'a>(b: ParserBuilder<'a>, crc: u8) -> ParserBuilder<'a> {
        match crc {
            0 => b.always_check_crc(),
            1 => b.never_check_crc(),
            2 => b.on_error_check_crc(),
            _ => b,
        }
    }
    b = if netfirst { c(n(b, net), crc) } else { n(c(b, crc), net) };
    if dirty & 32 != 0 {
        b = b.clone();
    }
    b.parse()
}

/// Everything a caller can do with an error: print it, its causes and its
/// debug form.
#[inline(never)]
pub fn render_error(e: &ParseError) -> Vec<String> {
    let mut out = vec![e.to_string()];
    let mut cur: Option<&(dyn std::error::Error + 'static)> = std::error::Error::source(e);
    let mut n = 0;
    while let Some(s) = cur {
        out.push(s.to_string());
        cur = s.source();
        n += 1;
        if n > 64 {
            out.push("<endless cause chain>".into());
            break;
        }
    }
    out
}

/// The message alone, into the caller's own text sink.
#[inline(never)]
pub fn render_into(e: &ParseError, w: &mut dyn std::fmt::Write) -> std::fmt::Result {
    write!(w, "{e}")
}

#[inline(never)]
pub fn debug_error(e: &ParseError) -> String {
    format!("{:?}", e)
}

#[inline(never)]
pub fn debug_replay(r: &Replay) -> String {
    format!("{:?}", r)
}

#[inline(never)]
pub fn clone_eq_replay(r: &Replay) -> (Replay, bool) {
    let c = r.clone();
    let e = c == *r;
    (c, e)
}

#[inline(never)]
pub fn clone_eq_error(r: &ParseError) -> (ParseError, bool) {
    let c = r.clone();
    let e = c == *r;
    (c, e)
}

#[inline(never)]
pub fn drop_outcome(r: Result<Replay, ParseError>) {
    drop(r)
}

struct W<'a>(&'a mut dyn Write);
impl Write for W<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.flush()
    }
}
struct R<'a>(&'a mut dyn Read);
impl Read for R<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0.read(b)
    }
}

#[inline(never)]
pub fn json_bytes(r: &Replay) -> Result<Vec<u8>, serde_json::Error> {
    serde_json::to_vec(r)
}

#[inline(never)]
pub fn json_sink(r: &Replay, pretty: bool, w: &mut dyn Write) -> Result<(), serde_json::Error> {
    if pretty {
        serde_json::to_writer_pretty(W(w), r)
    } else {
        serde_json::to_writer(W(w), r)
    }
}

#[inline(never)]
pub fn json_frames(f: &Vec<Frame>, pretty: bool, w: &mut dyn Write) -> Result<(), serde_json::Error> {
    if pretty {
        serde_json::to_writer_pretty(W(w), f)
    } else {
        serde_json::to_writer(W(w), f)
    }
}

#[inline(never)]
pub fn load_frames(r: &mut dyn Read) -> Result<Vec<Frame>, serde_json::Error> {
    serde_json::from_reader(R(r))
}

#[inline(never)]
pub fn load_frames_slice(b: &[u8]) -> Result<Vec<Frame>, serde_json::Error> {
    serde_json::from_slice(b)
}

/// Through the self-describing in-memory tree.
#[inline(never)]
pub fn value_roundtrip(f: &Vec<Frame>) -> Result<Vec<Frame>, serde_json::Error> {
    let v = serde_json::to_value(f)?;
    serde_json::from_value(v)
}

#[inline(never)]
pub fn calc_crc(data: &[u8]) -> u32 {
    boxcars::crc::calc_crc(data)
}
