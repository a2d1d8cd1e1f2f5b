//! What a property check is: a generator of explicit cases and an executor
//! that judges one case. One (seed, run index) is one case is one execution.
use crate::rng::{fnv, mix, Rng};
use crate::seam::{self, Limits, Meter};
use boxcars::{CrcCheck, NetworkParse, ParseError, Replay};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol {
    /// Kind of violation; a minimised case must show the same kind.
    pub class: String,
    pub msg: String,
}
pub fn viol<T>(class: &str, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { class: class.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! bad {
    ($c:expr, $($a:tt)*) => { return $crate::prop::viol($c, format!($($a)*)) };
}

#[derive(Default, Serialize, Deserialize, Clone, Debug)]
pub struct Stats {
    pub runs: u64,
    /// Calls into the system under test.
    pub calls: u64,
    /// Logical time: executed control-flow edges, allocations and words moved.
    pub steps: u64,
    pub faults: BTreeMap<String, u64>,
    pub counts: BTreeMap<String, u64>,
    /// Distinct sets of control-flow edges reached by a run.
    pub cov: HashSet<u64>,
    /// Distinct (edge set, outcome) or schedule traces.
    pub states: HashSet<u64>,
    pub edges: HashSet<u32>,
    pub samples: Vec<Value>,
    pub maxima: BTreeMap<String, f64>,
    #[serde(skip)]
    pub state: u64,
}

impl Stats {
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        match self.counts.get_mut(k) {
            Some(x) => *x += n,
            None => {
                self.counts.insert(k.into(), n);
            }
        }
    }
    pub fn fault(&mut self, k: &str) {
        match self.faults.get_mut(k) {
            Some(x) => *x += 1,
            None => {
                self.faults.insert(k.into(), 1);
            }
        }
    }
    pub fn max(&mut self, k: &str, v: f64) {
        let e = self.maxima.entry(k.into()).or_insert(v);
        if v > *e {
            *e = v;
        }
    }
    /// Folds something observed into this run's state.
    pub fn see(&mut self, x: u64) {
        self.state = mix(self.state ^ x);
    }
    pub fn see_str(&mut self, x: &str) {
        self.see(fnv(1, x.as_bytes()))
    }
    pub fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.calls += o.calls;
        self.steps += o.steps;
        for (k, v) in o.faults {
            *self.faults.entry(k).or_default() += v;
        }
        for (k, v) in o.counts {
            *self.counts.entry(k).or_default() += v;
        }
        self.cov.extend(o.cov);
        self.states.extend(o.states);
        self.edges.extend(o.edges);
        self.samples.extend(o.samples);
        for (k, v) in o.maxima {
            let e = self.maxima.entry(k).or_insert(v);
            if v > *e {
                *e = v;
            }
        }
    }
    pub fn begin(&mut self) {
        self.state = 0;
        seam::cov_clear();
    }
    pub fn end(&mut self) {
        self.runs += 1;
        let (h, _) = seam::cov_hash();
        if self.cov.insert(h) {
            self.edges.extend(seam::cov_edges());
        }
        self.states.insert(mix(h ^ self.state));
    }
}

pub trait Prop: Sync + Send {
    type Case: Serialize + DeserializeOwned;
    const ID: &'static str;
    /// Runs in a quick check; a thorough check does `THOROUGH` times as many.
    const QUICK: u64;
    const THOROUGH: u64 = 20;
    /// Seconds after which a quick check starts no further run.
    const SECS: u64 = 100;
    const RULE: &'static str;
    const REAL: &'static str = "all of boxcars, bitter, fnv, encoding_rs, phf (instrumented), serde and serde_json where results are saved";
    const STUB: &'static str = "recorder (game), disk and transfer, allocator accounting, entropy, clock";
    /// Each case runs in a forked child, so every execution starts from a
    /// process that has never called the library.
    const FORK: bool = false;
    fn gen(r: &mut Rng, idx: u64) -> Self::Case;
    fn exec(c: &Self::Case, st: &mut Stats) -> Result<(), Viol>;
}

pub trait Dyn: Sync + Send {
    fn id(&self) -> &'static str;
    fn runs(&self, thorough: bool) -> u64;
    fn secs(&self) -> u64;
    fn rule(&self) -> &'static str;
    fn parts(&self) -> (&'static str, &'static str);
    fn fork(&self) -> bool;
    fn run(&self, seed: u64, idx: u64, st: &mut Stats) -> Result<(), Viol>;
    fn case(&self, seed: u64, idx: u64) -> Value;
    /// None when the text is no case of this property.
    fn exec(&self, v: &Value, st: &mut Stats) -> Option<Result<(), Viol>>;
    fn parses(&self, v: &Value) -> bool;
}

pub struct P<T>(pub std::marker::PhantomData<T>);

fn rng(id: &str, seed: u64, idx: u64) -> Rng {
    Rng::new(mix(seed) ^ mix(fnv(7, id.as_bytes())) ^ mix(idx.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x51))
}

impl<T: Prop> Dyn for P<T> {
    fn id(&self) -> &'static str {
        T::ID
    }
    fn runs(&self, thorough: bool) -> u64 {
        T::QUICK * if thorough { T::THOROUGH } else { 1 }
    }
    fn secs(&self) -> u64 {
        T::SECS
    }
    fn rule(&self) -> &'static str {
        T::RULE
    }
    fn parts(&self) -> (&'static str, &'static str) {
        (T::REAL, T::STUB)
    }
    fn fork(&self) -> bool {
        T::FORK
    }
    fn run(&self, seed: u64, idx: u64, st: &mut Stats) -> Result<(), Viol> {
        let c = T::gen(&mut rng(T::ID, seed, idx), idx);
        st.begin();
        let r = T::exec(&c, st);
        st.end();
        r
    }
    fn case(&self, seed: u64, idx: u64) -> Value {
        serde_json::to_value(T::gen(&mut rng(T::ID, seed, idx), idx)).unwrap()
    }
    fn exec(&self, v: &Value, st: &mut Stats) -> Option<Result<(), Viol>> {
        let c: T::Case = T::Case::deserialize(v).ok()?;
        st.begin();
        let r = T::exec(&c, st);
        st.end();
        Some(r)
    }
    fn parses(&self, v: &Value) -> bool {
        T::Case::deserialize(v).is_ok()
    }
}

pub const CRCS: [CrcCheck; 3] = [CrcCheck::Always, CrcCheck::Never, CrcCheck::OnError];
pub const NETS: [NetworkParse; 3] = [NetworkParse::Always, NetworkParse::Never, NetworkParse::IgnoreOnError];

pub type Out = Result<Replay, ParseError>;

/// One metered read. A panic is a violation wherever it shows.
pub fn read(st: &mut Stats, data: &[u8], crc: CrcCheck, net: NetworkParse) -> Result<Out, Viol> {
    read_m(st, data, crc, net, Limits::default()).map(|x| x.0)
}
pub fn read_m(st: &mut Stats, data: &[u8], crc: CrcCheck, net: NetworkParse, lim: Limits) -> Result<(Out, Meter), Viol> {
    let (r, m) = seam::metered(lim, || glue::parse(data, crc, net));
    st.calls += 1;
    st.steps += m.steps;
    match r {
        Ok(o) => {
            st.count(match &o {
                Ok(r) if r.network_frames.is_some() => "outcome: replay with frames",
                Ok(_) => "outcome: replay without frames",
                Err(_) => "outcome: error",
            });
            Ok((o, m))
        }
        Err(p) => viol("panic", format!("reading with {crc:?}/{net:?} panicked: {p}")),
    }
}

/// The error chain from the outermost error to the network error or plain
/// cause.
pub fn chain(e: &ParseError) -> Vec<&ParseError> {
    let mut v = vec![e];
    let mut c = e;
    loop {
        c = match c {
            ParseError::ParseError(_, _, b) => b,
            ParseError::CorruptReplay(_, b) => b,
            _ => return v,
        };
        v.push(c);
    }
}
pub fn kind(e: &ParseError) -> String {
    chain(e)
        .iter()
        .map(|e| match e {
            ParseError::ParseError(s, ..) => format!("in {s}"),
            ParseError::Utf8Error(_) => "utf8".into(),
            ParseError::TextTooLarge(_) => "text too large".into(),
            ParseError::InsufficientData(..) => "insufficient data".into(),
            ParseError::UnexpectedProperty(_) => "unexpected property".into(),
            ParseError::CrcMismatch(..) => "crc mismatch".into(),
            ParseError::CorruptReplay(s, _) => format!("corrupt {s}"),
            ParseError::ListTooLarge(_) => "list too large".into(),
            ParseError::NetworkError(n) => {
                let s = format!("{n:?}");
                let w: String = s.chars().take_while(|c| c.is_alphanumeric()).collect();
                if let boxcars::NetworkError::FrameError(f, _) = &**n {
                    let s = format!("{f:?}");
                    let k: String = s.chars().take_while(|c| c.is_alphanumeric()).collect();
                    format!("network {w} {k}")
                } else {
                    format!("network {w}")
                }
            }
            #[allow(unreachable_patterns)]
            _ => "other".into(),
        })
        .collect::<Vec<_>>()
        .join(" / ")
}
pub fn show(o: &Out) -> String {
    match o {
        Ok(r) => format!(
            "a replay ({})",
            match &r.network_frames {
                Some(f) => format!("{} frames", f.frames.len()),
                None => "no frames".into(),
            }
        ),
        Err(e) => format!("error [{}]", kind(e)),
    }
}
pub fn see_out(st: &mut Stats, o: &Out) {
    match o {
        Ok(r) => st.see(r.network_frames.as_ref().map(|f| f.frames.len() as u64 + 2).unwrap_or(1)),
        Err(e) => {
            let k = kind(e);
            st.see_str(&k);
            st.count(&format!("error: {k}"));
        }
    }
}
