//! Minimises a failing case: the case is a JSON document, so its structure is
//! all that is needed. Every candidate must fail with the same class.
use serde_json::Value;

#[derive(Clone, Debug)]
enum Step {
    Key(String),
    Idx(usize),
}

fn get<'a>(v: &'a mut Value, p: &[Step]) -> Option<&'a mut Value> {
    let mut c = v;
    for s in p {
        c = match s {
            Step::Key(k) => c.get_mut(k.as_str())?,
            Step::Idx(i) => c.get_mut(*i)?,
        };
    }
    Some(c)
}

fn paths(v: &Value, p: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    out.push(p.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                p.push(Step::Idx(i));
                paths(x, p, out);
                p.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                p.push(Step::Key(k.clone()));
                paths(x, p, out);
                p.pop();
            }
        }
        _ => {}
    }
}

pub struct Shrunk {
    pub case: Value,
    pub tried: u64,
    pub kept: u64,
}

pub fn shrink(start: Value, mut fails: impl FnMut(&Value) -> bool, budget: std::time::Duration) -> Shrunk {
    let t0 = std::time::Instant::now();
    let mut best = start;
    let (mut tried, mut kept) = (0, 0);
    let mut go = |cand: Value, best: &mut Value| -> bool {
        if cand == *best || t0.elapsed() > budget {
            return false;
        }
        tried += 1;
        if fails(&cand) {
            *best = cand;
            kept += 1;
            true
        } else {
            false
        }
    };
    loop {
        let before = best.clone();
        // Big cuts first: drop runs of array elements, outermost arrays first.
        let mut ps = vec![];
        paths(&best, &mut vec![], &mut ps);
        ps.sort_by_key(|p| p.len());
        for p in &ps {
            if t0.elapsed() > budget {
                break;
            }
            let Some(len) = get(&mut best, p).and_then(|v| v.as_array().map(|a| a.len())) else { continue };
            let mut chunk = len;
            while chunk > 0 {
                let mut i = 0;
                loop {
                    let n = get(&mut best, p).and_then(|v| v.as_array().map(|a| a.len())).unwrap_or(0);
                    if i >= n {
                        break;
                    }
                    let mut c = best.clone();
                    get(&mut c, p).unwrap().as_array_mut().unwrap().drain(i..(i + chunk).min(n));
                    if !go(c, &mut best) {
                        i += chunk;
                    }
                    if t0.elapsed() > budget {
                        break;
                    }
                }
                chunk /= 2;
            }
        }
        // Then simpler values.
        let mut ps = vec![];
        paths(&best, &mut vec![], &mut ps);
        for p in &ps {
            if t0.elapsed() > budget {
                break;
            }
            let Some(v) = get(&mut best, p).cloned() else { continue };
            let cands: Vec<Value> = match &v {
                Value::Number(n) => {
                    if let Some(u) = n.as_u64() {
                        let mut c: Vec<u64> = vec![0, 1];
                        let mut s = 1;
                        while s < 64 && (u >> s) > 0 {
                            c.push(u >> s);
                            s *= 2;
                        }
                        if u > 0 {
                            c.push(u - 1);
                        }
                        c.retain(|&x| x < u);
                        c.sort();
                        c.dedup();
                        c.into_iter().map(Value::from).collect()
                    } else if let Some(i) = n.as_i64() {
                        [0, -1, i / 2].into_iter().filter(|x| *x > i).map(Value::from).collect()
                    } else {
                        vec![]
                    }
                }
                Value::String(s) if !s.is_empty() => {
                    let half: String = s.chars().take(s.chars().count() / 2).collect();
                    vec![Value::from(""), Value::from(half)]
                }
                Value::Bool(true) => vec![Value::Bool(false)],
                Value::Object(o) if o.len() == 1 => {
                    // a nested enum value: try its own children in its place
                    let inner = o.values().next().unwrap();
                    match inner {
                        Value::Array(a) => a.iter().filter(|x| x.is_object()).cloned().collect(),
                        _ => vec![],
                    }
                }
                _ => vec![],
            };
            for c in cands {
                let mut b = best.clone();
                *get(&mut b, p).unwrap() = c;
                if go(b, &mut best) {
                    break;
                }
            }
        }
        if best == before || t0.elapsed() > budget {
            break;
        }
    }
    Shrunk { case: best, tried, kept }
}
