//! A strict JSON reader of its own (RFC 8259, duplicate names kept in order)
//! and the comparison of a document with the values it must state.
use crate::val::Val;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}
type R<T> = Result<T, String>;

pub fn parse(b: &[u8]) -> R<J> {
    std::str::from_utf8(b).map_err(|e| format!("not UTF-8: {e}"))?;
    let mut p = P { b, i: 0 };
    p.ws();
    let v = p.value(0)?;
    p.ws();
    if p.i != b.len() {
        return p.err("something follows the document");
    }
    Ok(v)
}

impl P<'_> {
    fn err<T>(&self, m: &str) -> R<T> {
        Err(format!("{m} at byte {}", self.i))
    }
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n' | b'\r' | b'\t') {
            self.i += 1;
        }
    }
    fn peek(&self) -> Option<u8> {
        self.b.get(self.i).copied()
    }
    fn eat(&mut self, c: u8) -> R<()> {
        if self.peek() == Some(c) {
            self.i += 1;
            Ok(())
        } else {
            self.err(&format!("expected {:?}", c as char))
        }
    }
    fn word(&mut self, w: &str, v: J) -> R<J> {
        if self.b[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            Ok(v)
        } else {
            self.err("unknown word")
        }
    }
    fn value(&mut self, d: usize) -> R<J> {
        if d > 400 {
            return self.err("too deep");
        }
        match self.peek() {
            Some(b'n') => self.word("null", J::Null),
            Some(b't') => self.word("true", J::Bool(true)),
            Some(b'f') => self.word("false", J::Bool(false)),
            Some(b'"') => Ok(J::Str(self.string()?)),
            Some(b'[') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == Some(b']') {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    self.ws();
                    v.push(self.value(d + 1)?);
                    self.ws();
                    if self.peek() == Some(b',') {
                        self.i += 1;
                        continue;
                    }
                    self.eat(b']')?;
                    return Ok(J::Arr(v));
                }
            }
            Some(b'{') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == Some(b'}') {
                    self.i += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.eat(b':')?;
                    self.ws();
                    let x = self.value(d + 1)?;
                    v.push((k, x));
                    self.ws();
                    if self.peek() == Some(b',') {
                        self.i += 1;
                        continue;
                    }
                    self.eat(b'}')?;
                    return Ok(J::Obj(v));
                }
            }
            Some(b'-' | b'0'..=b'9') => self.number(),
            _ => self.err("no value"),
        }
    }
    fn digits(&mut self) -> R<()> {
        let s = self.i;
        while matches!(self.peek(), Some(b'0'..=b'9')) {
            self.i += 1;
        }
        if s == self.i {
            return self.err("digit expected");
        }
        Ok(())
    }
    fn number(&mut self) -> R<J> {
        let s = self.i;
        if self.peek() == Some(b'-') {
            self.i += 1;
        }
        if self.peek() == Some(b'0') {
            self.i += 1;
        } else {
            self.digits()?;
        }
        if self.peek() == Some(b'.') {
            self.i += 1;
            self.digits()?;
        }
        if matches!(self.peek(), Some(b'e' | b'E')) {
            self.i += 1;
            if matches!(self.peek(), Some(b'+' | b'-')) {
                self.i += 1;
            }
            self.digits()?;
        }
        Ok(J::Num(String::from_utf8_lossy(&self.b[s..self.i]).into_owned()))
    }
    fn hex(&mut self) -> R<u32> {
        let mut v = 0;
        for _ in 0..4 {
            let d = match self.peek() {
                Some(c @ b'0'..=b'9') => c - b'0',
                Some(c @ b'a'..=b'f') => c - b'a' + 10,
                Some(c @ b'A'..=b'F') => c - b'A' + 10,
                _ => return self.err("hex digit expected"),
            };
            v = v * 16 + d as u32;
            self.i += 1;
        }
        Ok(v)
    }
    fn string(&mut self) -> R<String> {
        self.eat(b'"')?;
        let mut o: Vec<u8> = vec![];
        loop {
            match self.peek() {
                None => return self.err("string not ended"),
                Some(b'"') => {
                    self.i += 1;
                    return String::from_utf8(o).map_err(|e| e.to_string());
                }
                Some(c) if c < 0x20 => return self.err("control character in a string"),
                Some(b'\\') => {
                    self.i += 1;
                    let c = self.peek();
                    self.i += 1;
                    let ch = match c {
                        Some(b'"') => '"',
                        Some(b'\\') => '\\',
                        Some(b'/') => '/',
                        Some(b'b') => '\u{8}',
                        Some(b'f') => '\u{c}',
                        Some(b'n') => '\n',
                        Some(b'r') => '\r',
                        Some(b't') => '\t',
                        Some(b'u') => {
                            let a = self.hex()?;
                            if (0xd800..0xdc00).contains(&a) {
                                self.eat(b'\\')?;
                                self.eat(b'u')?;
                                let b = self.hex()?;
                                if !(0xdc00..0xe000).contains(&b) {
                                    return self.err("lone surrogate");
                                }
                                char::from_u32(0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00)).unwrap()
                            } else {
                                match char::from_u32(a) {
                                    Some(c) => c,
                                    None => return self.err("lone surrogate"),
                                }
                            }
                        }
                        _ => return self.err("unknown escape"),
                    };
                    o.extend_from_slice(ch.encode_utf8(&mut [0; 4]).as_bytes());
                }
                Some(c) => {
                    o.push(c);
                    self.i += 1;
                }
            }
        }
    }
}

/// First place where the document does not state the value. `want` has been
/// through `val::plain`.
pub fn states(want: &Val, got: &J, path: &str) -> Option<String> {
    let bad = || {
        let mut g = format!("{got:?}");
        if g.len() > 120 {
            g = g.chars().take(120).collect();
        }
        let mut w = format!("{want:?}");
        if w.len() > 120 {
            w = w.chars().take(120).collect();
        }
        Some(format!("{path}: the document has {g}, the value is {w}"))
    };
    match (want, got) {
        (Val::Null, J::Null) => None,
        (Val::Bool(a), J::Bool(b)) if a == b => None,
        (Val::Int(a), J::Num(s)) if s.parse::<i64>() == Ok(*a) => None,
        (Val::Big(a), J::Str(b)) if a == b => None,
        (Val::Str(a), J::Str(b)) if a == b => None,
        (Val::F(a), J::Num(s)) if f32::from_bits(*a).is_finite() => {
            // As a reader of floats, and as a reader of doubles.
            let near = s.parse::<f32>().ok().map(|f| f.to_bits()) == Some(*a)
                && s.parse::<f64>().ok().map(|f| (f as f32).to_bits()) == Some(*a);
            if near {
                None
            } else {
                bad()
            }
        }
        // JSON has no word for these.
        (Val::F(a), J::Null) if !f32::from_bits(*a).is_finite() => None,
        (Val::List(a), J::Arr(b)) => {
            if a.len() != b.len() {
                return Some(format!("{path}: {} elements in the document, {} in the value", b.len(), a.len()));
            }
            a.iter().zip(b).enumerate().find_map(|(i, (x, y))| states(x, y, &format!("{path}[{i}]")))
        }
        (Val::Obj(a), J::Obj(b)) => {
            for (k, x) in a {
                let hits: Vec<&J> = b.iter().filter(|e| e.0 == *k).map(|e| &e.1).collect();
                match hits.as_slice() {
                    [y] => {
                        if let Some(m) = states(x, y, &format!("{path}.{k}")) {
                            return Some(m);
                        }
                    }
                    [] => return Some(format!("{path}: {k} is missing from the document")),
                    _ => return Some(format!("{path}: {k} is stated {} times", hits.len())),
                }
            }
            b.iter().find(|e| !a.iter().any(|x| x.0 == e.0)).map(|e| format!("{path}: {} is in the document but not in the value", e.0))
        }
        (Val::Pairs(a), J::Obj(b)) => {
            if a.len() != b.len() {
                return Some(format!("{path}: {} entries in the document, {} in the value", b.len(), a.len()));
            }
            for ((k, x), (l, y)) in a.iter().zip(b) {
                if k != l {
                    return Some(format!("{path}: entry {l:?} where {k:?} was recorded"));
                }
                if let Some(m) = states(x, y, &format!("{path}.{k:?}")) {
                    return Some(m);
                }
            }
            None
        }
        _ => bad(),
    }
}
