//! Minimal JSON: replay files, known findings, evidence.
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

impl J {
    pub fn obj() -> J {
        J::Obj(BTreeMap::new())
    }
    pub fn set(&mut self, k: &str, v: impl Into<J>) -> &mut J {
        if let J::Obj(m) = self {
            m.insert(k.to_string(), v.into());
        }
        self
    }
    pub fn with(mut self, k: &str, v: impl Into<J>) -> J {
        self.set(k, v);
        self
    }
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn has(&self, k: &str) -> bool {
        !matches!(self.get(k), J::Null)
    }
    pub fn i(&self) -> i128 {
        match self {
            J::Int(i) => *i,
            J::Num(f) => *f as i128,
            J::Bool(b) => *b as i128,
            _ => 0,
        }
    }
    pub fn u(&self) -> u64 {
        self.i() as u64
    }
    pub fn us(&self) -> usize {
        self.i() as usize
    }
    pub fn f(&self) -> f64 {
        match self {
            J::Num(f) => *f,
            J::Int(i) => *i as f64,
            _ => 0.0,
        }
    }
    pub fn b(&self) -> bool {
        matches!(self, J::Bool(true)) || matches!(self, J::Int(i) if *i != 0)
    }
    pub fn s(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            _ => &[],
        }
    }
    pub fn u32s(&self) -> Vec<u32> {
        self.arr().iter().map(|x| x.i() as u32).collect()
    }
    pub fn bytes(&self) -> Vec<u8> {
        let s = self.s().as_bytes();
        s.chunks_exact(2)
            .map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap())
            .collect()
    }
    pub fn hex(b: &[u8]) -> J {
        let mut s = String::with_capacity(b.len() * 2);
        for x in b {
            let _ = write!(s, "{x:02x}");
        }
        J::Str(s)
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.w(&mut s);
        s
    }
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => {
                let _ = write!(o, "{i}");
            }
            J::Num(f) => {
                if f.is_finite() {
                    let _ = write!(o, "{f}");
                    if f.fract() == 0.0 && !o.ends_with(|c: char| c == '.') && f.abs() < 1e15 {
                        o.push_str(".0");
                    }
                } else {
                    o.push_str("null")
                }
            }
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::Obj(m) => {
                o.push('{');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::Str(k.clone()).w(o);
                    o.push(':');
                    v.w(o);
                }
                o.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> Result<J, String> {
        let mut p = P { b: s.as_bytes(), i: 0 };
        let v = p.v()?;
        p.ws();
        if p.i != p.b.len() {
            return Err(format!("trailing data at {}", p.i));
        }
        Ok(v)
    }
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}
impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && self.b[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> Result<(), String> {
        self.ws();
        if self.i < self.b.len() && self.b[self.i] == c {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {} at {}", c as char, self.i))
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.b.get(self.i).unwrap_or(&0)
    }
    fn str(&mut self) -> Result<String, String> {
        self.eat(b'"')?;
        let mut out = Vec::new();
        while self.i < self.b.len() {
            let c = self.b[self.i];
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).map_err(|e| e.to_string()),
                b'\\' => {
                    let d = *self.b.get(self.i).ok_or("eof")?;
                    self.i += 1;
                    match d {
                        b'n' => out.push(b'\n'),
                        b't' => out.push(b'\t'),
                        b'r' => out.push(b'\r'),
                        b'b' => out.push(8),
                        b'f' => out.push(12),
                        b'u' => {
                            let h = std::str::from_utf8(&self.b[self.i..self.i + 4]).map_err(|e| e.to_string())?;
                            let n = u32::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                            self.i += 4;
                            let mut t = [0u8; 4];
                            out.extend_from_slice(char::from_u32(n).unwrap_or('?').encode_utf8(&mut t).as_bytes());
                        }
                        d => out.push(d),
                    }
                }
                c => out.push(c),
            }
        }
        Err("eof in string".into())
    }
    fn v(&mut self) -> Result<J, String> {
        match self.peek() {
            b'{' => {
                self.i += 1;
                let mut m = BTreeMap::new();
                if self.peek() == b'}' {
                    self.i += 1;
                    return Ok(J::Obj(m));
                }
                loop {
                    self.ws();
                    let k = self.str()?;
                    self.eat(b':')?;
                    m.insert(k, self.v()?);
                    if self.peek() == b',' {
                        self.i += 1;
                    } else {
                        self.eat(b'}')?;
                        return Ok(J::Obj(m));
                    }
                }
            }
            b'[' => {
                self.i += 1;
                let mut a = Vec::new();
                if self.peek() == b']' {
                    self.i += 1;
                    return Ok(J::Arr(a));
                }
                loop {
                    a.push(self.v()?);
                    if self.peek() == b',' {
                        self.i += 1;
                    } else {
                        self.eat(b']')?;
                        return Ok(J::Arr(a));
                    }
                }
            }
            b'"' => Ok(J::Str(self.str()?)),
            _ => {
                let st = self.i;
                while self.i < self.b.len() && !b",]} \n\t\r:".contains(&self.b[self.i]) {
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.b[st..self.i]).unwrap();
                match t {
                    "null" => Ok(J::Null),
                    "true" => Ok(J::Bool(true)),
                    "false" => Ok(J::Bool(false)),
                    _ => {
                        if let Ok(i) = t.parse::<i128>() {
                            Ok(J::Int(i))
                        } else {
                            t.parse::<f64>().map(J::Num).map_err(|e| format!("{e}: {t}"))
                        }
                    }
                }
            }
        }
    }
}

macro_rules! from_int { ($($t:ty),*) => { $(impl From<$t> for J { fn from(x: $t) -> J { J::Int(x as i128) } })* } }
from_int!(u8, u16, u32, u64, usize, i32, i64);
impl From<bool> for J {
    fn from(x: bool) -> J {
        J::Bool(x)
    }
}
impl From<f64> for J {
    fn from(x: f64) -> J {
        J::Num(x)
    }
}
impl From<&str> for J {
    fn from(x: &str) -> J {
        J::Str(x.to_string())
    }
}
impl From<String> for J {
    fn from(x: String) -> J {
        J::Str(x)
    }
}
impl<T: Into<J>> From<Vec<T>> for J {
    fn from(x: Vec<T>) -> J {
        J::Arr(x.into_iter().map(Into::into).collect())
    }
}
impl From<&[u32]> for J {
    fn from(x: &[u32]) -> J {
        J::Arr(x.iter().map(|v| J::Int(*v as i128)).collect())
    }
}
