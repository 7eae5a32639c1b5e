//! Minimal JSON (integers, strings, arrays, objects, booleans); no external dependency.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn at(&self, k: &str) -> &J {
        self.get(k).unwrap_or_else(|| script_error(&format!("missing field {k} in {}", self.dump())))
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Int(i) => *i,
            J::Bool(b) => *b as i64,
            _ => script_error(&format!("not an int: {}", self.dump())),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => script_error(&format!("not a string: {}", self.dump())),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            _ => script_error(&format!("not an array: {}", self.dump())),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.arr().iter().map(|b| b.int() as u8).collect()
    }
    pub fn opt_int(&self, k: &str, d: i64) -> i64 {
        self.get(k).map(|v| v.int()).unwrap_or(d)
    }
    pub fn opt_arr(&self, k: &str) -> &[J] {
        self.get(k).map(|v| v.arr()).unwrap_or(&[])
    }
    pub fn dump(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => write!(o, "{i}").unwrap(),
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(a) => {
                o.push('[');
                for (i, e) in a.iter().enumerate() {
                    if i != 0 {
                        o.push(',');
                    }
                    e.write(o);
                }
                o.push(']');
            }
            J::Obj(a) => {
                o.push('{');
                for (i, (k, e)) in a.iter().enumerate() {
                    if i != 0 {
                        o.push(',');
                    }
                    J::Str(k.clone()).write(o);
                    o.push(':');
                    e.write(o);
                }
                o.push('}');
            }
        }
    }
}

/// A malformed script is an error of the machinery, never a verdict: exit code 2.
pub fn script_error(msg: &str) -> ! {
    eprintln!("script error: {msg}");
    std::process::exit(2)
}

impl From<bool> for J {
    fn from(v: bool) -> J {
        J::Bool(v)
    }
}
macro_rules! ints { ($($t:ty),*) => { $(impl From<$t> for J { fn from(v: $t) -> J { J::Int(v as i64) } })* } }
ints!(u8, u16, i32, u32, i64, u64, usize);
impl From<&str> for J {
    fn from(v: &str) -> J {
        J::Str(v.into())
    }
}
impl From<String> for J {
    fn from(v: String) -> J {
        J::Str(v)
    }
}
impl From<Vec<J>> for J {
    fn from(v: Vec<J>) -> J {
        J::Arr(v)
    }
}
pub fn jb(b: &[u8]) -> J {
    J::Arr(b.iter().map(|&b| J::Int(b as i64)).collect())
}
#[macro_export]
macro_rules! obj {
    ($($k:literal : $v:expr),* $(,)?) => { $crate::json::J::Obj(vec![$(($k.to_string(), $crate::json::J::from($v))),*]) };
}

pub fn parse(s: &str) -> J {
    let mut p = P { b: s.as_bytes(), i: 0 };
    let v = p.value();
    p.ws();
    if p.i != p.b.len() {
        script_error("trailing characters");
    }
    v
}
struct P<'a> {
    b: &'a [u8],
    i: usize,
}
impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.b.len() && self.b[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        *self.b.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) {
        self.ws();
        if self.peek() != c {
            script_error(&format!("expected {:?} at {}", c as char, self.i));
        }
        self.i += 1;
    }
    fn value(&mut self) -> J {
        self.ws();
        match self.peek() {
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b'}' {
                    self.i += 1;
                    return J::Obj(v);
                }
                loop {
                    self.ws();
                    let k = match self.value() {
                        J::Str(s) => s,
                        _ => script_error("key"),
                    };
                    self.eat(b':');
                    v.push((k, self.value()));
                    self.ws();
                    if self.peek() == b',' {
                        self.i += 1;
                    } else {
                        self.eat(b'}');
                        return J::Obj(v);
                    }
                }
            }
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b']' {
                    self.i += 1;
                    return J::Arr(v);
                }
                loop {
                    v.push(self.value());
                    self.ws();
                    if self.peek() == b',' {
                        self.i += 1;
                    } else {
                        self.eat(b']');
                        return J::Arr(v);
                    }
                }
            }
            b'"' => {
                self.i += 1;
                let mut out = Vec::new();
                loop {
                    let c = self.peek();
                    if self.i >= self.b.len() {
                        script_error("unterminated string");
                    }
                    self.i += 1;
                    match c {
                        b'"' => return J::Str(String::from_utf8(out).unwrap_or_else(|_| script_error("utf8"))),
                        b'\\' => {
                            let e = self.peek();
                            self.i += 1;
                            match e {
                                b'n' => out.push(b'\n'),
                                b't' => out.push(b'\t'),
                                b'r' => out.push(b'\r'),
                                b'u' => {
                                    let h = std::str::from_utf8(&self.b[self.i..self.i + 4]).unwrap();
                                    let c = u32::from_str_radix(h, 16).unwrap();
                                    self.i += 4;
                                    let mut buf = [0; 4];
                                    out.extend_from_slice(
                                        char::from_u32(c).unwrap_or('?').encode_utf8(&mut buf).as_bytes(),
                                    );
                                }
                                c => out.push(c),
                            }
                        }
                        c => out.push(c),
                    }
                }
            }
            b't' => {
                self.i += 4;
                J::Bool(true)
            }
            b'f' => {
                self.i += 5;
                J::Bool(false)
            }
            b'n' => {
                self.i += 4;
                J::Null
            }
            _ => {
                let st = self.i;
                while self.i < self.b.len() && (self.b[self.i] == b'-' || self.b[self.i].is_ascii_digit()) {
                    self.i += 1;
                }
                std::str::from_utf8(&self.b[st..self.i])
                    .unwrap()
                    .parse()
                    .map(J::Int)
                    .unwrap_or_else(|_| script_error(&format!("bad value at {st}")))
            }
        }
    }
}
