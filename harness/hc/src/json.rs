//! Minimal JSON value (ints, strings, arrays, objects, bools) - no dependency.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    I(i64),
    S(String),
    B(bool),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
use J::*;
pub fn s(x: &str) -> J { S(x.to_string()) }
pub fn bytes(v: &[u8]) -> J { A(v.iter().map(|b| I(*b as i64)).collect()) }
impl J {
    pub fn int(&self) -> i64 { match self { I(i) => *i, B(b) => *b as i64, _ => panic!("harness: int expected: {:?}", self) } }
    pub fn us(&self) -> usize { self.int() as usize }
    pub fn str(&self) -> &str { match self { S(s) => s, _ => panic!("harness: str expected: {:?}", self) } }
    pub fn arr(&self) -> &[J] { match self { A(a) => a, _ => panic!("harness: arr expected: {:?}", self) } }
    pub fn bytes(&self) -> Vec<u8> { self.arr().iter().map(|x| x.int() as u8).collect() }
    pub fn get(&self, k: &str) -> Option<&J> { match self { O(o) => o.iter().find(|(n, _)| n == k).map(|(_, v)| v), _ => None } }
    pub fn at(&self, k: &str) -> &J { self.get(k).unwrap_or_else(|| panic!("harness: key {} missing in {:?}", k, self)) }
    pub fn push(&mut self, k: &str, v: J) { if let O(o) = self { o.push((k.to_string(), v)) } }
    pub fn write(&self, out: &mut String) {
        match self {
            I(i) => out.push_str(&i.to_string()),
            B(b) => out.push_str(if *b { "true" } else { "false" }),
            S(s) => {
                out.push('"');
                for c in s.chars() {
                    match c { '"' => out.push_str("\\\""), '\\' => out.push_str("\\\\"), c if (c as u32) < 0x20 => out.push(' '), c => out.push(c) }
                }
                out.push('"')
            }
            A(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() { if i > 0 { out.push(',') } x.write(out) }
                out.push(']')
            }
            O(o) => {
                out.push('{');
                for (i, (k, x)) in o.iter().enumerate() { if i > 0 { out.push(',') } out.push('"'); out.push_str(k); out.push_str("\":"); x.write(out) }
                out.push('}')
            }
        }
    }
    pub fn parse(t: &str) -> J { let b = t.as_bytes(); let mut p = 0; val(b, &mut p) }
}
fn ws(b: &[u8], p: &mut usize) { while *p < b.len() && (b[*p] as char).is_whitespace() { *p += 1 } }
fn val(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'{' => {
            *p += 1; let mut o = vec![];
            loop {
                ws(b, p);
                if b[*p] == b'}' { *p += 1; return O(o) }
                if b[*p] == b',' { *p += 1; continue }
                let k = match val(b, p) { S(s) => s, _ => panic!("harness: key") };
                ws(b, p); assert!(b[*p] == b':'); *p += 1;
                let v = val(b, p); o.push((k, v));
            }
        }
        b'[' => {
            *p += 1; let mut a = vec![];
            loop {
                ws(b, p);
                if b[*p] == b']' { *p += 1; return A(a) }
                if b[*p] == b',' { *p += 1; continue }
                a.push(val(b, p));
            }
        }
        b'"' => {
            *p += 1; let mut r = Vec::new();
            while b[*p] != b'"' { if b[*p] == b'\\' { *p += 1 } r.push(b[*p]); *p += 1 }
            *p += 1; S(String::from_utf8(r).unwrap())
        }
        b't' => { *p += 4; B(true) }
        b'f' => { *p += 5; B(false) }
        _ => {
            let st = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) { *p += 1 }
            I(std::str::from_utf8(&b[st..*p]).unwrap().parse().unwrap())
        }
    }
}
