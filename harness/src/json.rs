//! A small JSON reader and writer (numbers are integers).
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum J {
    Null,
    B(bool),
    N(i64),
    S(String),
    L(Vec<J>),
    O(BTreeMap<String, J>),
}

pub fn s(x: &str) -> J { J::S(x.to_string()) }
pub fn n(x: usize) -> J { J::N(x as i64) }

impl J {
    pub fn parse(t: &str) -> J {
        let c: Vec<char> = t.chars().collect();
        let mut p = P { c: &c, i: 0 };
        let v = p.val();
        p.ws();
        assert!(p.i == c.len(), "trailing input in JSON");
        v
    }
    pub fn at(&self, i: usize) -> &J { match self { J::L(v) => &v[i], _ => panic!("not a list: {:?}", self) } }
    pub fn get(&self, k: &str) -> Option<&J> { match self { J::O(m) => m.get(k), _ => None } }
    pub fn list(&self) -> &Vec<J> { match self { J::L(v) => v, _ => panic!("not a list: {:?}", self) } }
    pub fn str(&self) -> &str { match self { J::S(s) => s, _ => panic!("not a string: {:?}", self) } }
    pub fn num(&self) -> i64 { match self { J::N(n) => *n, _ => panic!("not a number: {:?}", self) } }
    pub fn us(&self) -> usize { self.num() as usize }
    pub fn is_true(&self) -> bool { *self == J::B(true) }
    pub fn obj(kv: Vec<(&str, J)>) -> J { J::O(kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect()) }
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => o.push_str(&n.to_string()),
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                            let mut b = [0u16; 2];
                            for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{:04x}", u)) }
                        }
                        c => o.push(c),
                    }
                }
                o.push('"')
            }
            J::L(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } x.write(o) }
                o.push(']')
            }
            J::O(m) => {
                o.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 { o.push(',') }
                    J::S(k.clone()).write(o);
                    o.push(':');
                    x.write(o)
                }
                o.push('}')
            }
        }
    }
    pub fn text(&self) -> String { let mut o = String::new(); self.write(&mut o); o }
}

struct P<'a> { c: &'a Vec<char>, i: usize }
impl<'a> P<'a> {
    fn ws(&mut self) { while self.i < self.c.len() && self.c[self.i].is_whitespace() { self.i += 1 } }
    fn peek(&mut self) -> char { self.ws(); self.c[self.i] }
    fn eat(&mut self, x: char) { assert_eq!(self.peek(), x); self.i += 1 }
    fn word(&mut self, w: &str, v: J) -> J { for x in w.chars() { assert_eq!(self.c[self.i], x); self.i += 1 } v }
    fn val(&mut self) -> J {
        match self.peek() {
            'n' => self.word("null", J::Null),
            't' => self.word("true", J::B(true)),
            'f' => self.word("false", J::B(false)),
            '"' => J::S(self.string()),
            '[' => {
                self.eat('[');
                let mut v = vec![];
                if self.peek() == ']' { self.eat(']'); return J::L(v) }
                loop {
                    v.push(self.val());
                    if self.peek() == ',' { self.eat(',') } else { self.eat(']'); return J::L(v) }
                }
            }
            '{' => {
                self.eat('{');
                let mut m = BTreeMap::new();
                if self.peek() == '}' { self.eat('}'); return J::O(m) }
                loop {
                    self.ws();
                    let k = self.string();
                    self.eat(':');
                    let v = self.val();
                    m.insert(k, v);
                    if self.peek() == ',' { self.eat(',') } else { self.eat('}'); return J::O(m) }
                }
            }
            _ => {
                let st = self.i;
                while self.i < self.c.len() && (self.c[self.i] == '-' || self.c[self.i].is_ascii_digit()) { self.i += 1 }
                let t: String = self.c[st..self.i].iter().collect();
                J::N(t.parse().expect("number"))
            }
        }
    }
    fn hex4(&mut self) -> u16 {
        let t: String = self.c[self.i..self.i + 4].iter().collect();
        self.i += 4;
        u16::from_str_radix(&t, 16).unwrap()
    }
    fn string(&mut self) -> String {
        self.eat('"');
        let mut o = String::new();
        loop {
            let c = self.c[self.i];
            self.i += 1;
            match c {
                '"' => return o,
                '\\' => {
                    let d = self.c[self.i];
                    self.i += 1;
                    match d {
                        'n' => o.push('\n'), 't' => o.push('\t'), 'r' => o.push('\r'),
                        'b' => o.push('\u{8}'), 'f' => o.push('\u{c}'),
                        'u' => {
                            let mut u = vec![self.hex4()];
                            if (0xd800..0xdc00).contains(&u[0]) { self.i += 2; u.push(self.hex4()) }
                            o.push_str(&String::from_utf16(&u).unwrap())
                        }
                        d => o.push(d),
                    }
                }
                c => o.push(c),
            }
        }
    }
}
