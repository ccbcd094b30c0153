//! Values given as trees (see spec/ParseVal.tla), reflected from their debug output.
use crate::json::*;
use adapton::engine::*;
use adapton::macros::*;
use adapton::reflect::{self, ArtContent, Const, Val};
use std::collections::HashMap;
use std::fmt::{Debug, Formatter, Result};
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash)]
enum D {
    Nat(u64),
    Num(i64),
    Bool(bool),
    Str(String),
    Tup(Vec<D>),
    Vec(Vec<D>),
    Con(String, Vec<D>),
    Struct(String, Vec<(String, D)>),
    Name(Name),
    Art(Art<Box<D>>),
}

/// As derived implementations would print it.
impl Debug for D {
    fn fmt(&self, f: &mut Formatter) -> Result {
        match self {
            D::Nat(n) => n.fmt(f),
            D::Num(n) => n.fmt(f),
            D::Bool(b) => b.fmt(f),
            D::Str(s) => s.fmt(f),
            D::Tup(v) => if v.is_empty() { ().fmt(f) } else { let mut t = f.debug_tuple(""); for x in v { t.field(x); } t.finish() },
            D::Vec(v) => v.fmt(f),
            D::Con(c, v) => { let mut t = f.debug_tuple(c); for x in v { t.field(x); } t.finish() }
            D::Struct(c, v) => { let mut t = f.debug_struct(c); for (k, x) in v { t.field(k, x); } t.finish() }
            D::Name(n) => n.fmt(f),
            D::Art(a) => a.fmt(f),
        }
    }
}

struct Ctx { names: HashMap<Name, J>, idents: HashMap<Name, String> }

fn text(j: &J) -> String { j.list().iter().map(|c| char::from_u32(c.num() as u32).unwrap()).collect() }

impl Ctx {
    fn name(&mut self, t: &J) -> Name {
        let x = match t.at(0).str() {
            "U" => name_unit(),
            "S" => name_of_string(text(t.at(1))),
            "N" => name_of_usize(t.at(1).str().parse().unwrap()),
            "I" => name_of_isize(t.at(1).str().parse().unwrap()),
            "P" => { let a = self.name(t.at(1)); name_pair(a, self.name(t.at(2))) }
            "L" => name_fork(self.name(t.at(1))).0,
            _ => name_fork(self.name(t.at(1))).1,
        };
        self.names.insert(x.clone(), t.clone());
        x
    }
    fn ident(&mut self, t: &J) -> String {
        self.idents.insert(name_of_string(t.str().to_string()), t.str().to_string());
        t.str().to_string()
    }
    fn within<R>(&mut self, path: &[J], f: &mut dyn FnMut(&mut Ctx) -> R) -> R {
        match path.split_first() { None => f(self), Some((h, tl)) => { let nm = self.name(h); ns(nm, || self.within(tl, f)) } }
    }
    fn build(&mut self, v: &J) -> D {
        let all = |c: &mut Ctx, j: &J| j.list().iter().map(|x| c.build(x)).collect::<Vec<_>>();
        match v.at(0).str() {
            "nat" => D::Nat(v.at(1).str().parse().unwrap()),
            "num" => if v.at(2).is_true() { D::Num(format!("-{}", v.at(1).str()).parse().unwrap()) } else { D::Num(v.at(1).str().parse().unwrap()) },
            "bool" => D::Bool({ self.ident(v.at(1)); v.at(1).str() == "true" }),
            "str" => D::Str(text(v.at(1))),
            "tup" => D::Tup(all(self, v.at(1))),
            "vec" => D::Vec(all(self, v.at(1))),
            "con" => D::Con(self.ident(v.at(1)), all(self, v.at(2))),
            "struct" => D::Struct(self.ident(v.at(1)), v.at(2).list().iter().map(|p| { let k = self.ident(p.at(0)); (k, self.build(p.at(1))) }).collect()),
            "name" => D::Name(self.name(v.at(1))),
            "cell" => D::Art(self.within(v.at(1).list(), &mut |c| { let nm = c.name(v.at(2)); cell(nm, Box::new(D::Nat(1))) })),
            "thunk" => D::Art(self.within(v.at(1).list(), &mut |c| {
                let nm = c.name(v.at(2));
                let f: Rc<Box<dyn Fn((), ()) -> Box<D>>> = Rc::new(Box::new(|_, _| Box::new(D::Nat(1))));
                thunk(NameChoice::Nominal(nm), ProgPt { symbol: "one" }, f, (), ())
            })),
            "hcell" => D::Art(self.within(v.at(1).list(), &mut |_| structural(|| cell(name_unit(), Box::new(D::Nat(v.at(2).num() as u64)))))),
            _ => { self.ident(&s("Art")); self.ident(&s("art")); let x = self.build(v.at(1)); D::Art(put(Box::new(x))) }
        }
    }
    fn nm(&self, x: &Name) -> J { self.names.get(x).cloned().unwrap_or_else(|| if format!("{:?}", x) == "Hash64" { J::L(vec![s("H")]) } else { J::L(vec![s("?"), s(&format!("{:?}", x))]) }) }
    fn id(&self, x: &Name) -> J { self.idents.get(x).map(|x| s(x)).unwrap_or_else(|| if *x == name_of_str("Unit") { s("Unit") } else { s(&format!("?{:?}", x)) }) }
    fn show(&self, v: &Val, keys: &mut dyn FnMut(&reflect::Loc)) -> J {
        let list = |vs: &Vec<Val>, k: &mut dyn FnMut(&reflect::Loc)| J::L(vs.iter().map(|x| self.show(x, k)).collect());
        J::L(match v {
            Val::Constr(c, vs) => vec![s("con"), self.id(c), list(vs, keys)],
            Val::Tuple(vs) => vec![s("tup"), list(vs, keys)],
            Val::Vec(vs) => vec![s("vec"), list(vs, keys)],
            Val::Struct(c, fs) => vec![s("struct"), self.id(c), J::L(fs.iter().map(|(k, x)| J::L(vec![self.id(k), self.show(x, keys)])).collect())],
            Val::Art(l, c) => {
                keys(l);
                let mut o = vec![s("art"), J::L(l.path.iter().map(|x| self.nm(x)).collect()), self.nm(&l.name)];
                if *c != ArtContent::Unknown { o.push(s("known")) }
                o
            }
            Val::Name(x) => vec![s("name"), self.nm(x)],
            Val::Const(Const::Num(k)) => vec![s("num"), s(k.to_string().trim_start_matches('-'))],
            Val::Const(Const::Nat(k)) => vec![s("nat"), s(&k.to_string())],
            Val::Const(Const::String(t)) => vec![s("str"), J::L(t.chars().map(|c| n(c as usize)).collect())],
            Val::ValTODO => vec![s("todo")],
        })
    }
}

pub fn run(t: &J, emit: &mut dyn FnMut(&J)) {
    manage::init_dcg();
    let mut c = Ctx { names: HashMap::new(), idents: HashMap::new() };
    let v = Box::new(c.build(t.get("v").unwrap()));
    let host = cell(name_of_str("host"), v.clone());
    let v2 = v.clone();
    let f: Rc<Box<dyn Fn((), ()) -> Box<D>>> = Rc::new(Box::new(move |_, _| v2.clone()));
    let thost = thunk(NameChoice::Nominal(name_of_str("thost")), ProgPt { symbol: "host" }, f, (), ());
    force(&thost);
    let d = reflect::dcg_reflect_now().unwrap();
    let at = |x: &str| d.table.get(&reflect::Loc { path: vec![], name: name_of_string(x.to_string()) });
    let ok = std::cell::Cell::new(true);
    let mut keys = |l: &reflect::Loc| ok.set(ok.get() && d.table.contains_key(l));
    let val = c.show(&reflect::reflect_val(&v), &mut keys);
    let incell = match at("host") { Some(reflect::Node::Ref(r)) => c.show(&r.value, &mut keys), _ => J::L(vec![s("no cell")]) };
    let inthunk = match at("thost") { Some(reflect::Node::Comp(r)) => r.value.as_ref().map(|x| c.show(x, &mut keys)).unwrap_or(J::L(vec![s("no value")])), _ => J::L(vec![s("no thunk")]) };
    // The articulations that hold the value, too
    for a in [&host, &thost] { match reflect::reflect_val(a) { Val::Art(l, _) => keys(&l), _ => ok.set(false) } }
    emit(&J::obj(vec![("t", t.get("id").unwrap().clone()), ("val", val), ("incell", incell), ("inthunk", inthunk), ("keys", J::B(ok.get()))]));
}
