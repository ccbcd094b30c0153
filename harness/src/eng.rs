//! Runs archivist programs, given as data (see spec/Adapton.tla), in the real engine, and records
//! what happened: results, the log of executed bodies, the engine's own trace, and graph snapshots.
use crate::json::*;
use adapton::engine::*;
use adapton::macros::ProgPt;
use adapton::reflect;
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum V {
    I(usize),
    P(Rc<V>, Rc<V>),
    A(Art<V>),
}

thread_local! { static COARSE: std::cell::Cell<bool> = std::cell::Cell::new(false); }

/// With COARSE, different values often have the same hash, as those of any type may.
impl std::hash::Hash for V {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        let coarse = COARSE.with(|c| c.get());
        match self {
            V::I(k) => { 0u8.hash(h); if !coarse { k.hash(h) } }
            V::P(a, b) => { 1u8.hash(h); a.hash(h); b.hash(h) }
            V::A(a) => { 2u8.hash(h); if !coarse { a.hash(h) } }
        }
    }
}

const MOD: usize = 8;
const SETS: [&str; 2] = ["set", "nset"];
const NREG: usize = 8;

fn numof(v: &V) -> usize { if let V::I(n) = v { *n } else { 0 } }

pub fn proj(p: &str, v: &V) -> V {
    match (p, v) {
        ("fst", V::P(a, _)) => (**a).clone(),
        ("snd", V::P(_, b)) => (**b).clone(),
        ("id", _) | ("fst", _) | ("snd", _) => v.clone(),
        ("odd", _) => V::I(numof(v) % 2),
        ("hi", _) => V::I(numof(v) / 4),
        ("inc", _) => V::I((numof(v) + 1) % MOD),
        _ => panic!("projection {}", p),
    }
}

/// The spurious argument of a thunk: where it was allocated.
#[derive(Clone)]
struct Home { path: PathH, loc: String }

#[derive(Clone, Default)]
pub struct PathH { names: Vec<Name>, s: String }

#[derive(Default)]
struct St {
    codes: Vec<Vec<J>>,
    log: Vec<J>,
    /// The specification's form of every articulation seen so far.
    forms: HashMap<Art<V>, J>,
    /// Articulations of located nodes, by canonical location.
    arts: HashMap<String, Art<V>>,
    /// Canonical locations, by reflected location.
    keys: HashMap<(Vec<Name>, Name), String>,
    names: HashMap<Name, String>,
    path: PathH,
    smode: bool,
    /// Are articulations without an identity of their own (naive engine, structural identity)?
    naive: bool,
    dbg: bool,
    /// Count the effects of recorded traces (instead of showing the traces)?
    count: bool,
    maps: HashMap<String, Rc<dyn Fn(V) -> V>>,
    /// Reflect the graph after every entry of the log (before it, at the end of a body)?
    mid: bool,
    mids: Vec<J>,
}

thread_local! { static ST: RefCell<St> = RefCell::new(St::default()); }

fn st<R>(f: impl FnOnce(&mut St) -> R) -> R { ST.with(|s| f(&mut *s.borrow_mut())) }

/// The name written s: a string, or a pair <a,b> of names.
pub fn name(s: &str) -> Name {
    if s.starts_with('<') {
        let mut deep = 0;
        let at = s.char_indices().find(|&(_, c)| { if c == '<' { deep += 1 } else if c == '>' { deep -= 1 } c == ',' && deep == 1 }).unwrap().0;
        return pair(&name(&s[1..at]), &name(&s[at + 1..s.len() - 1]))
    }
    let n = name_of_string(s.to_string());
    st(|t| t.names.insert(n.clone(), s.to_string()));
    n
}
fn pair(a: &Name, b: &Name) -> Name {
    let n = name_pair(a.clone(), b.clone());
    let s = format!("<{},{}>", nstr(a), nstr(b));
    st(|t| t.names.insert(n.clone(), s));
    n
}
fn nstr(n: &Name) -> String { st(|t| t.names.get(n).cloned().unwrap_or_else(|| format!("?{:?}", n))) }

fn sub(p: &PathH, n: &Name) -> PathH {
    let mut names = p.names.clone();
    names.push(n.clone());
    PathH { names, s: format!("{}/{}", p.s, nstr(n)) }
}

/// The specification's form of a value.
pub fn form(v: &V) -> J {
    match v {
        V::I(k) => J::L(vec![s("i"), n(*k)]),
        V::P(a, b) => J::L(vec![s("p"), form(a), form(b)]),
        V::A(a) => st(|t| t.forms.get(a).cloned()).unwrap_or_else(|| J::L(vec![s("a"), s("?unknown")])),
    }
}
pub fn canon(j: &J) -> String {
    match j.at(0).str() {
        "i" => j.at(1).num().to_string(),
        "p" => format!("({},{})", canon(j.at(1)), canon(j.at(2))),
        "a" => format!("@{}", j.at(1).str()),
        "r" => format!("!{}", canon(j.at(1))),
        "n" => format!("~{}({}){}", j.at(1).num(), canon(j.at(2)), j.at(3).str()),
        "m" => format!("^{}{}", j.at(2).str(), canon(j.at(1))),
        x => panic!("value {}", x),
    }
}
/// The value with a given form, if all its articulations exist.
pub fn value(j: &J) -> Option<V> {
    Some(match j.at(0).str() {
        "i" => V::I(j.at(1).us()),
        "p" => V::P(Rc::new(value(j.at(1))?), Rc::new(value(j.at(2))?)),
        "a" => V::A(st(|t| t.arts.get(j.at(1).str()).cloned())?),
        "r" => { let v = value(j.at(1))?; V::A(unlocated(put(v), j.clone())) }
        "n" => V::A(naive_thunk(j.at(1).us(), value(j.at(2))?, name(j.at(3).str()), j.clone())),
        "m" => match value(j.at(1))? { V::A(a) => V::A(mapped(a, j.at(2).str(), j.clone())), _ => return None },
        _ => return None,
    })
}

fn naive_thunk(code: usize, arg: V, me: Name, form: J) -> Art<V> {
    unlocated(thunk(NameChoice::Naive, pt(code), plain_body(code), (arg, me), ()), form)
}
fn mapped(a: Art<V>, p: &str, form: J) -> Art<V> {
    let f = st(|t| t.maps.entry(p.to_string()).or_insert_with(|| { let q = p.to_string(); Rc::new(move |v: V| proj(&q, &v)) }).clone());
    unlocated(thunk_map(a, f), form)
}

/// The form of a value with every articulation replaced by what demanding it gives.
fn deep(v: &V, depth: usize) -> J {
    match v {
        V::I(k) => J::L(vec![s("i"), n(*k)]),
        V::P(a, b) => { let a = deep(a, depth); J::L(vec![s("p"), a, deep(b, depth)]) }
        V::A(a) => if depth == 0 { J::L(vec![s("d")]) } else { let v = force(a); J::L(vec![s("d"), deep(&v, depth - 1)]) },
    }
}

/// Note an articulation without location; gives back the articulation.
fn unlocated(a: Art<V>, form: J) -> Art<V> {
    st(|t| { t.forms.entry(a.clone()).or_insert(form); });
    a
}

/// Note a located articulation, allocated in `path` under `id`; gives its canonical location: that
/// of the node that it turns out to be.
fn located(a: &Art<V>, path: &PathH, id: &str, nm: Option<&Name>) -> String {
    let want = format!("{}:{}", path.s, id);
    if st(|t| t.naive) {
        // Equal articulations may have been allocated under different names.
        st(|t| { t.forms.insert(a.clone(), J::L(vec![s("a"), s(&want)])); t.arts.insert(want.clone(), a.clone()) });
        return want
    }
    if let Some(f) = st(|t| t.forms.get(a).cloned()) { return f.at(1).str().to_string() }
    let dbg = format!("{:?}", a);
    let key = match nm {
        Some(nm) => (path.names.clone(), nm.clone()),
        None => {
            let h: u64 = dbg.rsplit("id:").next().unwrap().trim_matches(|c: char| !c.is_ascii_digit()).parse().unwrap_or(0);
            (path.names.clone(), name_of_hash64(h))
        }
    };
    st(|t| {
        let mut l = want;
        while t.arts.contains_key(&l) { l.push('\'') }
        t.forms.insert(a.clone(), J::L(vec![s("a"), s(&l)]));
        t.arts.insert(l.clone(), a.clone());
        t.keys.insert(key, l.clone());
        l
    })
}

fn log(j: Vec<J>) {
    if st(|t| t.mid) { let m = reflection(); st(|t| t.mids.push(m)) }
    st(|t| t.log.push(J::L(j)))
}

static PTS: [&str; 40] = [
    "c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "c10", "c11", "c12", "c13", "c14", "c15", "c16",
    "c17", "c18", "c19", "c20", "c21", "c22", "c23", "c24", "c25", "c26", "c27", "c28", "c29", "c30", "c31", "c32",
    "c33", "c34", "c35", "c36", "c37", "c38", "c39",
];
fn pt(c: usize) -> ProgPt { ProgPt { symbol: PTS[c] } }

type Arg = (V, Name);

fn node_body(code: usize) -> Rc<Box<dyn Fn(Arg, Home) -> V>> {
    Rc::new(Box::new(move |(arg, me), home: Home| {
        let saved = st(|t| std::mem::replace(&mut t.path, home.path.clone()));
        let v = body(code, arg, me, &home.loc);
        st(|t| t.path = saved);
        v
    }))
}
fn plain_body(code: usize) -> Rc<Box<dyn Fn(Arg, ()) -> V>> {
    Rc::new(Box::new(move |(arg, me), _| body(code, arg, me, "")))
}

pub fn alloc_cell(nm: &str, nmn: Option<Name>, v: V) -> (Art<V>, String) {
    let nn = nmn.unwrap_or_else(|| name(nm));
    let a = cell(nn.clone(), v.clone());
    let (path, smode) = st(|t| (t.path.clone(), t.smode));
    let l = if smode { located(&a, &path, &format!("#v({})", canon(&form(&v))), None) } else { located(&a, &path, &nstr(&nn), Some(&nn)) };
    (a, l)
}
fn alloc_sthunk(code: usize, arg: V) -> (Art<V>, String) {
    let id = format!("#{}({})", code, canon(&form(&arg)));
    let path = st(|t| t.path.clone());
    let loc = format!("{}:{}", path.s, id);
    let a = thunk(NameChoice::Structural, pt(code), node_body(code), (arg, name(&id)), Home { path: path.clone(), loc });
    let l = located(&a, &path, &id, None);
    (a, l)
}
fn alloc_thunk(nn: Name, code: usize, arg: V) -> (Art<V>, String) {
    let (path, smode) = st(|t| (t.path.clone(), t.smode));
    let id = if smode { format!("#{}({})", code, canon(&form(&arg))) } else { nstr(&nn) };
    let me = if smode { name(&id) } else { nn.clone() };
    let loc = format!("{}:{}", path.s, id);
    let a = thunk(NameChoice::Nominal(nn.clone()), pt(code), node_body(code), (arg, me), Home { path: path.clone(), loc });
    let l = located(&a, &path, &id, if smode { None } else { Some(&nn) });
    (a, l)
}

struct Fam(String);
impl AbsMapFam<String, String, V, bool, V> for Fam {
    fn map(&self, arg: String, v: V) -> V { proj(&arg, &v) }
    fn abs(&self, arg: String) -> String { arg }
    fn join(&self, a: String, b: String) -> String { format!("{},{}", a, b) }
    fn diff(&self, a: &V, b: &V) -> bool { proj(&self.0, a) != proj(&self.0, b) }
    fn is_dirty(&self, d: bool, _: &String) -> bool { d }
}

fn demand(instr: &str, v: &V, extra: &J) -> V {
    let p = |j: &J| j.str().to_string();
    match (instr, v) {
        ("force", V::A(a)) => force(a),
        ("fcyc", V::A(a)) => force_cycle(a, value(extra)),
        ("fmap", V::A(a)) => { let p = p(extra); force_map(a, move |_, v| proj(&p, &v)) }
        ("fabs", V::A(a)) => { let p = p(extra); force_abs(Box::new(Fam(p.clone())), p, a.clone()) }
        ("fmap", v) | ("fabs", v) => proj(extra.str(), v),
        (_, v) => v.clone(),
    }
}

fn body(code: usize, arg: V, me: Name, loc: &str) -> V {
    log(vec![s("b"), s(loc), n(code), form(&arg), J::S(nstr(&me))]);
    let (prog, dbg) = st(|t| (t.codes[code - 1].clone(), t.dbg));
    if dbg { reflect::debug_begin(Some(me.clone()), Some("body".to_string())); reflect::debug_effect(None, Some("note".to_string())) }
    let mut regs = vec![V::I(0); NREG + 1];
    regs[1] = arg;
    let v = exec(&prog, &mut regs, &mut 1, usize::MAX, &me).expect("body without ret");
    if dbg { reflect::debug_end() }
    log(vec![s("x"), form(&v)]);
    v
}

/// Executes from *pc while *pc <= end.
fn exec(prog: &Vec<J>, r: &mut Vec<V>, pc: &mut usize, end: usize, me: &Name) -> Option<V> {
    while *pc <= end {
        let i = prog[*pc - 1].clone();
        let op = i.at(0).str().to_string();
        let nm = |j: &J, r: &Vec<V>| -> Name {
            match j.at(0).str() {
                "s" => name(j.at(1).str()),
                "self" => pair(me, &name(j.at(1).str())),
                _ => pair(&name(&format!("m{}", j.at(1).us())), &name(&canon(&form(&r[j.at(2).us()])))),
            }
        };
        let smode = st(|t| t.smode);
        match op.as_str() {
            "const" => r[i.at(1).us()] = value(i.at(2)).unwrap(),
            "glob" => {
                let l = i.at(2).str();
                r[i.at(1).us()] = V::A(st(|t| t.arts.get(l).cloned()).unwrap_or_else(|| panic!("harness: no {}", l)))
            }
            "move" => r[i.at(1).us()] = r[i.at(2).us()].clone(),
            "add" => r[i.at(1).us()] = V::I((numof(&r[i.at(2).us()]) + numof(&r[i.at(3).us()])) % MOD),
            "pair" => r[i.at(1).us()] = V::P(Rc::new(r[i.at(2).us()].clone()), Rc::new(r[i.at(3).us()].clone())),
            "proj" => r[i.at(1).us()] = proj(i.at(2).str(), &r[i.at(3).us()]),
            "jpair" => if let V::P(..) = r[i.at(1).us()] { *pc += i.at(2).us() },
            "jz" => if numof(&r[i.at(1).us()]) == 0 { *pc += i.at(2).us() },
            "jodd" => if numof(&r[i.at(1).us()]) % 2 == 1 { *pc += i.at(2).us() },
            "force" | "fcyc" | "fmap" | "fabs" => {
                let a = r[i.at(2).us()].clone();
                let extra = if op == "force" { J::Null } else { i.at(3).clone() };
                let v = demand(&op, &a, &extra);
                let p = if op == "fmap" || op == "fabs" { extra } else { s("id") };
                log(vec![s("o"), s(&op), form(&a), p, form(&v)]);
                r[i.at(1).us()] = v
            }
            "cell" => {
                let v = r[i.at(3).us()].clone();
                let (a, l) = alloc_cell("", Some(nm(i.at(2), r)), v.clone());
                log(vec![s("a"), s(if smode { "scell" } else { "cell" }), s(&l), form(&v)]);
                r[i.at(1).us()] = V::A(a)
            }
            "thunk" => {
                let v = r[i.at(4).us()].clone();
                let (a, l) = alloc_thunk(nm(i.at(2), r), i.at(3).us(), v.clone());
                log(vec![s("a"), s(if smode { "sthunk" } else { "thunk" }), s(&l), form(&v)]);
                r[i.at(1).us()] = V::A(a)
            }
            "sthunk" => {
                let v = r[i.at(3).us()].clone();
                let (a, l) = alloc_sthunk(i.at(2).us(), v.clone());
                log(vec![s("a"), s("sthunk"), s(&l), form(&v)]);
                r[i.at(1).us()] = V::A(a)
            }
            "tryset" => {
                let (a, v) = (r[i.at(2).us()].clone(), r[i.at(3).us()].clone());
                let done = match a { V::A(a) => catch_unwind(AssertUnwindSafe(|| set(&a, v))).is_ok(), _ => false };
                r[i.at(1).us()] = V::I(if done { 0 } else { 1 })
            }
            "put" => {
                let v = r[i.at(2).us()].clone();
                r[i.at(1).us()] = V::A(unlocated(put(v.clone()), J::L(vec![s("r"), form(&v)])))
            }
            "nthunk" => {
                let (c, v) = (i.at(3).us(), r[i.at(4).us()].clone());
                let me2 = pair(me, &name(i.at(2).str()));
                let f = J::L(vec![s("n"), n(c), form(&v), J::S(nstr(&me2))]);
                r[i.at(1).us()] = V::A(naive_thunk(c, v, me2, f))
            }
            "tmap" => {
                if let V::A(a) = r[i.at(2).us()].clone() {
                    let p = i.at(3).str();
                    let fm = J::L(vec![s("m"), form(&V::A(a.clone())), s(p)]);
                    r[i.at(1).us()] = V::A(mapped(a, p, fm))
                } else { r[i.at(1).us()] = r[i.at(2).us()].clone() }
            }
            "eager" => {
                let (c, v) = (i.at(3).us(), r[i.at(4).us()].clone());
                let me2 = pair(me, &name(i.at(2).str()));
                let out = Rc::new(RefCell::new(None));
                let out2 = out.clone();
                let f: Rc<Box<dyn Fn(Arg, ()) -> V>> = Rc::new(Box::new(move |(arg, me), _| {
                    let v = body(c, arg, me, "");
                    *out2.borrow_mut() = Some(v.clone());
                    v
                }));
                let a = thunk(NameChoice::Eager, pt(c), f, (v, me2), ());
                let v = out.borrow().clone();
                let v = v.map(|v| form(&v)).unwrap_or(J::L(vec![s("i"), n(0)])); // the naive engine runs it later
                r[i.at(1).us()] = V::A(unlocated(a, J::L(vec![s("r"), v])))
            }
            "ns" => {
                let nn = nm(i.at(1), r);
                let last = *pc + i.at(2).us();
                let saved = st(|t| t.path.clone());
                let inner = sub(&saved, &nn);
                *pc += 1;
                st(|t| t.path = inner);
                let res = ns(nn, || exec(prog, r, pc, last, me));
                st(|t| t.path = saved);
                if res.is_some() { return res }
                continue;
            }
            "struct" => {
                let last = *pc + i.at(1).us();
                *pc += 1;
                st(|t| t.smode = true);
                let res = structural(|| exec(prog, r, pc, last, me));
                st(|t| t.smode = smode);
                if res.is_some() { return res }
                continue;
            }
            "ret" => return Some(r[i.at(1).us()].clone()),
            x => panic!("instruction {}", x),
        }
        *pc += 1;
    }
    None
}

// ----- Editor operations

fn in_ns<R>(names: &[J], f: &mut dyn FnMut() -> R) -> R {
    match names.split_first() {
        None => f(),
        Some((h, tl)) => {
            let nn = name(h.str());
            let saved = st(|t| t.path.clone());
            let inner = sub(&saved, &nn);
            st(|t| t.path = inner);
            let v = ns(nn, || in_ns(tl, f));
            st(|t| t.path = saved);
            v
        }
    }
}

/// None if an articulation that the operation mentions does not exist (yet).
fn prepared(op: &J) -> Option<Vec<V>> {
    match op.at(0).str() {
        "cell" => Some(vec![value(op.at(3))?]),
        "scell" => Some(vec![value(op.at(2))?]),
        "thunk" => Some(vec![value(op.at(4))?]),
        "sthunk" => Some(vec![value(op.at(3))?]),
        "set" | "nset" => Some(vec![value(op.at(1))?, value(op.at(2))?]),
        _ => Some(vec![value(op.at(1))?]),
    }
}

fn perform(op: &J, vs: &Vec<V>) -> V {
    match op.at(0).str() {
        "cell" => in_ns(op.at(1).list(), &mut || V::A(alloc_cell(op.at(2).str(), None, vs[0].clone()).0)),
        "scell" => in_ns(op.at(1).list(), &mut || {
            st(|t| t.smode = true);
            let a = structural(|| alloc_cell("ignored", None, vs[0].clone()).0);
            st(|t| t.smode = false);
            V::A(a)
        }),
        "thunk" => in_ns(op.at(1).list(), &mut || V::A(alloc_thunk(name(op.at(2).str()), op.at(3).us(), vs[0].clone()).0)),
        "sthunk" => in_ns(op.at(1).list(), &mut || V::A(alloc_sthunk(op.at(2).us(), vs[0].clone()).0)),
        "set" | "nset" => { if let V::A(ref a) = vs[0] { set(a, vs[1].clone()) } else { panic!("set: not an articulation") }; V::I(0) }
        "force" => demand("force", &vs[0], &J::Null),
        d => demand(d, &vs[0], op.at(2)),
    }
}

// ----- Reflection

fn key(l: &reflect::Loc) -> J {
    let k = (l.path.clone(), l.name.clone());
    J::S(st(|t| t.keys.get(&k).cloned()).unwrap_or_else(|| format!("?{:?}", l)))
}
fn eff(e: &reflect::Effect) -> J { s(match e { reflect::Effect::Force => "obs", reflect::Effect::Alloc => "alloc" }) }

pub fn snapshot() -> J {
    let d = match reflect::dcg_reflect_now() { None => return J::L(vec![]), Some(d) => d };
    let mut out = vec![];
    for (l, nd) in d.table.iter() {
        let succs = reflect::succs_of_node(nd).map(|v| v.iter().map(|e| J::L(vec![key(&e.loc), eff(&e.effect), J::B(e.dirty)])).collect()).unwrap_or(vec![]);
        let preds = reflect::preds_of_node(nd).map(|v| v.iter().map(|e| J::L(vec![key(&e.loc), eff(&e.effect)])).collect()).unwrap_or(vec![]);
        let (k, res) = match nd { reflect::Node::Comp(c) => ("comp", c.value.is_some()), reflect::Node::Ref(_) => ("mut", true), reflect::Node::Pure(_) => ("pure", true) };
        out.push(J::obj(vec![("loc", key(l)), ("k", s(k)), ("res", J::B(res)), ("succs", J::L(succs)), ("preds", J::L(preds))]));
    }
    out.sort();
    J::L(out)
}

/// The specification's form of a reflected value; <<"?">> for articulations without a location.
fn seen(v: &reflect::Val) -> J {
    use reflect::{Const, Val};
    if let Val::Constr(c, vs) = v {
        let is = |x: &str| *c == name_of_string(x.to_string());
        match &vs[..] {
            [Val::Const(Const::Nat(k))] if is("I") => return J::L(vec![s("i"), n(*k)]),
            [a, b] if is("P") => return J::L(vec![s("p"), seen(a), seen(b)]),
            [Val::Art(l, _)] if is("A") => return J::L(vec![s("a"), key(l)]),
            [_] if is("A") => return J::L(vec![s("?")]),
            _ => (),
        }
    }
    J::L(vec![s("odd"), J::S(format!("{:?}", v))])
}

/// The reflected graph: the contents and results of its nodes, what is running, and where.
fn reflection() -> J {
    let d = match reflect::dcg_reflect_now() { None => return J::Null, Some(d) => d };
    let edges = |v: &Vec<reflect::Succ>| J::L(v.iter().map(|e| J::L(vec![key(&e.loc), eff(&e.effect), J::B(e.dirty)])).collect());
    let mut vals: Vec<J> = d.table.iter().map(|(l, nd)| J::L(match nd {
        reflect::Node::Comp(c) => vec![key(l), s("thunk"), c.value.as_ref().map(seen).unwrap_or(J::L(vec![])), s(c.prog_pt.symbol)],
        reflect::Node::Ref(c) => vec![key(l), s("cell"), seen(&c.value), s("")],
        reflect::Node::Pure(c) => vec![key(l), s("cell"), seen(&c.value), s("")],
    })).collect();
    vals.sort();
    J::obj(vec![("vals", J::L(vals)),
                ("stack", J::L(d.stack.iter().map(|f| J::obj(vec![("loc", key(&f.loc)), ("succs", edges(&f.succs))])).collect())),
                ("path", J::S(d.path.iter().map(|x| format!("/{}", nstr(x))).collect::<String>()))])
}

// ----- The numbered dumps of the graph (ADAPTON_WRITE_DCG)

fn dumps() -> Vec<(u64, std::path::PathBuf)> {
    let mut v: Vec<_> = std::fs::read_dir(".").unwrap().filter_map(|e| {
        let e = e.unwrap();
        let f = e.file_name().into_string().unwrap();
        let k = f.strip_prefix("adapton-dcg-")?.strip_suffix(".dot")?.parse().ok()?;
        Some((k, e.path()))
    }).collect();
    v.sort();
    v
}

/// Debug output of a location as that of an articulation, which can be reflected.
struct AsArt<'a>(&'a str);
impl<'a> std::fmt::Debug for AsArt<'a> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "Art {{ art: {} }}", self.0) } }

fn dot_id<'a>(l: &'a str) -> Option<(J, &'a str)> {
    let l = l.trim_start().strip_prefix('"')?;
    let mut id = String::new();
    let mut cs = l.char_indices();
    loop {
        match cs.next()?.1 {
            '"' => break,
            '\\' => match cs.next()?.1 { '"' => id.push('"'), c => { if c != '\\' { id.push('\\') } ; id.push(c) } },
            c => id.push(c),
        }
    }
    let rest = cs.as_str();
    let v = catch_unwind(AssertUnwindSafe(|| reflect::reflect_val(&AsArt(&id))));
    let k = match v { Ok(reflect::Val::Art(ref l, _)) => key(l), _ => J::S(format!("?{}", id)) };
    Some((k, rest))
}

fn dot_attrs<'a>(l: &'a str) -> Option<HashMap<&'a str, &'a str>> {
    let l = l.trim().trim_end_matches(';').trim();
    if l.is_empty() { return Some(HashMap::new()) }
    let l = l.strip_prefix('[')?.strip_suffix(']')?;
    l.split(',').map(|a| { let mut kv = a.splitn(2, '='); Some((kv.next()?.trim(), kv.next()?.trim().trim_matches('"'))) }).collect()
}

/// The newest dump: the boxes, the edges as <<from, to, color>>, in order, and what could not be read.
pub fn dump() -> J {
    // Whatever has changed is dumped at the next operation, if not before.
    let _ = force(&put(0usize));
    let mut fs = dumps();
    let (_, f) = match fs.pop() { None => return J::Null, Some(f) => f };
    for (_, f) in fs { std::fs::remove_file(f).unwrap() }
    let (mut boxes, mut edges, mut odd) = (vec![], vec![], vec![]);
    for l in std::fs::read_to_string(f).unwrap().lines().map(|l| l.trim()) {
        if l.is_empty() || l == "}" || l.starts_with("digraph") || !l.starts_with('"') && l.contains('=') { continue }
        let r = (|| {
            let (from, rest) = dot_id(l)?;
            match rest.trim_start().strip_prefix("->") {
                None => { if dot_attrs(rest)?.get("shape") == Some(&"box") { boxes.push(from) } else { return None } }
                Some(rest) => {
                    let (to, rest) = dot_id(rest)?;
                    edges.push(J::L(vec![from, to, s(dot_attrs(rest)?.get("color")?)]));
                }
            };
            Some(())
        })();
        if r.is_none() { odd.push(s(l)) }
    }
    J::obj(vec![("boxes", J::L(boxes)), ("edges", J::L(edges)), ("odd", J::L(odd))])
}

fn dirty_set(t: &reflect::trace::Trace, acc: &mut Vec<J>) {
    if let reflect::trace::EffectEdge::Fwd(ref e) = t.edge {
        acc.push(J::L(vec![e.loc.as_ref().map(key).unwrap_or(s("")), key(&e.succ.loc), eff(&e.succ.effect)]))
    } else { acc.push(s("?edge")) }
    for x in t.extent.iter() {
        if let reflect::trace::Effect::Dirty = x.effect { dirty_set(x, acc) } else { acc.push(J::S(format!("?{:?}", x.effect))) }
    }
}

/// The recorded trace as the specification's event list.
pub fn events(ts: &Vec<reflect::trace::Trace>, out: &mut Vec<J>) {
    use reflect::trace::*;
    let mut i = 0;
    while i < ts.len() {
        if let Effect::Dirty = ts[i].effect {
            let mut acc = vec![];
            while i < ts.len() {
                if let Effect::Dirty = ts[i].effect { dirty_set(&ts[i], &mut acc); i += 1 } else { break }
            }
            acc.sort();
            out.push(J::L(vec![s("dirty"), J::L(acc)]));
            continue;
        }
        let t = &ts[i];
        i += 1;
        let (from, to, e, dup) = match t.edge {
            EffectEdge::Fwd(ref e) => (e.loc.as_ref().map(key).unwrap_or(s("")), key(&e.succ.loc), eff(&e.succ.effect), J::B(e.succ.is_dup)),
            _ => (s("?none"), s("?none"), s(""), J::B(true)),
        };
        let (head, extent) = match t.effect {
            Effect::Debug(ref x, ref m) => (vec![s("b"), s("debug"), J::S(x.as_ref().map(nstr).unwrap_or_default()), J::S(m.clone().unwrap_or_default())], true),
            Effect::Alloc(ref c, ref k) => {
                let c = match c { AllocCase::LocFresh => "fresh", AllocCase::LocExists(ChangeFlag::ContentSame) => "same", AllocCase::LocExists(ChangeFlag::ContentDiff) => "diff" };
                let k = match k { AllocKind::RefCell => "cell", AllocKind::Thunk => "thunk" };
                (vec![s("alloc"), s(c), s(k), from, to, e], true)
            }
            Effect::Force(ForceCase::RefGet) => (vec![s("get"), from, to, dup, e], false),
            Effect::Force(ForceCase::CompCacheHit) => (vec![s("b"), s("hit"), from, to, dup, e], true),
            Effect::Force(ForceCase::CompCacheMiss) => (vec![s("b"), s("miss"), from, to, dup, e], true),
            Effect::CleanRec => (vec![s("b"), s("cleanrec"), from, to, e], true),
            Effect::CleanEval => (vec![s("b"), s("cleaneval"), from, to, e], true),
            Effect::CleanEdge => (vec![s("cleanedge"), from, to, e], false),
            Effect::Remove => (vec![s("remove"), from, to, e], false),
            Effect::Dirty => unreachable!(),
        };
        out.push(J::L(head));
        if extent || !t.extent.is_empty() {
            events(&t.extent, out);
            out.push(J::L(vec![s("e")]));
        }
    }
}

pub fn panic_kind(e: Box<dyn std::any::Any + Send>) -> String {
    let m = if let Some(x) = e.downcast_ref::<String>() { x.clone() } else if let Some(x) = e.downcast_ref::<&str>() { x.to_string() } else { String::from("?") };
    if m.contains("unexpected cycle") { "cycle".into() }
    else if m.contains("dangling") { "dangling".into() }
    else if m.contains("functions not equal") { "fn".into() }
    else if m.starts_with("harness:") { m }
    else { format!("other: {}", m.chars().take(160).collect::<String>()) }
}

/// Every articulation in a form.
fn arts_in(j: &J, out: &mut Vec<J>) {
    match j.at(0).str() {
        "p" => { arts_in(j.at(1), out); arts_in(j.at(2), out) }
        "a" | "r" | "n" | "m" => out.push(j.clone()),
        _ => (),
    }
}

fn record(id: &J, k: usize, op: &J, out: J, trace: Option<Vec<J>>, snap: bool, dumped: bool) -> J {
    let lg = st(|t| std::mem::take(&mut t.log));
    let mut o = vec![("t", id.clone()), ("k", n(k)), ("op", op.clone()), ("out", out), ("lg", J::L(lg))];
    if let Some(ev) = trace { o.push(("ev", J::L(ev))) }
    // Which engine does the library say is current?
    o.push(("eng", s(match (manage::engine_is_naive(), manage::engine_is_dcg()) { (true, false) => "naive", (false, true) => "dcg", _ => "neither" })));
    if st(|t| t.mid) {
        o.push(("mids", J::L(st(|t| std::mem::take(&mut t.mids)))));
        o.push(("now", reflection()));
    }
    if snap {
        // Reflecting the graph parses debug output; whether that works is another matter.
        let sn = catch_unwind(AssertUnwindSafe(snapshot)).unwrap_or(J::Null);
        if sn != J::Null { o.push(("snap", sn)) }
    }
    if dumped {
        let d = catch_unwind(AssertUnwindSafe(dump)).unwrap_or(J::Null);
        o.push(("dump", if d == J::Null { J::obj(vec![("boxes", J::L(vec![])), ("edges", J::L(vec![])), ("odd", J::L(vec![s("no dump")]))]) } else { d }))
    }
    J::obj(o)
}

fn run_op(op: &J, vs: &Vec<V>, tracing: bool, dbg: bool) -> (J, Option<Vec<J>>, bool) {
    if tracing { reflect::dcg_reflect_begin() }
    if dbg { reflect::debug_begin(None, Some("op".to_string())) }
    let r = catch_unwind(AssertUnwindSafe(|| match op.at(0).str() {
        "deep" => { let v = demand("force", &vs[0], &J::Null); deep(&v, op.at(2).us()) }
        _ => { let v = perform(op, vs); form(&v) }
    }));
    let ok = r.is_ok();
    if dbg && ok { reflect::debug_end() }
    let ev = if tracing && ok {
        let mut ev = vec![];
        let ts = reflect::dcg_reflect_end();
        if st(|t| t.count) {
            let mut h = vec![];
            crate::counts::flat(&ts, &mut h);
            // Counting may itself go wrong; report that as such.
            let c = catch_unwind(AssertUnwindSafe(|| crate::counts::count(&ts, None)));
            let (c, p) = match c { Ok((c, p, _)) => (c, p), Err(_) => (s("panic"), s("panic")) };
            ev = vec![J::L(h), c, p];
        } else { events(&ts, &mut ev) }
        Some(ev)
    } else {
        if tracing {
            // abandon the recording, whatever its nesting
            for _ in 0..10000 {
                if catch_unwind(|| reflect::dcg_reflect_end()).is_ok() { break }
                if catch_unwind(|| reflect::debug_end()).is_err() { break }
            }
        }
        None
    };
    let out = match r { Ok(f) => f, Err(e) => J::L(vec![s("panic"), J::S(panic_kind(e))]) };
    (out, ev, ok)
}

/// One editor with an engine of its own.
struct Session { id: J, ops: Vec<J>, at: usize, k: usize, st: St, engine: Option<Engine>, outer: Option<Engine>, over: bool,
                 snap: bool, tracing: bool, deep: usize, dbg: bool, quiet: bool, dump: bool }

impl Session {
    /// Starts a session: in a fresh engine, which becomes the current one.
    fn new(t: &J) -> Session {
        for v in ["ADAPTON_NO_PURITY", "ADAPTON_STRUCTURAL", "ADAPTON_CHECK_DCG", "ADAPTON_WRITE_DCG", "ADAPTON_GMLOG_DCG"] { std::env::remove_var(v) }
        if let Some(e) = t.get("env") { for v in e.list() { std::env::set_var(v.str(), "1") } }
        let flag = |k: &str| t.get(k).map(|j| j.is_true()).unwrap_or(false);
        ST.with(|s| *s.borrow_mut() = St::default());
        COARSE.with(|c| c.set(flag("coarse")));
        st(|x| { x.naive = flag("naive") || flag("loose"); x.dbg = flag("dbg"); x.count = flag("count"); x.mid = flag("mid") });
        st(|x| x.codes = t.get("codes").unwrap().list().iter().map(|c| c.list().clone()).collect());
        if flag("dump") {
            // The files of this process alone.
            let d = format!("dumps{}", std::process::id());
            if !std::env::current_dir().unwrap().ends_with(&d) { std::fs::create_dir_all(&d).unwrap(); std::env::set_current_dir(&d).unwrap() }
            for (_, f) in dumps() { std::fs::remove_file(f).unwrap() }
        }
        let outer = Some(if flag("naive") { manage::init_naive() } else { manage::init_dcg() });
        Session { id: t.get("id").unwrap().clone(), ops: t.get("ops").unwrap().list().clone(), at: 0, k: 0, st: St::default(), engine: None, outer, over: false,
                  snap: flag("snap"), tracing: flag("trace"), deep: t.get("deep").map(|j| j.us()).unwrap_or(0), dbg: flag("dbg"), quiet: flag("quiet"), dump: flag("dump") }
    }
    /// Performs the next operation, in the current engine.
    fn step(&mut self, emit: &mut dyn FnMut(&J)) {
        if self.over || self.at >= self.ops.len() { return }
        let op = self.ops[self.at].clone();
        self.at += 1;
        let mut todo = vec![(op, 0)];
        let mut seen = vec![];
        while let Some((op, depth)) = todo.pop() {
            let vs = match prepared(&op) { None => continue, Some(vs) => vs };
            st(|t| { t.path = PathH::default(); t.smode = false; t.log.clear(); t.mids.clear() });
            emit(&J::obj(vec![("t", self.id.clone()), ("k", n(self.k)), ("begin", op.clone())]));
            let (out, ev, ok) = run_op(&op, &vs, self.tracing, self.dbg);
            emit(&record(&self.id, self.k, &op, out.clone(), if self.quiet { None } else { ev }, self.snap && (ok || SETS.contains(&op.at(0).str())), self.dump && ok));
            self.k += 1;
            if !ok && !SETS.contains(&op.at(0).str()) { self.over = true; return }
            // Demand the articulations within a demanded result, too.
            if ok && depth < self.deep && ["force", "fmap", "fabs"].contains(&op.at(0).str()) {
                let mut inner = vec![];
                arts_in(&out, &mut inner);
                inner.reverse();
                for a in inner {
                    if a.at(0).str() == "a" && !seen.contains(&a) { seen.push(a.clone()); todo.push((J::L(vec![s("force"), a]), depth + 1)) }
                }
            }
        }
    }
    fn swap_st(&mut self) { ST.with(|s| std::mem::swap(&mut *s.borrow_mut(), &mut self.st)) }
}

/// Runs one trace request: {id, codes, ops, env:[names], snap, trace, deep, dbg, naive}, or several
/// interleaved ones, each in an engine of its own: {id, multi:[requests], sched:[indices]}.
/// Prints one line per operation performed.
pub fn run_trace(t: &J, emit: &mut dyn FnMut(&J)) {
    if let Some(m) = t.get("multi") { return run_multi(t, m.list(), emit) }
    let mut x = Session::new(t);
    while !x.over && x.at < x.ops.len() { x.step(emit) }
}

fn run_multi(t: &J, subs: &Vec<J>, emit: &mut dyn FnMut(&J)) {
    // With "direct", each editor's engine stays in place until another's takes it; else the
    // naive engine is in place between their operations.
    let direct = t.get("direct").map(|j| j.is_true()).unwrap_or(false);
    let mut xs: Vec<Session> = vec![];
    manage::init_naive();
    for u in subs {
        let mut x = Session::new(u);
        x.swap_st();
        if let (true, Some(was)) = (direct, xs.last_mut()) { was.engine = x.outer.take() }
        if !direct { x.engine = Some(manage::init_naive()) }
        xs.push(x);
    }
    let mut cur = xs.len() - 1;
    for (turn, i) in t.get("sched").unwrap().list().iter().enumerate() {
        let i = i.us();
        let switch = if turn % 3 == 0 { manage::init_engine } else { manage::use_engine };
        let outer = if direct {
            if cur != i {
                let mine = xs[i].engine.take().unwrap();
                xs[cur].engine = Some(switch(mine));
                cur = i;
            }
            None
        } else { Some(switch(xs[i].engine.take().unwrap())) };
        let x = &mut xs[i];
        x.swap_st();
        x.step(&mut |j: &J| {
            let mut o = match j { J::O(o) => o.clone(), _ => unreachable!() };
            o.insert("sub".to_string(), n(i));
            o.insert("t".to_string(), t.get("id").unwrap().clone());
            emit(&J::O(o))
        });
        x.swap_st();
        if let Some(e) = outer { x.engine = Some(switch(e)) }
    }
}
