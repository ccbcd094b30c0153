//! Names used for contents of different types and code (see spec/Ambig.tla).
use crate::json::*;
use adapton::engine::*;
use adapton::macros::ProgPt;
use std::cell::RefCell;
use std::fmt::Debug;
use std::hash::Hash;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct W(usize);

trait Val: Clone + Eq + Hash + Debug + 'static {
    const T: &'static str;
    const IX: usize;
    fn mk(core: usize) -> Self;
    fn core(&self) -> usize;
    fn wrap(a: Art<Self>) -> H;
}
macro_rules! val { ($t:ty, $c:ident, $n:expr, $ix:expr, |$k:ident| $mk:expr, |$x:ident| $core:expr) => {
    impl Val for $t {
        const T: &'static str = $n;
        const IX: usize = $ix;
        fn mk($k: usize) -> Self { $mk }
        fn core(&self) -> usize { let $x = self; $core }
        fn wrap(a: Art<Self>) -> H { H::$c(a) }
    }
}}
#[derive(Clone)]
enum H { U(Art<usize>), I(Art<isize>), S(Art<String>), P(Art<(usize, usize)>), W(Art<W>) }
val!(usize, U, "U", 1, |k| k, |x| *x);
val!(isize, I, "I", 2, |k| k as isize, |x| *x as usize);
val!(String, S, "S", 3, |k| k.to_string(), |x| x.parse().unwrap());
val!((usize, usize), P, "P", 4, |k| (k, k + 1), |x| if x.1 == x.0 + 1 { x.0 } else { 999999 });
val!(W, W, "W", 5, |k| W(k), |x| x.0);

/// Code is told apart by the whole of its symbol: these share their ends and their beginnings.
fn pt(k: usize) -> ProgPt { ProgPt { symbol: ["f", "a :: f", "b :: f", "f :: < usize >", "a :: f :: g", "a", "F", "aa :: f", "b :: f :: < usize >", "ab :: f"][k] } }

fn with_spurious<A: Val, R: Val, S: Clone + 'static>(id: NameChoice, sym: usize, core: usize, sp: S) -> H {
    let f: Rc<Box<dyn Fn(A, S) -> R>> = Rc::new(Box::new(move |a, _| R::mk(sym * 100 + A::IX * 10 + a.core())));
    R::wrap(thunk(id, pt(sym), f, A::mk(core), sp))
}
fn with_res<A: Val, R: Val>(id: NameChoice, c: &J, core: usize) -> H {
    let sym = c.at(0).us();
    if c.at(3).str() == "num" { with_spurious::<A, R, usize>(id, sym, core, 7) } else { with_spurious::<A, R, ()>(id, sym, core, ()) }
}
fn with_arg<A: Val>(id: NameChoice, c: &J, core: usize) -> H {
    match c.at(2).str() {
        "U" => with_res::<A, usize>(id, c, core),
        "I" => with_res::<A, isize>(id, c, core),
        "S" => with_res::<A, String>(id, c, core),
        "P" => with_res::<A, (usize, usize)>(id, c, core),
        "W" => with_res::<A, W>(id, c, core),
        x => panic!("type {}", x),
    }
}
fn a_thunk(id: NameChoice, c: &J, core: usize) -> H {
    match c.at(1).str() {
        "U" => with_arg::<usize>(id, c, core),
        "I" => with_arg::<isize>(id, c, core),
        "S" => with_arg::<String>(id, c, core),
        "P" => with_arg::<(usize, usize)>(id, c, core),
        "W" => with_arg::<W>(id, c, core),
        x => panic!("type {}", x),
    }
}
fn a_cell(nm: Name, t: &str, core: usize) -> H {
    match t {
        "U" => H::U(cell(nm, core)),
        "I" => H::I(cell(nm, core as isize)),
        "S" => H::S(cell(nm, core.to_string())),
        "P" => H::P(cell(nm, (core, core + 1))),
        "W" => H::W(cell(nm, W(core))),
        x => panic!("type {}", x),
    }
}
fn res<T: Val>(x: T) -> J { J::L(vec![s(T::T), n(x.core())]) }
fn demand<T: Val>(a: &Art<T>, map: bool) -> J { res(if map { force_map(a, |_, x| x) } else { force(a) }) }

// The functions that are mapped over thunks: they are compared by identity.
thread_local!(static MAPS: RefCell<Vec<Rc<dyn Fn(usize) -> usize>>> = RefCell::new(vec![Rc::new(|x| 160 + x), Rc::new(|x| 260 + x)]));

/// In a namespace, which is left in order even if `f` is refused.
fn at<R>(path: &str, f: impl FnOnce() -> R) -> Option<R> {
    let g = || catch_unwind(AssertUnwindSafe(f)).ok();
    if path.is_empty() { g() } else { ns(name_of_string(path.to_string()), g) }
}

/// Performs an operation; what it gives, and the articulation, if it is an allocation.
fn perform(op: &J, hs: &Vec<Option<H>>) -> (J, Option<H>) {
    let nm = |j: &J| name_of_string(j.str().to_string());
    let ok = |h: Option<H>| (J::L(vec![s(if h.is_some() { "ok" } else { "panic" })]), h);
    let h = |j: &J| hs[j.us() - 1].clone().unwrap();
    match op.at(1).str() {
        "cell" => ok(at(op.at(2).str(), || a_cell(nm(op.at(3)), op.at(4).str(), op.at(5).us()))),
        "thunk" => ok(at(op.at(2).str(), || a_thunk(NameChoice::Nominal(nm(op.at(3))), op.at(4), op.at(5).us()))),
        "scell" => ok(at(op.at(2).str(), || structural(|| a_cell(name_unit(), op.at(3).str(), op.at(4).us())))),
        "sthunk" => ok(at(op.at(2).str(), || a_thunk(NameChoice::Structural, op.at(3), op.at(4).us()))),
        "watch" => {
            let sym = op.at(4).us();
            let a = match h(op.at(5)) { H::U(a) => a, _ => unreachable!() };
            let f: Rc<Box<dyn Fn(Art<usize>, ()) -> String>> = Rc::new(Box::new(move |a, _| (sym * 100 + 60 + force(&a)).to_string()));
            ok(at(op.at(2).str(), || H::S(thunk(NameChoice::Nominal(nm(op.at(3))), pt(sym), f, a, ()))))
        }
        "swatch" => {
            let sym = op.at(3).us();
            let a = match h(op.at(4)) { H::U(a) => a, _ => unreachable!() };
            let f: Rc<Box<dyn Fn(Art<usize>, ()) -> String>> = Rc::new(Box::new(move |a, _| (sym * 100 + 60 + force(&a)).to_string()));
            ok(at(op.at(2).str(), || H::S(thunk(NameChoice::Structural, pt(sym), f, a, ()))))
        }
        "naive" => ok(at("", || a_thunk(NameChoice::Naive, op.at(2), op.at(3).us()))),
        "put" => ok(at("", || match op.at(2).str() {
            "U" => H::U(put(Val::mk(op.at(3).us()))), "I" => H::I(put(Val::mk(op.at(3).us()))), "S" => H::S(put(Val::mk(op.at(3).us()))),
            "P" => H::P(put(Val::mk(op.at(3).us()))), "W" => H::W(put(Val::mk(op.at(3).us()))), x => panic!("type {}", x) })),
        "tmap" => {
            let a = match h(op.at(3)) { H::U(a) => a, _ => unreachable!() };
            let f = MAPS.with(|m| m.borrow()[op.at(2).us() - 1].clone());
            ok(at("", || H::U(thunk_map(a, f))))
        }
        "same" => (J::L(vec![s(if match (h(op.at(2)), h(op.at(3))) {
            (H::U(a), H::U(b)) => a == b, (H::I(a), H::I(b)) => a == b, (H::S(a), H::S(b)) => a == b, (H::P(a), H::P(b)) => a == b, (H::W(a), H::W(b)) => a == b, _ => unreachable!()
        } { "yes" } else { "no" })]), None),
        k @ ("force" | "fmap") => {
            let m = k == "fmap";
            (match h(op.at(2)) { H::U(a) => demand(&a, m), H::I(a) => demand(&a, m), H::S(a) => demand(&a, m), H::P(a) => demand(&a, m), H::W(a) => demand(&a, m) }, None)
        }
        "set" => {
            let k = op.at(3).us();
            match h(op.at(2)) { H::U(a) => set(&a, Val::mk(k)), H::I(a) => set(&a, Val::mk(k)), H::S(a) => set(&a, Val::mk(k)), H::P(a) => set(&a, Val::mk(k)), H::W(a) => set(&a, Val::mk(k)) }
            (J::L(vec![s("ok")]), None)
        }
        x => panic!("operation {}", x),
    }
}

fn usable(op: &J, hs: &Vec<Option<H>>) -> bool {
    let h = |j: &J| hs.get(j.us() - 1).cloned().flatten();
    match op.at(1).str() {
        "watch" => matches!(h(op.at(5)), Some(H::U(_))),
        "swatch" => matches!(h(op.at(4)), Some(H::U(_))),
        "tmap" => matches!(h(op.at(3)), Some(H::U(_))),
        "same" => match (h(op.at(2)), h(op.at(3))) {
            (Some(H::U(_)), Some(H::U(_))) | (Some(H::I(_)), Some(H::I(_))) | (Some(H::S(_)), Some(H::S(_))) | (Some(H::P(_)), Some(H::P(_))) | (Some(H::W(_)), Some(H::W(_))) => true, _ => false },
        "force" | "fmap" | "set" => h(op.at(2)).is_some(),
        _ => true,
    }
}

pub fn run(t: &J, emit: &mut dyn FnMut(&J)) {
    manage::init_dcg();
    let mut hs: Vec<Option<H>> = vec![];
    let mut outs = vec![];
    for (k, op) in t.get("ops").unwrap().list().iter().enumerate() {
        if !usable(op, &hs) { hs.push(None); outs.push(J::L(vec![s("skip")])); continue }
        let tried = |op: &J, hs: &Vec<Option<H>>| catch_unwind(AssertUnwindSafe(|| perform(op, hs))).unwrap_or((J::L(vec![s("panic")]), None));
        let (out, h) = if op.at(0).str() == "t" {
            // Performed by the body of a thunk, which survives what is refused.
            let slot = Rc::new(RefCell::new(None));
            let (slot2, op2, hs2) = (slot.clone(), op.clone(), hs.clone());
            let f: Rc<Box<dyn Fn(usize, ()) -> usize>> = Rc::new(Box::new(move |x, _| { *slot2.borrow_mut() = Some(tried(&op2, &hs2)); x }));
            let w = thunk(NameChoice::Nominal(name_of_string(format!("within {}", k))), ProgPt { symbol: "within" }, f, k, ());
            force(&w);
            let r = slot.borrow_mut().take().unwrap();
            r
        } else { tried(op, &hs) };
        outs.push(out);
        hs.push(h);
    }
    emit(&J::obj(vec![("t", t.get("id").unwrap().clone()), ("outs", J::L(outs))]));
}
