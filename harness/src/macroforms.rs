//! What the macros do (see spec/Macros.tla).
use crate::json::*;
use adapton::engine::*;
use adapton::engine::reflect_dcg::*;
use adapton::macros::*;
use adapton::reflect::trace::*;
use adapton::*;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

type A = Art<usize>;
thread_local! { static WORK: Cell<usize> = Default::default(); static USED: RefCell<Vec<&'static str>> = Default::default(); }
/// Notes that an expression given to a macro is evaluated.
fn used<T>(what: &'static str, x: T) -> T { USED.with(|u| u.borrow_mut().push(what)); x }
fn work() { WORK.with(|w| w.set(w.get() + 1)) }
fn f(x: usize, y: usize) -> usize { work(); 10 * x + y }
fn g(x: usize, y: usize) -> usize { work(); x + 10 * y }
fn fz(x: usize, y: usize, z: usize) -> usize { work(); 100 * z + 10 * x + y }
fn one(x: usize) -> usize { work(); 3 * x + 1 }
fn r(a: A, y: usize) -> usize { work(); get!(a) + 100 * y }
fn gen<X: Into<usize>>(x: X, y: usize) -> usize { work(); 10 * x.into() + y }
fn genz<X: Into<usize>>(x: X, y: usize, z: usize) -> usize { work(); 100 * z + 10 * x.into() + y }
/// Another function of the same last name.
mod other { pub fn f(x: usize, y: usize) -> usize { super::work(); 500 + 10 * x + y } }
fn k5() -> usize { work(); 5 }
fn k6() -> usize { work(); 6 }
fn lp(me: Name) -> usize { work(); get!(thunk!([Some(me.clone())]? lp; me:me), 7) + 1 }

/// A name as the functions make it.
fn name_by_functions(j: &J) -> Name {
    let b = name_of_string(j.at(0).str().to_string());
    match j.at(1).str() { "l" => name_fork(b).0, "r" => name_fork(b).1, _ => b }
}
/// An optional name as the macros make it.
fn opt(j: &J, k: usize) -> Option<Name> {
    let o = if j.list().is_empty() { None } else { Some(name_of_string(j.at(0).str().to_string())) };
    let route = if o.is_some() { j.at(1).str() } else { "l" };
    match (route, k % 2) {
        ("l", 0) => forko!(used("forked", o)).0,
        ("r", 0) => forko!(used("forked", o)).1,
        ("l", _) => o.map(|b| fork!(used("forked", b)).0),
        ("r", _) => o.map(|b| fork!(used("forked", b)).1),
        _ => o,
    }
}

enum Gives { Value(usize), Handle(A), Both(A, usize), Nothing }
use Gives::*;

fn perform(op: &J, hs: &Vec<Option<A>>, k: usize) -> Gives {
    let form = op.at(1).str();
    let num = |i: usize| used(["", "", "2", "3"][i], op.at(i).us());
    let h = |j: &J| used("handle", hs[j.us() - 1].clone().unwrap());
    let nmo = || used("name", opt(op.at(2), k));
    let both = |x: (A, usize)| Both(x.0, x.1);
    match form {
        "cell!" => return Handle(cell!(num(2))),
        "cells!" => {
            // Many cells (and thunks) with automatic names: how many keep a content of their own?
            let many: Vec<A> = (0..num(2)).map(|i| if i % 7 == 3 { thunk![i] } else { cell!(i) }).collect();
            return Value(many.iter().enumerate().filter(|&(i, a)| force(a) == i).count())
        }
        "cell!?" => return Handle(cell!([nmo()]? num(3))),
        "cell![]" => return Handle(match op.at(2).str() { "a" => cell!([a] num(3)), _ => cell!([b] num(3)) }),
        "let_cell" => return Handle(match op.at(2).str() { "a" => let_cell!{a = num(3); a}, _ => let_cell!{b = num(3); b} }),
        "let_cell2" => return Handle(let_cell!{a = num(2); b = num(3); { let _: &A = &a; b }}),
        "let_thunk2" => return Handle(let_thunk!{lt = k5(); lu = k6(); { let _: &A = &lt; lu }}),
        "let_memo2" => return Value(let_memo!{x =(lm)= k5(); y =(ln)= k6(); 10 * x + y}),
        "loop" => { let q = name_of_str("q"); return both(memo!([Some(q.clone())]? lp; me:q)) }
        "get!" => return Value(get!(h(op.at(2)))),
        "get!," => return Value(get!(h(op.at(2)), 77)),
        "set" => { set(&h(op.at(2)), num(3)); return Nothing }
        "thunk!{}" => return Handle(match op.at(2).str() { "k5" => thunk![k5()], _ => thunk![k6()] }),
        "eager!" => {
            let x = || used("x", op.at(3).at(0).us());
            let y = || used("y", op.at(3).at(1).us());
            return both(match op.at(2).str() {
                "f" => eager!(f, x:x(), y:y()),
                "other::f" => eager!(other::f, x:x(), y:y()),
                "one" => eager!(one, x:x()),
                "gen" => eager!(gen::<usize>, x:x(), y:y()),
                c => panic!("code {}", c),
            })
        }
        _ => (),
    }
    // The forms with a name (or an identifier), a code, and arguments.
    let code = op.at(3).str();
    let args = op.at(4);
    let x = || used("x", args.at(0).us());
    let y = || used("y", args.at(1).us());
    let z = || used("z", 9);
    let c = || h(args.at(0));
    match form {
        "cell_call" => { let n = || nmo().unwrap(); Handle(match code { "f" => cell_call!(n() =>> f, x:x(), y:y()), _ => cell_call!(n() =>> gen::<usize>, x:x(), y:y()) }) }
        "thunk!?" => { let n = || nmo(); Handle(match code {
            "f" => thunk!([n()]? f; x:x(), y:y()),
            "g" => thunk!([n()]? g; x:x(), y:y()),
            "other::f" => thunk!([n()]? other::f; x:x(), y:y()),
            "one" => thunk!([n()]? one; x:x()),
            "r" => thunk!([n()]? r; a:c(), y:y()),
            "fz" => thunk!([n()]? fz; x:x(), y:y();; z:z()),
            c => panic!("code {}", c),
        }) }
        "thunk!=>>" => { let n = || nmo().unwrap(); Handle(match code {
            "f" => thunk!(n() =>> f, x:x(), y:y()),
            "g" => thunk!(n() =>> g, x:x(), y:y()),
            "other::f" => thunk!(n() =>> other::f, x:x(), y:y()),
            "one" => thunk!(n() =>> one, x:x()),
            "r" => thunk!(n() =>> r, a:c(), y:y()),
            "fz" => thunk!(n() =>> fz, x:x(), y:y();; z:z()),
            c => panic!("code {}", c),
        }) }
        "thunk![]" => Handle(match (op.at(2).str(), code) {
            ("t", "f") => thunk!([t] f; x:x(), y:y()),
            ("t", "other::f") => thunk!([t] other::f; x:x(), y:y()),
            ("t", "g") => thunk!([t] g; x:x(), y:y()),
            ("t", "r") => thunk!([t] r; a:c(), y:y()),
            ("u", "f") => thunk!([u] f; x:x(), y:y()),
            ("u", "one") => thunk!([u] one; x:x()),
            c => panic!("code {:?}", c),
        }),
        "memo!?" => { let n = || nmo(); both(match code {
            "f" => memo!([n()]? f; x:x(), y:y()),
            "g" => memo!([n()]? g; x:x(), y:y()),
            "other::f" => memo!([n()]? other::f; x:x(), y:y()),
            "one" => memo!([n()]? one; x:x()),
            "r" => memo!([n()]? r; a:c(), y:y()),
            "fz" => memo!([n()]? fz; x:x(), y:y();; z:z()),
            c => panic!("code {}", c),
        }) }
        "memo!=>>" => { let n = || nmo().unwrap(); Value(match code {
            "f" => memo!(n() =>> f, x:x(), y:y()),
            "g" => memo!(n() =>> g, x:x(), y:y()),
            "other::f" => memo!(n() =>> other::f, x:x(), y:y()),
            "one" => memo!(n() =>> one, x:x()),
            "r" => memo!(n() =>> r, a:c(), y:y()),
            "fz" => memo!(n() =>> fz, x:x(), y:y();; z:z()),
            c => panic!("code {}", c),
        }) }
        "eager!=>>" => { let n = || nmo().unwrap(); both(match code {
            "f" => eager!(n() =>> f, x:x(), y:y()),
            "other::f" => eager!(n() =>> other::f, x:x(), y:y()),
            "one" => eager!(n() =>> one, x:x()),
            "r" => eager!(n() =>> r, a:c(), y:y()),
            "gen" => eager!(n() =>> gen::<usize>, x:x(), y:y()),
            "genz" => eager!(n() =>> genz =>> <usize>, x:x(), y:y();; z:z()),
            c => panic!("code {}", c),
        }) }
        "thunk!?{}" => { let n = || nmo(); Handle(match code { "k5" => thunk![[n()]? k5()], _ => thunk![[n()]? k6()] }) }
        "thunk![]{}" => Handle(match (op.at(2).str(), code) {
            ("d", "k5") => thunk![[d] k5()],
            ("d", "k6") => thunk![[d] k6()],
            ("e", "k5") => thunk![[e] k5()],
            c => panic!("code {:?}", c),
        }),
        "let_thunk" => Handle(match (op.at(2).str(), code) {
            ("lt", "k5") => let_thunk!{lt = k5(); lt},
            ("lt", "k6") => let_thunk!{lt = k6(); lt},
            ("lu", "k6") => let_thunk!{lu = k6(); lu},
            c => panic!("code {:?}", c),
        }),
        "let_memo" => Value(match (op.at(2).str(), code) {
            ("lm", "k5") => let_memo!{x =(lm)= k5(); x},
            ("lm", "k6") => let_memo!{x =(lm)= k6(); x},
            ("ln", "k6") => let_memo!{x =(ln)= k6(); x},
            c => panic!("code {:?}", c),
        }),
        x => panic!("form {}", x),
    }
}

fn allocs(ts: &Vec<Trace>, out: &mut Vec<J>) {
    for t in ts {
        if let Effect::Alloc(ref case, ref kind) = t.effect {
            let k = match *kind { AllocKind::RefCell => "cell", AllocKind::Thunk => "thunk" };
            let c = match *case { AllocCase::LocFresh => "fresh", AllocCase::LocExists(ChangeFlag::ContentSame) => "same", _ => "diff" };
            out.push(J::S(format!("{} {}", k, c)));
        }
        allocs(&t.extent, out);
    }
}

pub fn run(t: &J, emit: &mut dyn FnMut(&J)) {
    manage::init_dcg();
    let first = manage::init_dcg();
    let mut shadow = Some(manage::use_engine(first));
    let mut hs: Vec<Option<A>> = vec![];
    let (mut outs, mut runs, mut al, mut same, mut cls, mut twice) = (vec![], vec![], vec![], vec![], vec![], vec![]);
    let ops = t.get("ops").unwrap().list();
    // Operations on handles that do not exist, or of the wrong kind, are left out.
    let cellish = |h: usize| ["cell!", "cell!?", "cell![]", "let_cell", "let_cell2", "cell_call"].contains(&ops[h - 1].at(1).str());
    let unnamed = |h: usize| matches!(ops[h - 1].list().get(2), Some(J::L(v)) if v.is_empty());
    for (k, op) in ops.iter().enumerate() {
        let there = |j: &J| j.us() <= hs.len() && hs[j.us() - 1].is_some();
        let usable = match op.at(1).str() {
            "get!" | "get!," => there(op.at(2)),
            "set" => there(op.at(2)) && cellish(op.at(2).us()) && !unnamed(op.at(2).us()),
            _ => match (op.list().get(3), op.list().get(4)) {
                (Some(J::S(c)), Some(a)) if c == "r" => there(a.at(0)) && (cellish(a.at(0).us()) || unnamed(a.at(0).us())),
                _ => true,
            },
        };
        if !usable {
            hs.push(None);
            outs.push(J::L(vec![s("skip")])); runs.push(n(0)); al.push(J::L(vec![])); same.push(J::B(true)); cls.push(n(0)); twice.push(J::L(vec![]));
            continue
        }
        WORK.with(|w| w.set(0));
        USED.with(|u| u.borrow_mut().clear());
        let tried = |op: &J, hs: &Vec<Option<A>>| catch_unwind(AssertUnwindSafe(|| perform(op, hs, k))).ok();
        dcg_reflect_begin();
        let got = if op.at(0).str() == "t" {
            let slot = Rc::new(RefCell::new(None));
            let (slot2, op2, hs2) = (slot.clone(), op.clone(), hs.clone());
            let f: Rc<Box<dyn Fn(usize, ()) -> usize>> = Rc::new(Box::new(move |x, _| {
                *slot2.borrow_mut() = catch_unwind(AssertUnwindSafe(|| perform(&op2, &hs2, k))).ok();
                x
            }));
            force(&thunk(NameChoice::Nominal(name_of_string(format!("within {}", k))), ProgPt { symbol: "within" }, f, k, ()));
            let r = slot.borrow_mut().take();
            r
        } else { tried(op, &hs) };
        let mut a = vec![];
        allocs(&dcg_reflect_end(), &mut a);
        al.push(J::L(a));
        runs.push(n(WORK.with(|w| w.get())));
        twice.push(J::L(USED.with(|u| { let u = u.borrow(); u.iter().enumerate().filter(|&(i, x)| u[..i].contains(x)).map(|(_, x)| s(x)).collect() })));
        let val = |v: usize| J::L(vec![s("val"), n(v)]);
        let (out, h) = match got {
            None => (J::L(vec![s("panic")]), None),
            Some(Nothing) => (J::L(vec![s("ok")]), None),
            Some(Value(v)) => (val(v), None),
            Some(Handle(a)) => (J::L(vec![s("ok")]), Some(a)),
            Some(Both(a, v)) => (val(v), Some(a)),
        };
        outs.push(out);
        hs.push(h.clone());
        // Is it the articulation that the engine's functions give for the name?
        let name = match op.list().get(2) {
            Some(J::S(id)) if ["cell![]", "let_cell", "thunk![]", "thunk![]{}", "let_thunk"].contains(&op.at(1).str()) => Some(name_of_string(id.clone())),
            Some(J::L(v)) if v.len() == 2 => Some(name_by_functions(op.at(2))),
            _ => None,
        };
        same.push(J::B(match (&h, name) {
            (Some(a), Some(m)) => {
                let keep = manage::use_engine(shadow.take().unwrap());
                let b: A = cell(m, 0);
                shadow = Some(manage::use_engine(keep));
                *a == b
            }
            _ => true,
        }));
        cls.push(n(match h { None => 0, Some(a) => hs.iter().position(|b| b.as_ref() == Some(&a)).unwrap() + 1 }));
    }
    emit(&J::obj(vec![("t", t.get("id").unwrap().clone()), ("outs", J::L(outs)), ("runs", J::L(runs)), ("al", J::L(al)), ("same", J::L(same)), ("cls", J::L(cls)), ("twice", J::L(twice))]));
}
