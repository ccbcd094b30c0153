//! Bit strings and tries (see spec/Bits.tla, spec/Trie.tla).
use crate::json::*;
use adapton::catalog::bitstring::*;
use adapton::catalog::collections::trie::*;
use adapton::engine::*;
use adapton::macros::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

fn bits(x: i64, k: usize) -> J { J::L((0..k).map(|i| n(((x >> i) & 1) as usize)).collect()) }
fn number(j: &J) -> i64 { j.list().iter().enumerate().fold(0u64, |a, (i, b)| a | ((b.num() as u64) << i)) as i64 }

pub fn run_bits(t: &J, emit: &mut dyn FnMut(&J)) {
    let mut b = BS { length: 0, value: 0 };
    let mut vals = vec![];
    for op in t.get("ops").unwrap().list() {
        b = match op.at(0).str() {
            "prepend" => BS::prepend(op.at(1).num(), b),
            "shift" => BS::shift_left(b, op.at(1).num()),
            _ => BS { length: 0, value: 0 },
        };
        vals.push(J::L(vec![J::N(BS::length(b)), bits(b.value, 64)]));
    }
    let answers = t.get("probes").unwrap().list().iter().map(|p| {
        let (i, x) = (p.at(0).num(), number(p.at(1)));
        J::L(vec![J::B(BS::is_set(i, x)), bits(BS::flip(i, x), 64)])
    }).collect();
    let powers = t.get("pows").unwrap().list().iter().map(|p| bits(BS::pow(p.at(0).num(), p.at(1).num()), 64)).collect();
    emit(&J::obj(vec![("t", t.get("id").unwrap().clone()), ("vals", J::L(vals)), ("answers", J::L(answers)), ("powers", J::L(powers)), ("maxlen", J::N(BS::MAX_LEN))]));
}

type T = Trie<usize>;

fn nm(x: &str) -> Name { name_of_string(x.to_string()) }

fn build(t: &J, bs: BS) -> T {
    match t.at(0).str() {
        "nil" => TrieIntro::nil(bs),
        "leaf" => TrieIntro::leaf(bs, t.at(1).us()),
        "bin" => TrieIntro::bin(bs, build(t.at(1), BS::prepend(0, bs)), build(t.at(2), BS::prepend(1, bs))),
        "root" => TrieIntro::<usize>::root(Meta { min_depth: t.at(1).num() }, build(t.at(2), bs)),
        "name" => TrieIntro::<usize>::name(nm(t.at(1).str()), build(t.at(2), bs)),
        "put" => TrieIntro::<usize>::art(put(build(t.at(1), bs))),
        "thunk" => {
            let sub = build(t.at(2), bs);
            let f: Rc<Box<dyn Fn(T, ()) -> T>> = Rc::new(Box::new(|x, _| x));
            TrieIntro::<usize>::art(thunk(NameChoice::Nominal(nm(t.at(1).str())), ProgPt { symbol: "sub" }, f, sub, ()))
        }
        "cell" => TrieIntro::<usize>::art(cell_of(t.at(1).str()).expect("a cell")),
        "empty" => <T as TrieIntro<usize>>::empty(Meta { min_depth: t.at(1).num() }),
        x => panic!("trie {}", x),
    }
}

thread_local! { static CELLS: std::cell::RefCell<std::collections::HashMap<String, (Art<T>, BS)>> = Default::default(); }
fn cell_of(c: &str) -> Option<Art<T>> { CELLS.with(|m| m.borrow().get(c).map(|x| x.0.clone())) }

/// The position of each cell in the trie.
fn places(t: &J, cells: &[J], bs: BS, out: &mut Vec<(String, BS)>) {
    match t.at(0).str() {
        "bin" => { places(t.at(1), cells, BS::prepend(0, bs), out); places(t.at(2), cells, BS::prepend(1, bs), out) }
        "root" | "name" | "thunk" => places(t.at(2), cells, bs, out),
        "put" => places(t.at(1), cells, bs, out),
        "cell" => {
            out.push((t.at(1).str().to_string(), bs));
            let c = cells.iter().find(|c| c.at(0) == t.at(1)).unwrap();
            places(c.at(1), cells, bs, out)
        }
        _ => (),
    }
}

/// The bits of b, or, when there are others beyond its length, all of them.
fn show_bs(b: &BS) -> J { bits(b.value, if b.value >> b.length == 0 { b.length as usize } else { 64 }) }
fn show_nm(x: &Name) -> J {
    if *x == name_fork(name_of_str("empty")).0 { return s("empty-l") }
    if *x == name_fork(name_of_str("empty")).1 { return s("empty-r") }
    s(format!("{:?}", x).trim_start_matches("String(\"").trim_end_matches("\")"))
}

fn visits(t: T, acc: Vec<J>) -> Vec<J> {
    let a = std::cell::RefCell::new(acc);
    let add = |v: Vec<J>| a.borrow_mut().push(J::L(v));
    let take = || std::mem::take(&mut *a.borrow_mut());
    T::elim(t,
        |b| add(vec![s("nil"), show_bs(&b)]),
        |b, x| add(vec![s("leaf"), show_bs(&b), n(x)]),
        |b, l, r| { add(vec![s("bin"), show_bs(&b)]); let v = visits(l, take()); *a.borrow_mut() = visits(r, v) },
        |m, t| { add(vec![s("root"), J::N(m.min_depth)]); let v = visits(t, take()); *a.borrow_mut() = v },
        |x, t| { add(vec![s("name"), show_nm(&x)]); let v = visits(t, take()); *a.borrow_mut() = v });
    take()
}
fn visits_arg(t: T, acc: Vec<J>) -> Vec<J> {
    let add = |mut a: Vec<J>, v: Vec<J>| { a.push(J::L(v)); a };
    T::elim_arg(t, acc,
        |b, a| add(a, vec![s("nil"), show_bs(&b)]),
        |b, x, a| add(a, vec![s("leaf"), show_bs(&b), n(x)]),
        |b, l, r, a| visits_arg(r, visits_arg(l, add(a, vec![s("bin"), show_bs(&b)]))),
        |m, t, a| visits_arg(t, add(a, vec![s("root"), J::N(m.min_depth)])),
        |x, t, a| visits_arg(t, add(a, vec![s("name"), show_nm(&x)])))
}
fn visits_ref(t: &T, a: &std::cell::RefCell<Vec<J>>) {
    let add = |v: Vec<J>| a.borrow_mut().push(J::L(v));
    T::elim_ref(t,
        |b| add(vec![s("nil"), show_bs(b)]),
        |b, x| add(vec![s("leaf"), show_bs(b), n(*x)]),
        |b, l, r| { add(vec![s("bin"), show_bs(b)]); visits_ref(l, a); visits_ref(r, a) },
        |m, t| { add(vec![s("root"), J::N(m.min_depth)]); visits_ref(t, a) },
        |x, t| { add(vec![s("name"), show_nm(x)]); visits_ref(t, a) })
}

fn h(x: usize) -> i64 { let mut d = DefaultHasher::new(); x.hash(&mut d); d.finish() as i64 }
fn hash_of(t: &T) -> u64 { let mut d = DefaultHasher::new(); t.hash(&mut d); d.finish() }

fn collect(x: usize, mut acc: Vec<usize>) -> Vec<usize> { acc.push(x); acc }

/// Puts the cells of a snapshot in place (inner ones come first), and builds its trie.
fn enact(step: &J) -> T {
    let cells = step.get("c").unwrap().list();
    let t = step.get("t").unwrap();
    let b0 = BS { length: 0, value: 0 };
    let mut at = vec![];
    places(t, cells, b0, &mut at);
    for c in cells {
        let name = c.at(0).str();
        let bs = match at.iter().find(|p| p.0 == name) { Some(p) => p.1, None => continue };
        let v = build(c.at(1), bs);
        match cell_of(name) {
            Some(a) => set(&a, v),
            None => { let a = cell(nm(name), v); CELLS.with(|m| m.borrow_mut().insert(name.to_string(), (a, bs))); }
        }
    }
    build(t, b0)
}

/// The bits of the real hashes of 1..=count.
pub fn run_hashes(t: &J, emit: &mut dyn FnMut(&J)) {
    let paths = (1..=t.get("count").unwrap().us()).map(|x| bits(h(x), 40)).collect();
    emit(&J::obj(vec![("t", t.get("id").unwrap().clone()), ("paths", J::L(paths))]))
}

pub fn run_trie(t: &J, emit: &mut dyn FnMut(&J)) {
    let paths = t.get("paths").unwrap().list();
    let steps = t.get("steps").unwrap().list();
    // In the naive engine: every step afresh.
    manage::init_naive();
    let mut naive = vec![];
    for st in steps {
        CELLS.with(|m| m.borrow_mut().clear());
        let x = enact(st);
        naive.push(trie_fold(x, vec![], Rc::new(collect)));
    }
    CELLS.with(|m| m.borrow_mut().clear());
    manage::init_dcg();
    let mut saw = vec![];
    let mut hashes: Vec<u64> = vec![];
    let list = |v: Vec<usize>| J::L(v.into_iter().map(n).collect());
    for (k, st) in steps.iter().enumerate() {
        let x = enact(st);
        let y = enact(st);
        let vr = std::cell::RefCell::new(vec![]);
        visits_ref(&x, &vr);
        // Memoized folding is demanded by a thunk, so that it is incremental from step to step.
        let f: Rc<Box<dyn Fn(T, ()) -> Vec<usize>>> = Rc::new(Box::new(|x, _| ns(name_of_str("folding"), || trie_fold(x, vec![], Rc::new(collect)))));
        let tf = thunk(NameChoice::Nominal(name_of_str("fold")), ProgPt { symbol: "fold" }, f, x.clone(), ());
        hashes.push(hash_of(&x));
        saw.push(J::obj(vec![
            // the first step whose trie has this hash
            ("hash", n(1 + hashes.iter().position(|h| *h == hashes[k]).unwrap())),
            ("find", J::L((1..=paths.len()).map(|e| J::B(T::find(&x, &e, number(&paths[e - 1])) == Some(e))).collect())),
            ("mem", J::L((1..=paths.len()).map(|e| J::B(<T as SetElim<usize>>::mem(&x, &e))).collect())),
            ("empty", J::B(T::is_empty(&x))),
            ("fold", list(<T as SetElim<usize>>::fold(x.clone(), vec![], Rc::new(collect)))),
            ("tfold", list(force(&tf))),
            ("nfold", list(naive[k].clone())),
            ("elim", J::L(visits(x.clone(), vec![]))),
            ("elim_arg", J::L(visits_arg(x.clone(), vec![]))),
            ("elim_ref", J::L(vr.into_inner())),
            ("again", J::B(x == y && hash_of(&x) == hash_of(&y))),
        ]));
    }
    let split = t.get("splits").unwrap().list().iter().map(|q| {
        let (e, d) = (q.get("x").unwrap().us(), q.get("d").unwrap().us());
        let p = paths[e - 1].list();
        let mut bs = BS { length: 0, value: 0 };
        for b in &p[..d] { bs = BS::prepend(b.num(), bs) }
        J::L(visits(T::split_atomic(TrieIntro::leaf(bs, e)), vec![]))
    }).collect();
    emit(&J::obj(vec![("t", t.get("id").unwrap().clone()), ("saw", J::L(saw)), ("split", J::L(split))]));
}
