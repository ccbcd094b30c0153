//! What the list and tree functions run again after an edit (see spec/Reuse.tla).
use crate::json::*;
use adapton::catalog::collections::*;
use adapton::engine::*;
use adapton::macros::ProgPt;
use adapton::reflect;
use adapton::reflect::trace::{Effect, ForceCase, Trace};
use std::cell::RefCell;
use std::rc::Rc;

thread_local! { static CALLS: RefCell<Vec<String>> = Default::default(); }
fn call(c: String) { CALLS.with(|l| l.borrow_mut().push(c)) }

/// An element; comparisons are calls.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct K(usize);
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> std::cmp::Ordering { call(format!("cmp {} {}", self.0, o.0)); self.0.cmp(&o.0) } }

type L = List<K>;
type T = Tree<K>;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum In { List(L), Tree(T) }
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Out { List(L), Tree(T), Text(String), Num(usize) }

fn nm(x: &str) -> Name { name_of_string(x.to_string()) }
fn show(n: &Name) -> String { format!("{:?}", n) }

fn list(l: &L) -> J {
    let mut out = vec![];
    let mut l = l.clone();
    loop {
        let r = L::elim(&l, |_| None, |x, t| Some((J::L(vec![s("x"), n(x.0)]), t.clone())), |x, t| Some((J::L(vec![s("n"), J::S(show(&x))]), t.clone())));
        match r { None => return J::L(out), Some((i, t)) => { out.push(i); l = t } }
    }
}
fn term(t: T) -> J {
    T::elim_arg(t, (), |_| J::L(vec![s("nil")]), |x, _| J::L(vec![s("leaf"), n(x.0)]),
                |lev, l, r, _| { let l = term(l); J::L(vec![s("bin"), n(lev), l, term(r)]) },
                |x, lev, l, r, _| { let l = term(l); J::L(vec![s("name"), J::S(show(&x)), n(lev), l, term(r)]) })
}
fn text(o: Out) -> J {
    match o { Out::List(l) => list(&l), Out::Tree(t) => term(t), Out::Text(x) => J::S(x), Out::Num(k) => n(k) }
}
fn keeps(p: &(String, usize), k: usize) -> bool {
    match p.0.as_str() { "lt" => k < p.1, "ge" => k >= p.1, "par" => k % 2 == p.1, x => panic!("predicate {}", x) }
}

fn on_list(op: &str, l: L, p: &(String, usize)) -> Out {
    let p = p.clone();
    let f = Rc::new(|x: K| { call(format!("f {}", x.0)); K(x.0 + 1) });
    let pred = Rc::new(move |x: &K| { call(format!("p {}", x.0)); keeps(&p, x.0) });
    Out::List(match op {
        "map_eager" => list_map_eager::<K, L, K, L, _>(l, f),
        "map_eager2" => list_map_eager2::<K, L, K, L, _>(l, f),
        "map_lazy" => list_map_lazy::<K, L, K, L, _>(l, f),
        "filter_eager" => list_filter_eager::<K, L, L, _>(l, pred),
        "filter_lazy" => list_filter_lazy::<K, L, L, _>(l, pred),
        "reverse" => list_reverse::<K, L, L>(l, L::nil()),
        x => panic!("operation {}", x),
    })
}
fn bin(n: &str, lev: usize, l: String, r: String) -> String {
    call(format!("bin {}:{} {} {}", n, lev, l, r));
    format!("({} {}:{} {})", l, n, lev, r)
}
fn on_tree(op: &str, t: T, p: &(String, usize)) -> Out {
    let p = p.clone();
    let pred: Box<dyn Fn(&K) -> bool> = Box::new(move |x: &K| { call(format!("p {}", x.0)); keeps(&p, x.0) });
    let some = |m: &Option<Name>| m.as_ref().map(show).unwrap_or_default();
    match op {
        "list_L" => Out::List(list_of_tree(t, Dir2::Left)),
        "list_R" => Out::List(list_of_tree(t, Dir2::Right)),
        "filter_list" => Out::List(filter_list_of_tree(t, pred)),
        "filter_tree" => Out::Tree(filter_tree_of_tree::<_, _, _, T>(t, pred)),
        "eager" => Out::Tree(eager_tree_of_tree::<_, _, _, T>(t)),
        "prune" => Out::Tree(prune_tree_of_tree::<_, _, _, T>(t)),
        "up" => Out::Text(tree_fold_up(t, Rc::new(|| { call("nil ".to_string()); "-".to_string() }), Rc::new(|x: K| { call(format!("leaf {}", x.0)); x.0.to_string() }),
            Rc::new(|lev: usize, l: String, r: String| bin("", lev, l, r)), Rc::new(|x: Name, lev: usize, l: String, r: String| bin(&show(&x), lev, l, r)))),
        "dn" => Out::Text(tree_fold_up_nm_dn(t, None,
            Rc::new(move |m| { call(format!("nil {}", some(&m))); "-".to_string() }),
            Rc::new(move |m, x: K| { let o = format!("{}{}", some(&m), x.0); call(format!("leaf {}", o)); o }),
            Rc::new(move |_, lev: usize, l: String, r: String| bin("", lev, l, r)),
            Rc::new(move |_, x: Name, lev: usize, l: String, r: String| bin(&show(&x), lev, l, r)))),
        // The elements stand for functions x |-> a * x + b.
        "monoid" => Out::Num(monoid_of_tree(t, K(10), Rc::new(|a: K, b: K| {
            call(format!("op {} {}", a.0 % 100, b.0 % 100));
            let (a, b) = (a.0 % 100, b.0 % 100);
            K(((a / 10) * (b / 10)) % 10 * 10 + ((a / 10) * (b % 10) + a % 10) % 10)
        })).0 % 100),
        "sort1" => Out::List(mergesort_list_of_tree(t)),
        "sort2" => Out::List(mergesort_list_of_tree2(t, Some(nm("_new")))),
        "sort3" => Out::List(mergesort_list_of_tree3(t, Some(nm("_new")))),
        x => panic!("operation {}", x),
    }
}
fn operate(op: &str, i: In, p: &(String, usize)) -> Out {
    match i { In::List(l) => on_list(op, l, p), In::Tree(t) => on_tree(op, t, p) }
}

/// The runs of thunks in a trace.
fn runs(ts: &Vec<Trace>) -> usize {
    ts.iter().map(|t| runs(&t.extent) + match t.effect { Effect::Force(ForceCase::CompCacheMiss) | Effect::CleanEval => 1, _ => 0 }).sum()
}
fn watched(f: &mut dyn FnMut() -> J) -> J {
    CALLS.with(|l| l.borrow_mut().clear());
    reflect::dcg_reflect_begin();
    let out = f();
    let ran = runs(&reflect::dcg_reflect_end());
    let calls = CALLS.with(|l| l.borrow().iter().map(|c| s(c)).collect());
    J::obj(vec![("out", out), ("calls", J::L(calls)), ("runs", n(ran))])
}

pub fn run(r: &J, emit: &mut dyn FnMut(&J)) {
    manage::init_dcg();
    let steps = r.get("steps").unwrap().list();
    let p = (r.get("pred").unwrap().at(0).str().to_string(), r.get("pred").unwrap().at(1).us());
    let dir = if r.get("dir").unwrap().str() == "R" { Dir2::Right } else { Dir2::Left };
    let within = r.get("within").unwrap().is_true();
    let read = |q: &J| -> Vec<NameElse<K>> { q.list().iter().map(|i| match i.at(0).str() { "x" => NameElse::Else(K(i.at(1).us())), _ => NameElse::Name(nm(i.at(1).str())) }).collect() };
    let mut levs = std::collections::BTreeMap::new();
    let mut nlevs = std::collections::BTreeMap::new();
    levs.insert("none".to_string(), n(0));
    nlevs.insert("none".to_string(), n(0));
    for i in steps.iter().flat_map(|q| read(q)) {
        match i {
            NameElse::Else(k) => { levs.insert(k.0.to_string(), n(<usize as Level>::new(&k))); }
            NameElse::Name(x) => { nlevs.insert(show(&x), n(<usize as Level>::new(&x))); }
        }
    }
    let got = steps.iter().map(|q| {
        let l: L = ns(nm("input"), || list_of_vec(&read(q)));
        let mut t = T::nil();
        let mut out = vec![("tree".to_string(), watched(&mut || {
            t = ns(nm("tree"), || tree_of_list::<usize, K, T, L>(dir, l.clone()));
            term(t.clone())
        }))];
        for op in r.get("ops").unwrap().list() {
            let op = op.str().to_string();
            let is_list = ["map_eager", "map_eager2", "map_lazy", "filter_eager", "filter_lazy", "reverse"].contains(&op.as_str());
            let i = if is_list { In::List(l.clone()) } else { In::Tree(t.clone()) };
            out.push((op.clone(), watched(&mut || text(ns(nm(&op), || if within {
                let (op2, p2) = (op.clone(), p.clone());
                let f: Rc<Box<dyn Fn(In, ()) -> Out>> = Rc::new(Box::new(move |i, _| operate(&op2, i, &p2)));
                force(&thunk(NameChoice::Nominal(nm("op")), ProgPt { symbol: "operate" }, f, i.clone(), ()))
            } else { operate(&op, i.clone(), &p) })))));
        }
        J::O(out.into_iter().collect())
    }).collect();
    emit(&J::obj(vec![("t", r.get("id").unwrap().clone()), ("got", J::L(got)), ("levs", J::O(levs.into_iter().collect())), ("nlevs", J::O(nlevs.into_iter().collect()))]));
}
