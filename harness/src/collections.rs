//! Lists, trees and mergesort (see spec/Collections.tla).
use crate::json::*;
use adapton::catalog::collections::*;
use adapton::engine::*;
use adapton::macros::ProgPt;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

type L = List<usize>;
type T = Tree<usize>;
type Items = Vec<NameElse<usize>>;

thread_local! { static SHOWN: RefCell<HashMap<Name, String>> = Default::default(); }
fn nm(x: &str) -> Name {
    let n = name_of_string(x.to_string());
    SHOWN.with(|m| m.borrow_mut().insert(n.clone(), x.to_string()));
    n
}
fn show(n: &Name) -> String { SHOWN.with(|m| m.borrow().get(n).cloned()).unwrap_or_else(|| format!("?{:?}", n)) }

fn item(i: &NameElse<usize>) -> J {
    match i { NameElse::Else(k) => J::L(vec![s("x"), n(*k)]), NameElse::Name(x) => J::L(vec![s("n"), J::S(show(x))]) }
}
fn items(v: Items) -> J { J::L(v.iter().map(item).collect()) }

/// The items of a list, by way of `elim`.
fn gather(l: &L) -> Items {
    let mut out = vec![];
    let mut l = l.clone();
    loop {
        let r = L::elim(&l, |_| None, |x, t| Some((NameElse::Else(*x), t.clone())), |x, t| Some((NameElse::Name(x.clone()), t.clone())));
        match r { None => return out, Some((i, t)) => { out.push(i); l = t } }
    }
}
fn list(l: &L) -> J { items(gather(l)) }

/// A tree as a term without articulations, by way of `elim_arg`.
fn term(t: T) -> J {
    T::elim_arg(t, (), |_| J::L(vec![s("nil")]), |x, _| J::L(vec![s("leaf"), n(x)]),
                |lev, l, r, _| { let l = term(l); J::L(vec![s("bin"), n(lev), l, term(r)]) },
                |x, lev, l, r, _| { let l = term(l); J::L(vec![s("name"), J::S(show(&x)), n(lev), l, term(r)]) })
}
fn term_elim(t: T) -> J {
    T::elim(t, || J::L(vec![s("nil")]), |x| J::L(vec![s("leaf"), n(x)]),
            |lev, l, r| { let l = term_elim(l); J::L(vec![s("bin"), n(lev), l, term_elim(r)]) },
            |x, lev, l, r| { let l = term_elim(l); J::L(vec![s("name"), J::S(show(&x)), n(lev), l, term_elim(r)]) })
}
fn term_ref(t: &T) -> J {
    T::elim_ref(t, || J::L(vec![s("nil")]), |x| J::L(vec![s("leaf"), n(*x)]),
                |lev, l, r| { let l = term_ref(l); J::L(vec![s("bin"), n(*lev), l, term_ref(r)]) },
                |x, lev, l, r| { let l = term_ref(l); J::L(vec![s("name"), J::S(show(x)), n(*lev), l, term_ref(r)]) })
}
fn term_full(t: T) -> J {
    T::full_move(t, (), |_| J::L(vec![s("nil")]), |x, _| J::L(vec![s("leaf"), n(x)]),
                 |lev, l, r, _| { let l = term_full(l); J::L(vec![s("bin"), n(lev), l, term_full(r)]) },
                 |x, lev, l, r, _| { let l = term_full(l); J::L(vec![s("name"), J::S(show(&x)), n(lev), l, term_full(r)]) },
                 |a, _| term_full(force(a)))
}

// ----- Inputs

#[derive(Default)]
struct Cells { lists: HashMap<String, Art<L>>, trees: HashMap<String, Art<T>> }

/// Builds the list of a step: with new cells, or by setting existing ones to new contents.
fn build_list(q: &[J], cells: &mut Cells, by_set: bool, old: &mut HashMap<String, J>) -> L {
    let mut l = L::nil();
    for (k, i) in q.iter().enumerate().rev() {
        l = match i.at(0).str() {
            "x" => L::cons(i.at(1).us(), l),
            "n" => L::name(nm(i.at(1).str()), l),
            "p" => L::art(put(l)),
            "t" => L::art(thunk(NameChoice::Nominal(nm(i.at(1).str())), ProgPt { symbol: "rest" }, Rc::new(Box::new(|x: L, _: ()| x)), l, ())),
            "c" => {
                let x = i.at(1).str().to_string();
                let rest = J::L(q[k + 1..].to_vec());
                let a = match cells.lists.get(&x) {
                    Some(a) if by_set => { if old.get(&x) != Some(&rest) { set(a, l) }; a.clone() }
                    _ => cell(nm(&x), l),
                };
                old.insert(x.clone(), rest);
                cells.lists.insert(x, a.clone());
                L::art(a)
            }
            x => panic!("item {}", x),
        }
    }
    l
}
fn build_tree(t: &J, cells: &mut Cells, by_set: bool) -> T {
    match t.at(0).str() {
        "nil" => T::nil(),
        "leaf" => <T as TreeIntro<usize, usize>>::leaf(t.at(1).us()),
        "bin" => { let l = build_tree(t.at(2), cells, by_set); T::bin(t.at(1).us(), l, build_tree(t.at(3), cells, by_set)) }
        "name" => { let l = build_tree(t.at(3), cells, by_set); <T as TreeIntro<usize, usize>>::name(nm(t.at(1).str()), t.at(2).us(), l, build_tree(t.at(4), cells, by_set)) }
        "put" => <T as TreeIntro<usize, usize>>::art(put(build_tree(t.at(1), cells, by_set))),
        "thunk" => {
            let sub = build_tree(t.at(2), cells, by_set);
            <T as TreeIntro<usize, usize>>::art(thunk(NameChoice::Nominal(nm(t.at(1).str())), ProgPt { symbol: "sub" }, Rc::new(Box::new(|x: T, _: ()| x)), sub, ()))
        }
        "cell" => {
            let sub = build_tree(t.at(2), cells, by_set);
            let x = t.at(1).str().to_string();
            let a = match cells.trees.get(&x) {
                Some(a) if by_set => { set(a, sub); a.clone() }
                _ => cell(nm(&x), sub),
            };
            cells.trees.insert(x, a.clone());
            <T as TreeIntro<usize, usize>>::art(a)
        }
        x => panic!("tree {}", x),
    }
}

// ----- Operations

#[derive(Clone)]
struct Par { lim: usize, pred: (String, usize), fun: (usize, usize), right: bool, other: L }

fn keeps(p: &(String, usize), k: usize) -> bool {
    match p.0.as_str() { "lt" => k < p.1, "ge" => k >= p.1, "par" => k % 2 == p.1, x => panic!("predicate {}", x) }
}

/// What operations give: lists and trees are shown later, by the editor.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Out { List(L), Tree(T), Items(Items), Text(String), Nums(Vec<usize>), Texts(Vec<String>), Num(usize), Flag(bool), Popped(Option<(usize, L)>), Sorted(L) }

fn show_out(o: &Out, lim: usize) -> J {
    match o {
        Out::List(l) => list(l),
        Out::Tree(t) => term(t.clone()),
        Out::Items(v) => items(v.clone()),
        Out::Text(t) => s(t),
        Out::Nums(v) => J::L(v.iter().map(|k| n(*k)).collect()),
        Out::Texts(v) => J::L(v.iter().map(|k| s(k)).collect()),
        Out::Num(k) => n(*k),
        Out::Flag(b) => J::B(*b),
        Out::Popped(None) => J::L(vec![s("empty")]),
        Out::Popped(Some((x, l))) => J::L(vec![s("popped"), n(*x), list(l)]),
        Out::Sorted(l) => { let some = items(vec_of_list(l.clone(), Some(lim))); J::obj(vec![("some", some), ("all", list(l))]) }
    }
}

fn list_op(op: &str, l: L, p: &Par) -> Out {
    let pred = { let p = p.pred.clone(); move |k: &usize| keeps(&p, *k) };
    let fun = { let f = p.fun; Rc::new(move |k: usize| f.0 * k + f.1) };
    match op {
        "vec" => Out::Items(vec_of_list(l, None)),
        "elim" => Out::Items(gather(&l)),
        "limit" => Out::Items(vec_of_list(l, Some(p.lim))),
        "demand" => Out::Items(list_demand(l, p.lim)),
        "is_empty" => Out::Flag(list_is_empty(&l)),
        "is_name" => Out::Flag(L::is_name(&l)),
        "map_lazy" => Out::List(list_map_lazy::<usize, L, usize, L, _>(l, fun)),
        "map_eager" => Out::List(list_map_eager::<usize, L, usize, L, _>(l, fun)),
        "map_eager2" => Out::List(list_map_eager2::<usize, L, usize, L, _>(l, fun)),
        "filter_lazy" => Out::List(list_filter_lazy::<usize, L, L, _>(l, Rc::new(pred))),
        "filter_eager" => Out::List(list_filter_eager::<usize, L, L, _>(l, Rc::new(pred))),
        "reverse" => Out::List(list_reverse::<usize, L, L>(l, L::nil())),
        "reverse_onto" => Out::List(list_reverse::<usize, L, L>(l, p.other.clone())),
        "fold" => Out::Nums(list_fold(l, vec![], Rc::new(|x, mut r: Vec<usize>| { r.push(x); r }))),
        "push" => Out::List(list_push(l, 7)),
        "pop" => Out::Popped(if list_is_empty(&l) { None } else { Some(list_pop(l)) }),
        "append" => Out::List(list_append(l, p.other.clone())),
        "name_art" => Out::List(L::name_art(Some(nm("_new")), l)),
        "name_art_none" => Out::List(L::name_art(None, l)),
        "name_op" => Out::List(list_name_op(Some(nm("_new")), l)),
        "name_art_op" => Out::List(list_name_art_op(Some(nm("_new")), l)),
        "gen" => {
            let len = gather(&l).iter().filter(|i| if let NameElse::Else(_) = i { true } else { false }).count();
            for k in 0..len { SHOWN.with(|m| m.borrow_mut().insert(name_of_usize(k), format!("#{}", k))); }
            Out::List(list_gen(len, |k: usize| fun(k)))
        }
        "singleton" => Out::List(L::singleton(7)),
        "rebuild" => Out::List(gather(&l).into_iter().rev().fold(list_nil::<usize, L>(), |out, i| match i {
            NameElse::Else(x) => list_cons(x, out),
            NameElse::Name(x) => list_name::<usize, L>(x.clone(), list_art::<usize, L>(cell(x, out))),
        })),
        "of_vec" => Out::List(list_of_vec(&gather(&l))),
        "merge" => {
            // Both lists sorted, with their names where they are.
            let sorted = |v: Items| {
                let mut xs: Vec<usize> = v.iter().filter_map(|i| if let NameElse::Else(k) = i { Some(*k) } else { None }).collect();
                xs.sort();
                let mut xs = xs.into_iter();
                v.into_iter().map(|i| match i { NameElse::Else(_) => NameElse::Else(xs.next().unwrap()), i => i }).collect::<Items>()
            };
            let a: L = ns(nm("left"), || list_of_vec(&sorted(gather(&l))));
            let b: L = ns(nm("right"), || list_of_vec(&sorted(gather(&p.other))));
            Out::List(list_merge(None, a, None, b))
        }
        x => panic!("operation {}", x),
    }
}

fn tree_op(op: &str, t: T, p: &Par) -> Out {
    let pred = { let p = p.pred.clone(); Box::new(move |k: &usize| keeps(&p, *k)) };
    let seq = |t, dir| Out::Texts(tree_fold_seq(t, dir, vec![],
        Rc::new(|x: usize, mut r: Vec<String>| { r.push(x.to_string()); r }),
        Rc::new(|lev: usize, mut r: Vec<String>| { r.push(format!("^{}", lev)); r }),
        Rc::new(|x: Name, lev: usize, mut r: Vec<String>| { r.push(format!("{}:{}", show(&x), lev)); r })));
    let dn = |t, m: Option<Name>| {
        let f = |m: Option<Name>| m.map(|x| format!("{}=", show(&x))).unwrap_or_default();
        Out::Text(tree_fold_up_nm_dn(t, m,
            Rc::new(move |m| format!("{}-", f(m))),
            Rc::new(move |m, x: usize| format!("{}{}", f(m), x)),
            Rc::new(move |m, lev: usize, l: String, r: String| format!("({} {}{} {})", l, f(m), lev, r)),
            Rc::new(move |m, x: Name, lev: usize, l: String, r: String| format!("({} {}{}:{} {})", l, f(m), show(&x), lev, r))))
    };
    match op {
        "eager" => Out::Tree(eager_tree_of_tree::<_, _, _, T>(t)),
        "list_L" => Out::List(list_of_tree(t, Dir2::Left)),
        "list_R" => Out::List(list_of_tree(t, Dir2::Right)),
        "seq_L" => seq(t, Dir2::Left),
        "seq_R" => seq(t, Dir2::Right),
        "up" => Out::Text(tree_fold_up(t, Rc::new(|| "-".to_string()), Rc::new(|x: usize| x.to_string()),
            Rc::new(|lev: usize, l: String, r: String| format!("({} {} {})", l, lev, r)),
            Rc::new(|x: Name, lev: usize, l: String, r: String| format!("({} {}:{} {})", l, show(&x), lev, r)))),
        "nm_dn" => dn(t, None),
        "nm_dn_some" => dn(t, Some(nm("_new"))),
        "monoid" => Out::Num(monoid_of_tree(t, 10, Rc::new(|a: usize, b: usize| ((a / 10) * (b / 10)) % 10 * 10 + ((a / 10) * (b % 10) + a % 10) % 10))),
        "filter_list" => Out::List(filter_list_of_tree(t, pred)),
        "filter_tree" => Out::Tree(filter_tree_of_tree::<_, _, _, T>(t, pred)),
        "prune" => Out::Tree(prune_tree_of_tree::<_, _, _, T>(t)),
        "tree_is_empty" => Out::Flag(T::is_empty(&t)),
        "is_nil" => Out::Flag(T::is_nil(&t)),
        "lev" => Out::Num(T::lev_of_tree(&t)),
        "sort1" => Out::Sorted(mergesort_list_of_tree(t)),
        "sort2" => Out::Sorted(mergesort_list_of_tree2(t, Some(nm("_new")))),
        "sort2_none" => Out::Sorted(mergesort_list_of_tree2(t, None)),
        "sort3" => Out::Sorted(mergesort_list_of_tree3(t, Some(nm("_new")))),
        "sort3_none" => Out::Sorted(mergesort_list_of_tree3(t, None)),
        x => panic!("operation {}", x),
    }
}
const TREE_OPS: [&str; 24] = ["eager", "list_L", "list_R", "seq_L", "seq_R", "up", "nm_dn", "nm_dn_some", "monoid", "filter_list", "filter_tree", "prune", "tree_is_empty",
    "is_nil", "lev", "telim", "telim_ref", "telim_arg", "full_move", "sort1", "sort2", "sort3", "sort2_none", "sort3_none"];

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum In { List(L), Tree(T) }

fn tree_of(i: In, p: &Par) -> T {
    match i {
        In::Tree(t) => t,
        In::List(l) => ns(nm("tree_of_list"), || tree_of_list::<usize, usize, T, L>(if p.right { Dir2::Right } else { Dir2::Left }, l)),
    }
}
fn operate(op: &str, i: In, p: &Par) -> Out {
    if TREE_OPS.contains(&op) {
        let t = tree_of(i, p);
        ns(nm("operation"), || tree_op(op, t, p))
    } else if let In::List(l) = i { list_op(op, l, p) } else { panic!("not a list") }
}

fn run_step(r: &J, i: In, p: &Par, within: bool) -> J {
    let mut out = vec![];
    let mut add = |k: &str, v: J| out.push((k.to_string(), v));
    let ops = r.get("ops").unwrap().list();
    if let (In::List(_), true) = (&i, ops.iter().any(|o| TREE_OPS.contains(&o.str()))) {
        let t = ns(nm("the tree"), || tree_of(i.clone(), p));
        add("tree", term(t))
    }
    for op in ops {
        let op = op.str().to_string();
        match op.as_str() {
            // The ways to take trees apart.
            "telim" => { let t = ns(nm(&op), || tree_of(i.clone(), p)); add(&op, term_elim(t)); continue }
            "telim_ref" => { let t = ns(nm(&op), || tree_of(i.clone(), p)); add(&op, term_ref(&t)); continue }
            "telim_arg" => { let t = ns(nm(&op), || tree_of(i.clone(), p)); add(&op, term(t)); continue }
            "full_move" => { let t = ns(nm(&op), || tree_of(i.clone(), p)); add(&op, term_full(t)); continue }
            _ => (),
        }
        let o = ns(nm(&op), || if within {
            // Demanded of a thunk, which the editor allocates anew for every step.
            let (op2, p2) = (op.clone(), p.clone());
            let f: Rc<Box<dyn Fn(In, ()) -> Out>> = Rc::new(Box::new(move |i, _| operate(&op2, i, &p2)));
            force(&thunk(NameChoice::Nominal(nm("the operation")), ProgPt { symbol: "operate" }, f, i.clone(), ()))
        } else { operate(&op, i.clone(), p) });
        add(&op, show_out(&o, p.lim))
    }
    J::O(out.into_iter().collect())
}

pub fn run(r: &J, emit: &mut dyn FnMut(&J)) {
    let flag = |k: &str| r.get(k).map(|j| j.is_true()).unwrap_or(false);
    let pair = |j: &J| (j.at(0).us(), j.at(1).us());
    let steps = r.get("steps").unwrap().list();
    let is_list = r.get("kind").unwrap().str() == "list";
    let session = |naive: bool| {
        let mut cells = Cells::default();
        let mut old = HashMap::new();
        let by_set = flag("set") && !naive;
        let within = flag("within") && !naive;
        let q = r.get("other").unwrap().list();
        let other = build_list(q, &mut cells, false, &mut HashMap::new());
        let p = Par { lim: r.get("lim").unwrap().us(), pred: (r.get("pred").unwrap().at(0).str().to_string(), r.get("pred").unwrap().at(1).us()),
                      fun: pair(r.get("fun").unwrap()), right: r.get("dir").unwrap().str() == "R", other };
        steps.iter().map(|st| {
            let i = if is_list { In::List(build_list(st.list(), &mut cells, by_set, &mut old)) } else { In::Tree(build_tree(st, &mut cells, by_set)) };
            run_step(r, i, &p, within)
        }).collect::<Vec<J>>()
    };
    manage::init_naive();
    let naive = session(true);
    manage::init_dcg();
    let dcg = session(false);
    emit(&J::obj(vec![("t", r.get("id").unwrap().clone()), ("dcg", J::L(dcg)), ("naive", J::L(naive))]));
}

// ----- Laziness: how much of the work is done when

thread_local! { static WORK: std::cell::Cell<usize> = Default::default(); }
fn worked() { WORK.with(|w| w.set(w.get() + 1)) }
/// An element that counts its comparisons.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct K(usize);
impl PartialOrd for K { fn partial_cmp(&self, o: &K) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for K { fn cmp(&self, o: &K) -> std::cmp::Ordering { worked(); self.0.cmp(&o.0) } }

pub fn run_lazy(r: &J, emit: &mut dyn FnMut(&J)) {
    manage::init_dcg();
    WORK.with(|w| w.set(0));
    let read = |f: &str| -> Vec<NameElse<K>> { r.get(f).unwrap().list().iter().map(|i| match i.at(0).str() {
        "x" => NameElse::Else(K(i.at(1).us())), _ => NameElse::Name(nm(i.at(1).str())) }).collect() };
    let l: List<K> = ns(nm("input"), || list_of_vec(&read("items")));
    let dir = if r.get("dir").unwrap().str() == "R" { Dir2::Right } else { Dir2::Left };
    fn tree_of(t: &Tree<K>) -> J {
        Tree::elim_ref(t, || J::L(vec![s("nil")]), |x| J::L(vec![s("leaf"), n(x.0)]),
                       |lev, l, r| J::L(vec![s("bin"), n(*lev), tree_of(l), tree_of(r)]),
                       |x, lev, l, r| J::L(vec![s("name"), J::S(show(x)), n(*lev), tree_of(l), tree_of(r)]))
    }
    let p = (r.get("pred").unwrap().at(0).str().to_string(), r.get("pred").unwrap().at(1).us());
    let pred = Rc::new(move |k: &K| { worked(); keeps(&p, k.0) });
    let fun = Rc::new(|k: K| { worked(); K(k.0 + 1) });
    let mut tree = J::L(vec![s("nil")]);
    let op = r.get("op").unwrap().str().to_string();
    let out: List<K> = match op.as_str() {
        "map_lazy" => list_map_lazy::<K, List<K>, K, List<K>, _>(l, fun),
        "filter_lazy" => list_filter_lazy::<K, List<K>, List<K>, _>(l, pred),
        "merge" => {
            let other: List<K> = ns(nm("other"), || list_of_vec(&read("other")));
            list_merge_wrapper(None, l, None, other)
        }
        _ => {
            let t: Tree<K> = ns(nm("tree"), || tree_of_list::<usize, K, Tree<K>, List<K>>(dir, l));
            tree = tree_of(&t);
            WORK.with(|w| w.set(0));
            ns(nm("sort"), || match op.as_str() {
                "sort1" => mergesort_list_of_tree(t),
                "sort2" => mergesort_list_of_tree2(t, Some(nm("_new"))),
                "sort3" => mergesort_list_of_tree3(t, Some(nm("_new"))),
                x => panic!("operation {}", x),
            })
        }
    };
    let mut work = vec![n(WORK.with(|w| w.get()))];
    let mut pass = |record: bool| {
        let mut items = vec![];
        let mut l = out.clone();
        loop {
            let r = List::elim(&l, |_| None, |x: &K, t| Some((NameElse::Else(x.0), t.clone())), |x, t| Some((NameElse::Name(x.clone()), t.clone())));
            match r { None => return items, Some((i, t)) => {
                // The work for the first element, the second and so on.
                if let (true, NameElse::Else(_)) = (record, &i) { work.push(n(WORK.with(|w| w.get()))) }
                items.push(i); l = t
            } }
        }
    };
    let items1 = pass(true);
    let done = WORK.with(|w| w.get());
    let items2 = pass(false);
    let again = WORK.with(|w| w.get()) - done;
    emit(&J::obj(vec![("t", r.get("id").unwrap().clone()), ("out", items(items1)), ("out2", items(items2)), ("work", J::L(work)), ("again", n(again)), ("done", n(done)), ("tree", tree)]));
}

// ----- Maps and sets (see spec/Maps.tla)

type M = List<(usize, usize)>;
type S = List<(usize, ())>;

/// A list built from items, its cells anew or by setting the old ones.
fn build_bindings<B: Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug + 'static>
    (q: &[J], f: &dyn Fn(&J) -> B, put_in: &dyn Fn(List<B>, B) -> List<B>, cells: &mut HashMap<String, Art<List<B>>>, by_set: bool) -> List<B> {
    let mut l: List<B> = List::nil();
    for i in q.iter().rev() {
        l = match i.at(0).str() {
            "b" => put_in(l, f(i)),
            "n" => List::name(nm(i.at(1).str()), l),
            "p" => List::art(put(l)),
            "t" => List::art(thunk(NameChoice::Nominal(nm(i.at(1).str())), ProgPt { symbol: "rest" }, Rc::new(Box::new(|x: List<B>, _: ()| x)), l, ())),
            "c" => {
                let x = i.at(1).str().to_string();
                let a = match cells.get(&x) {
                    Some(a) if by_set => { set(a, l); a.clone() }
                    _ => cell(nm(&x), l),
                };
                cells.insert(x, a.clone());
                List::art(a)
            }
            x => panic!("item {}", x),
        }
    }
    l
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Answers { find: Vec<Option<usize>>, mem: Vec<bool>, fold: Vec<(usize, usize)>, setfold: Vec<usize>, updated: Option<usize>, others: Vec<Option<usize>>,
                 added: Vec<bool>, inter: Vec<usize>, interfind: Vec<bool> }

fn ask(m: M, st: S, other: S, keys: &Vec<usize>) -> Answers {
    let m2: M = map_update(m.clone(), keys[0], 77);
    let st2 = <S as SetIntro<usize>>::add(st.clone(), keys[0]);
    let inter = <S as SetIntro<usize>>::inter(st.clone(), other);
    let mem = |st: &S| keys.iter().map(|d| <S as SetElim<usize>>::is_mem(st, d)).collect::<Vec<bool>>();
    let elms = |st: S| <S as SetElim<usize>>::fold(st, vec![], |d, mut r: Vec<usize>| { r.push(d); r });
    Answers {
        find: keys.iter().map(|d| map_find(&m, d)).collect(),
        mem: mem(&st),
        fold: map_fold(m.clone(), vec![], Rc::new(|d, c, mut r: Vec<(usize, usize)>| { r.push((d, c)); r })),
        setfold: elms(st.clone()),
        updated: map_find(&m2, &keys[0]),
        others: keys.iter().map(|d| map_find(&m2, d)).collect(),
        added: mem(&st2),
        interfind: mem(&inter),
        inter: elms(inter),
    }
}

pub fn run_maps(r: &J, emit: &mut dyn FnMut(&J)) {
    let flag = |k: &str| r.get(k).map(|j| j.is_true()).unwrap_or(false);
    let keys: Vec<usize> = r.get("keys").unwrap().list().iter().map(|j| j.us()).collect();
    let session = |naive: bool| {
        let (mut mc, mut sc, mut oc) = (HashMap::new(), HashMap::new(), HashMap::new());
        let by_set = flag("set") && !naive;
        let opt = |o: &Option<usize>| match o { None => J::L(vec![s("none")]), Some(c) => J::L(vec![s("some"), n(*c)]) };
        let bools = |v: &Vec<bool>| J::L(v.iter().map(|b| J::B(*b)).collect());
        let nums = |v: &Vec<usize>| J::L(v.iter().map(|k| n(*k)).collect());
        let other: S = ns(nm("other"), || build_bindings(r.get("other").unwrap().list(), &|i| (i.at(1).us(), ()), &|l, (d, ())| <S as SetIntro<usize>>::add(l, d), &mut oc, false));
        r.get("steps").unwrap().list().iter().map(|q| {
            let m = ns(nm("map"), || build_bindings(q.list(), &|i| (i.at(1).us(), i.at(2).us()), &|l, (d, c)| map_update(l, d, c), &mut mc, by_set));
            let st = ns(nm("set"), || build_bindings(q.list(), &|i| (i.at(1).us(), ()), &|l, (d, ())| <S as SetIntro<usize>>::add(l, d), &mut sc, by_set));
            let a = if flag("within") {
                let k2 = keys.clone();
                let f: Rc<Box<dyn Fn((M, S, S), ()) -> Answers>> = Rc::new(Box::new(move |(m, st, o), _| ask(m, st, o, &k2)));
                force(&thunk(NameChoice::Nominal(nm("the answers")), ProgPt { symbol: "ask" }, f, (m, st, other.clone()), ()))
            } else { ask(m, st, other.clone(), &keys) };
            J::obj(vec![("find", J::L(a.find.iter().map(opt).collect())), ("mem", bools(&a.mem)), ("fold", J::L(a.fold.iter().map(|x| J::L(vec![n(x.0), n(x.1)])).collect())),
                ("setfold", nums(&a.setfold)), ("updated", opt(&a.updated)), ("others", J::L(a.others.iter().map(opt).collect())), ("added", bools(&a.added)),
                ("inter", nums(&a.inter)), ("interfind", bools(&a.interfind))])
        }).collect::<Vec<J>>()
    };
    manage::init_naive();
    let naive = session(true);
    manage::init_dcg();
    let dcg = session(false);
    let m: M = map_empty();
    let st = <S as SetIntro<usize>>::empty();
    let empty = keys.iter().any(|d| map_find(&m, d).is_some() || <S as SetElim<usize>>::is_mem(&st, d));
    emit(&J::obj(vec![("t", r.get("id").unwrap().clone()), ("dcg", J::L(dcg)), ("naive", J::L(naive)), ("empty", J::B(empty))]));
}
