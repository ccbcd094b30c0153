//! Makes names as spec/Names.tla describes, and reports which of them are the same, in all the
//! ways in which a program can tell.
use crate::json::*;
use adapton::engine::*;
use adapton::macros::*;
use adapton::reflect;
use adapton::{fork, forko};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

fn h(n: &Name) -> u64 { let mut x = DefaultHasher::new(); n.hash(&mut x); x.finish() }

fn pool(ops: &[J], none: &mut bool) -> Vec<Name> {
    let mut p: Vec<Name> = vec![];
    for op in ops {
        let at = |i: usize| p[op.at(i).us() - 1].clone();
        let add = match op.at(0).str() {
            "unit" => vec![name_unit()],
            "str" => vec![name_of_str(Box::leak(op.at(1).str().to_string().into_boxed_str()))],
            "string" => vec![name_of_string(op.at(1).str().to_string())],
            "usize" => vec![name_of_usize(op.at(1).str().parse().unwrap())],
            "isize" => vec![name_of_isize(op.at(1).str().parse().unwrap())],
            "pair" => vec![name_pair(at(1), at(2))],
            "fork" => { let (a, b) = name_fork(at(1)); vec![a, b] }
            "fork!" => { let (a, b) = fork!(at(1)); vec![a, b] }
            "forko!" => { let (a, b) = forko!(Some(at(1))); vec![a.unwrap(), b.unwrap()] }
            "fork3" => { let (a, b, c) = name_fork3(at(1)); vec![a, b, c] }
            "fork4" => { let (a, b, c, d) = name_fork4(at(1)); vec![a, b, c, d] }
            "clone" => vec![at(1)],
            "none" => { let o: Option<Name> = None; let (a, b) = forko!(o); *none = *none && a.is_none() && b.is_none(); vec![] }
            x => panic!("name operation {}", x),
        };
        p.extend(add);
    }
    p
}

/// For each of p, the position (from 1) of the first of q that is the same.
fn classes<T>(p: &[T], same: impl Fn(&T, usize) -> bool) -> J {
    J::L(p.iter().map(|x| n((0..p.len()).find(|j| same(x, *j)).map(|j| j + 1).unwrap_or(0))).collect())
}

/// What cells or thunks numbered by position hold, to classes: the last writer wins.
fn by_last(v: Vec<usize>) -> J { J::L((0..v.len()).map(|i| n((0..v.len()).find(|j| v[*j] == v[i]).unwrap() + 1)).collect()) }

/// The readable forms; unit as ^.
fn show(t: &J, p: &[Name], emit: &mut dyn FnMut(&J)) {
    let all = |f: &dyn Fn(usize) -> String| J::L((0..p.len()).map(|i| J::S(f(i).replace('▲', "^"))).collect());
    // the location of a cell within the namespaces before it, as the engine reflects it
    let loc = |i: usize| {
        fn at(p: &[Name], n: &Name) -> Art<usize> { match p.split_first() { None => cell(n.clone(), 1), Some((h, tl)) => ns(h.clone(), || at(tl, n)) } }
        match reflect::reflect_val(&at(&p[i.saturating_sub(2)..i], &p[i])) { reflect::Val::Art(l, _) => l, _ => panic!("no location") }
    };
    emit(&J::obj(vec![
        ("t", t.get("id").unwrap().clone()),
        ("names", all(&|i| reflect::string_of_name(&p[i]))),
        ("paths", all(&|i| reflect::string_of_path(&loc(i).path))),
        ("locs", all(&|i| reflect::string_of_loc(&loc(i)))),
    ]));
}

pub fn run(t: &J, emit: &mut dyn FnMut(&J)) {
    let ops = t.get("ops").unwrap().list();
    manage::init_dcg();
    let mut none = true;
    let p = pool(ops, &mut none);
    if t.get("show").is_some() { return show(t, &p, emit) }
    let p2 = pool(ops, &mut none);
    let cells: Vec<Art<usize>> = p.iter().enumerate().map(|(i, nm)| ns(name_of_str("cells"), || cell(nm.clone(), i))).collect();
    let f: Rc<Box<dyn Fn(usize, ()) -> usize>> = Rc::new(Box::new(|i, _| i));
    let thunks: Vec<Art<usize>> = p.iter().enumerate().map(|(i, nm)| ns(name_of_str("thunks"), || thunk(NameChoice::Nominal(nm.clone()), ProgPt { symbol: "id" }, f.clone(), i, ()))).collect();
    let spaces: Vec<Art<usize>> = p.iter().enumerate().map(|(i, nm)| ns(nm.clone(), || cell(name_of_str("in"), i))).collect();
    let boxes: Vec<Art<(usize, Name)>> = p.iter().enumerate().map(|(i, nm)| cell(name_of_string(format!("box{}", i)), (i, nm.clone()))).collect();
    let stored: Vec<Name> = boxes.iter().map(|b| force(b).1).collect();
    // Names as arguments of structurally identified thunks, and as content of hash-consed cells.
    let g: Rc<Box<dyn Fn(Name, ()) -> Name>> = Rc::new(Box::new(|n, _| n));
    let asarg: Vec<Art<Name>> = p.iter().map(|nm| thunk(NameChoice::Structural, ProgPt { symbol: "idn" }, g.clone(), nm.clone(), ())).collect();
    let consed: Vec<Art<Name>> = p.iter().map(|nm| structural(|| cell(name_unit(), nm.clone()))).collect();
    let both = |v: &[Art<Name>]| J::L((0..v.len()).map(|i| {
        let k = (0..v.len()).find(|j| v[*j] == v[i]).unwrap();
        n(if force(&v[i]) == p[i] { k + 1 } else { 0 })
    }).collect());
    let d = reflect::dcg_reflect_now().unwrap();
    let loc = |a: &Art<usize>| match reflect::reflect_val(a) { reflect::Val::Art(l, _) => Some(l), _ => None };
    let located = J::L((0..p.len()).map(|i| {
        let k = match loc(&cells[i]) { Some(l) if d.table.contains_key(&l) => (0..p.len()).find(|j| p[*j] == l.name), _ => None };
        let m = match loc(&spaces[i]) { Some(l) if d.table.contains_key(&l) => (0..p.len()).find(|j| l.path == vec![p[*j].clone()]), _ => None };
        n(if k == m { k.map(|j| j + 1).unwrap_or(0) } else { 0 })
    }).collect());
    let reflected = J::L(p.iter().map(|nm| {
        // The name unit alone has the debug output of a constructor.
        let back = match reflect::reflect_val(nm) {
            reflect::Val::Name(x) => Some(x),
            reflect::Val::Constr(c, ref a) if a.is_empty() && c == name_of_str("Unit") => Some(name_unit()),
            _ => None,
        };
        n(back.and_then(|b| (0..p.len()).find(|j| p[*j] == b && h(&p[*j]) == h(&b))).map(|j| j + 1).unwrap_or(0))
    }).collect());
    emit(&J::obj(vec![
        ("t", t.get("id").unwrap().clone()),
        ("eq", classes(&p, |x, j| *x == p[j])),
        ("hash", classes(&p, |x, j| h(x) == h(&p[j]))),
        ("cell", by_last(cells.iter().map(|c| force(c)).collect())),
        ("thunk", by_last(thunks.iter().map(|c| force(c)).collect())),
        ("ns", by_last(spaces.iter().map(|c| force(c)).collect())),
        ("stored", classes(&stored, |x, j| *x == p[j])),
        ("again", classes(&p2, |x, j| *x == p[j])),
        ("asarg", both(&asarg)),
        ("consed", both(&consed)),
        ("located", located),
        ("reflected", reflected),
        ("none", J::B(none)),
    ]));
}
