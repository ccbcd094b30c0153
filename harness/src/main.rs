//! Conformance harness: drives /repo's adapton crate from requests that the specification's tools
//! generate, and records what it does for the specification to judge.
#[macro_use] extern crate adapton;
mod json;
mod ambig;
mod collections;
mod counts;
mod eng;
mod macroforms;
mod names;
mod reflectval;
mod reuse;
mod tries;
use json::*;
use std::io::{BufRead, Write};

/// For each input line: run it, printing the lines it emits, each flushed (the process may die).
fn each_line(f: fn(&J, &mut dyn FnMut(&J))) { each(f, true) }
fn each(f: fn(&J, &mut dyn FnMut(&J)), start: bool) {
    let inp: Vec<String> = std::io::stdin().lock().lines().map(|l| l.unwrap()).collect();
    let run = move || {
        let out = std::io::stdout();
        for l in inp {
            let mut o = out.lock();
            let mut emit = |j: &J| { let mut t = j.text(); t.push('\n'); o.write_all(t.as_bytes()).unwrap(); o.flush().unwrap() };
            let r = J::parse(&l);
            if start { emit(&J::obj(vec![("t", r.get("id").unwrap().clone()), ("start", J::B(true))])) }
            f(&r, &mut emit);
        }
    };
    std::thread::Builder::new().stack_size(1 << 28).spawn(run).unwrap().join().unwrap();
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    match std::env::args().nth(1).as_deref() {
        Some("eng") => each(eng::run_trace, false),
        Some("ambig") => each_line(ambig::run),
        Some("collections") => each_line(collections::run),
        Some("lazy") => each_line(collections::run_lazy),
        Some("reuse") => each_line(reuse::run),
        Some("maps") => each_line(collections::run_maps),
        Some("counts") => each_line(counts::run),
        Some("bits") => each_line(tries::run_bits),
        Some("trie") => each_line(tries::run_trie),
        Some("hashes") => each(tries::run_hashes, false),
        Some("macros") => each_line(macroforms::run),
        Some("names") => each_line(names::run),
        Some("reflectval") => each_line(reflectval::run),
        x => panic!("unknown command {:?}", x),
    }
}
