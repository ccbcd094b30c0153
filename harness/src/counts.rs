//! Traces, given or recorded, and their effect counts (see spec/Counts.tla).
use crate::json::*;
use adapton::engine::*;
use adapton::reflect::trace::*;
use adapton::reflect;

fn edge() -> EffectEdge {
    let l = reflect::Loc { path: vec![], name: name_unit() };
    EffectEdge::Fwd(Edge { loc: Some(l.clone()), succ: reflect::Succ { dirty: false, loc: l, effect: reflect::Effect::Force, value: reflect::Val::ValTODO, is_dup: false } })
}

fn build(h: &[J], i: &mut usize) -> Vec<Trace> {
    let mut out = vec![];
    while *i < h.len() && h[*i].str() != "." {
        let k = h[*i].str().to_string();
        *i += 1;
        let extent = Box::new(build(h, i));
        *i += 1;
        let kind = if out.len() % 2 == 0 { AllocKind::RefCell } else { AllocKind::Thunk };
        let effect = match k.as_str() {
            "dbg" => Effect::Debug(Some(name_unit()), None),
            "fresh" => Effect::Alloc(AllocCase::LocFresh, kind),
            "same" => Effect::Alloc(AllocCase::LocExists(ChangeFlag::ContentSame), kind),
            "diff" => Effect::Alloc(AllocCase::LocExists(ChangeFlag::ContentDiff), kind),
            "get" => Effect::Force(ForceCase::RefGet),
            "hit" => Effect::Force(ForceCase::CompCacheHit),
            "miss" => Effect::Force(ForceCase::CompCacheMiss),
            "cleanrec" => Effect::CleanRec,
            "cleaneval" => Effect::CleanEval,
            "cleanedge" => Effect::CleanEdge,
            "remove" => Effect::Remove,
            "dirty" => Effect::Dirty,
            x => panic!("effect {}", x),
        };
        let edge = if k == "dbg" { EffectEdge::None } else { edge() };
        out.push(Trace { effect, edge, extent });
    }
    out
}

/// The sequence of effects of a trace; "." closes an extent.
pub fn flat(ts: &Vec<Trace>, out: &mut Vec<J>) {
    for t in ts {
        out.push(s(match t.effect {
            Effect::Debug(..) => "dbg",
            Effect::Alloc(AllocCase::LocFresh, _) => "fresh",
            Effect::Alloc(AllocCase::LocExists(ChangeFlag::ContentSame), _) => "same",
            Effect::Alloc(AllocCase::LocExists(ChangeFlag::ContentDiff), _) => "diff",
            Effect::Force(ForceCase::RefGet) => "get",
            Effect::Force(ForceCase::CompCacheHit) => "hit",
            Effect::Force(ForceCase::CompCacheMiss) => "miss",
            Effect::CleanRec => "cleanrec",
            Effect::CleanEval => "cleaneval",
            Effect::CleanEdge => "cleanedge",
            Effect::Remove => "remove",
            Effect::Dirty => "dirty",
        }));
        flat(&t.extent, out);
        out.push(s("."));
    }
}

fn fields(a: (usize, usize), b: (usize, usize), c: (usize, usize), d: (usize, usize), e: usize, f: usize, g: usize, h: usize) -> J {
    J::obj(vec![("fresh_e", n(a.0)), ("fresh_a", n(a.1)), ("same_e", n(b.0)), ("same_a", n(b.1)), ("diff_e", n(c.0)), ("diff_a", n(c.1)),
                ("dirty_e", n(d.0)), ("dirty_a", n(d.1)), ("clean_rec", n(e)), ("reeval_same", n(f)), ("reeval_diff", n(g)), ("demands", n(h))])
}

pub fn count(ts: &Vec<Trace>, updates: Option<usize>) -> (J, J, usize) {
    let c = trace_count(ts, updates);
    let text = format!("{:?}", c);
    // The printed table: the editor's numbers first, then the archivist's.
    let num = |label: &str, k: usize| text.lines().filter(|l| l.trim_start().starts_with(&format!("{}:", label))).nth(k)
        .and_then(|l| l.split_whitespace().nth(1)).and_then(|x| x.parse::<usize>().ok()).unwrap_or(usize::MAX >> 1);
    let two = |label: &str| (num(label, 0), num(label, 1));
    let printed = fields(two("alloc_fresh"), two("alloc_nochange"), two("alloc_change"), two("dirty"),
                         num("clean_rec", 0), num("reeval_nochange", 0), num("reeval_change", 0), c.total_archivist);
    (fields(c.alloc_fresh, c.alloc_nochange, c.alloc_change, c.dirty, c.clean_rec, c.reeval_nochange, c.reeval_change, c.total_archivist), printed, c.total_updates)
}

pub fn run(t: &J, emit: &mut dyn FnMut(&J)) {
    let h = t.get("hist").unwrap().list();
    let ts = build(h, &mut 0);
    let want = t.get("want").unwrap().us();
    let (counts, printed, updates) = count(&ts, if want == 1 { None } else { Some(want) });
    emit(&J::obj(vec![("t", t.get("id").unwrap().clone()), ("counts", counts), ("printed", printed), ("updates", n(updates))]));
}
