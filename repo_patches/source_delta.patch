From a17beddb6c0ea0f0fdb5ade9f68e42e4de566108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 01/23] fix: decide a structural thunk's purity after producing
 it, not before

---
 src/engine.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 6e4ce1f..e62d4c4 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1952,9 +1952,8 @@ impl Adapton for DCG {
         match *art {
             AbsArt::Rc(ref v) => (**v).clone(),
             AbsArt::Loc(ref loc) => {
-                let (is_comp, is_dup, is_pure, is_cycle, cached_result) : (bool, bool, bool, bool, Option<T>) = {
+                let (is_comp, is_dup, is_cycle, cached_result) : (bool, bool, bool, Option<T>) = {
                     let st : &mut DCG = &mut *g.borrow_mut();
-                    let is_pure_opt : bool = st.flags.use_purity_optimization ;
                     let is_cycle = { let mut is_cycle = false;
                                      for frame in st.stack.iter() {
                                          if &frame.loc == loc {
@@ -1972,12 +1971,9 @@ impl Adapton for DCG {
                     }};
                     let node : &mut Node<T> = res_node_of_loc(st, &loc) ;
                     match *node {
-                        Node::Pure(ref mut nd) => (false, is_dup, true, false, Some(nd.val.clone())),
-                        Node::Mut(ref mut nd)  => (false, is_dup, false, false, Some(nd.val.clone())),
+                        Node::Pure(ref mut nd) => (false, is_dup, false, Some(nd.val.clone())),
+                        Node::Mut(ref mut nd)  => (false, is_dup, false, Some(nd.val.clone())),
                         Node::Comp(ref mut nd) => {
-                            let is_pure = match *loc.id {
-                                ArtId::Structural(_) => nd.succs.len() == 0 && is_pure_opt,
-                                ArtId::Nominal(_)    => false } ;
                             if is_cycle {
                                 // Cycle detected; check cycle_out to see if the caller expected this
                                 match cycle_out {
@@ -1987,12 +1983,12 @@ impl Adapton for DCG {
                                     // cycle, use this special output value now
                                     // (in particular, in the case of a cycle,
                                     // we do not use the thunk's cached result)
-                                    Some(out) => (true, is_dup, is_pure, true, Some(out)),
+                                    Some(out) => (true, is_dup, true, Some(out)),
                                 }
                             }
                             else {
                                 // "Ordinary case": No cycle, so clone the result we have cached, if any.
-                                (true, is_dup, is_pure, false, nd.res.clone())
+                                (true, is_dup, false, nd.res.clone())
                             }
                         }
                     }
@@ -2068,6 +2064,19 @@ impl Adapton for DCG {
                     }
                 } ;
                 let st : &mut DCG = &mut *g.borrow_mut() ;
+                // Purity is decided only now: a thunk's successors are
+                // unknown until it has been produced.
+                let is_pure_opt : bool = st.flags.use_purity_optimization ;
+                let is_pure : bool = {
+                    let node : &mut Node<T> = res_node_of_loc(st, &loc) ;
+                    match *node {
+                        Node::Pure(_) => true,
+                        Node::Mut(_)  => false,
+                        Node::Comp(ref nd) => match *loc.id {
+                            ArtId::Structural(_) => nd.succs.len() == 0 && is_pure_opt,
+                            ArtId::Nominal(_)    => false },
+                    }
+                } ;
                 if !is_dup && !is_pure { match st.stack.last_mut() { None => (), Some(frame) => {
                     let succ =
                         Succ{loc:loc.clone(),
-- 
2.43.0


From 897825ebd47f1d98daaa94f5e74ca560cf3ce685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 02/23] fix: track every observation of one cell by one thunk,
 not only the first

---
 src/engine.rs | 53 ++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index e62d4c4..211a2e1 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -999,7 +999,7 @@ fn clean_comp<Res:'static+Sized+Debug+PartialEq+Clone+Eq+Hash>
     for succ in succs.iter() {
         let dirty = {
             let st = &mut *g.borrow_mut();
-            get_succ_mut(st, loc, succ.effect.clone(), &succ.loc).dirty
+            get_same_succ_mut(st, loc, succ).dirty
         } ;
         if dirty {
             dcg_effect_begin!(reflect::trace::Effect::CleanRec, Some(loc), succ);
@@ -1016,7 +1016,7 @@ fn clean_comp<Res:'static+Sized+Debug+PartialEq+Clone+Eq+Hash>
             else {
                 let st : &mut DCG = &mut *g.borrow_mut();
                 //st.cnt.clean += 1 ;
-                get_succ_mut(st, loc, succ.effect.clone(), &succ.loc).dirty = false ;
+                get_same_succ_mut(st, loc, succ).dirty = false ;
                 dcg_effect!(reflect::trace::Effect::CleanEdge, Some(loc), succ);
             }
             dcg_effect_end!();
@@ -1303,6 +1303,35 @@ fn get_succ_mut<'r>(st:&'r mut DCG, src_loc:&Rc<Loc>, eff:Effect, tgt_loc:&Rc<Lo
     panic!("tgt_loc is dangling in src_node.dem_succs")
 }
 
+// The current copy of one particular succ edge of `src_loc`.
+//
+// A node may observe the same target more than once (e.g., through
+// several mapping functions), so the effect and target do not suffice
+// to identify the edge; its dependency record does.
+fn get_same_succ_mut<'r>(st:&'r mut DCG, src_loc:&Rc<Loc>, edge:&Succ) -> &'r mut Succ {
+    let nd = lookup_abs( st, src_loc );
+    for succ in nd.succs_mut().iter_mut() {
+        if Rc::ptr_eq(&succ.dep, &edge.dep) {
+            return succ
+        } else {}
+    } ;
+    panic!("tgt_loc is dangling in src_node.dem_succs")
+}
+
+// Sets the dirty bit of every observation edge from `src_loc` to
+// `tgt_loc`; returns the first edge that was clean before, if any.
+fn dirty_observe_succs(st:&mut DCG, src_loc:&Rc<Loc>, tgt_loc:&Rc<Loc>) -> Option<Succ> {
+    let mut dirtied = None ;
+    let nd = lookup_abs( st, src_loc );
+    for succ in nd.succs_mut().iter_mut() {
+        if succ.effect == Effect::Observe && &succ.loc == tgt_loc && !succ.dirty {
+            if dirtied.is_none() { dirtied = Some(succ.clone()) } ;
+            succ.dirty = true ;
+        } else {}
+    } ;
+    dirtied
+}
+
 fn dirty_pred_observers(st:&mut DCG, loc:&Rc<Loc>) {
     let pred_locs : Vec<(Rc<Loc>, Option<Rc<Box<dyn DCGDep>>>)> = lookup_abs( st, loc ).preds_obs() ;
     for (pred_loc, dep) in pred_locs {
@@ -1312,13 +1341,13 @@ fn dirty_pred_observers(st:&mut DCG, loc:&Rc<Loc>) {
         };
         let stop : bool = if stop { true } else {
             // The stop bit communicates information from st for use below.
-            let succ = get_succ_mut(st, &pred_loc, Effect::Observe, &loc) ;
-            if succ.dirty { true } else {
-                assert!(&pred_loc != loc);
-                dcg_effect_begin!(reflect::trace::Effect::Dirty, Some(&pred_loc), succ);
-                replace(&mut succ.dirty, true);
-                false
-            }}
+            match dirty_observe_succs(st, &pred_loc, &loc) {
+                None => true,
+                Some(succ) => {
+                    assert!(&pred_loc != loc);
+                    dcg_effect_begin!(reflect::trace::Effect::Dirty, Some(&pred_loc), succ);
+                    false
+                }}}
         ;
         if !stop {
             dirty_pred_observers(st,&pred_loc);
@@ -1963,8 +1992,10 @@ impl Adapton for DCG {
                     };
                     let is_dup : bool = match st.stack.last_mut() { None => false, Some(frame) => {
                         let mut is_dup = false;
-                        for &(ref succ, ref _pred_dep) in frame.succs.iter() {
-                            if &succ.loc == loc && succ.effect == Effect::Observe
+                        for &(ref succ, ref pred_dep) in frame.succs.iter() {
+                            // Only a full observation makes another one redundant;
+                            // a mapped one (`force_map`, `force_abs`) does not.
+                            if &succ.loc == loc && succ.effect == Effect::Observe && pred_dep.is_none()
                             { is_dup = true }
                         };
                         is_dup
-- 
2.43.0


From ef46cfe2b941f6e6b4e33ee6ba430202e840671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 03/23] fix: dirty the observers of a cell that used force_abs

---
 src/engine.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 211a2e1..1e3427f 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1140,11 +1140,13 @@ impl<Arg:'static,   // identifies a concrete mapping in the family
         Some(TypeId::of::<Self>())
     }
     fn dirty (self:&Self, _g:&mut DCG, _loc:&Rc<Loc>) -> DCGRes {
-        unimplemented!()
+        // Conservative: we do not have the old value in hand here, so
+        // we cannot run `fn is_dirty`; assume that it would say so.
+        DCGRes{ changed: true }
     }
     fn clean (self:&Self, _g:&RefCell<DCG>, _loc:&Rc<Loc>) -> DCGRes {
-        // the edge is dirty because we've already determined it
-        // should be, via an abstract test (`fn is_dirty` on the
+        // Ideally, the edge is dirty because we've already determined
+        // it should be, via an abstract test (`fn is_dirty` on the
         // AbsMapFam trait).  We could try to re-run this test _now_,
         // but we don't have the old value of the observation in hand,
         // and would like to avoid storing it on the edge.
@@ -1337,7 +1339,7 @@ fn dirty_pred_observers(st:&mut DCG, loc:&Rc<Loc>) {
     for (pred_loc, dep) in pred_locs {
         let stop : bool = match dep {
             None => false,
-            Some(dep) => dep.is_absmap() != None || dep.dirty(st, loc).changed == false
+            Some(dep) => dep.dirty(st, loc).changed == false
         };
         let stop : bool = if stop { true } else {
             // The stop bit communicates information from st for use below.
-- 
2.43.0


From 93a17dcb3d83392f9232808fe9c5566ad7e59a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 04/23] fix: keep a node's observers when a cell replaces a
 thunk or a thunk a cell

---
 src/engine.rs | 63 ++++++++++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 31 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 1e3427f..f130a16 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1176,8 +1176,9 @@ fn check_force_map_dep
                    (&Art{art:EnumArt::Loc(loc.clone())},
                     nd.val.clone())},
 
+        // The location was a cell when it was observed, and is not one anymore.
         Node::Comp(_) | Node::Pure(_) =>
-            unreachable!()
+            DCGRes{changed:true}
     }
 }
 
@@ -1578,14 +1579,15 @@ impl Adapton for DCG {
             let hash = my_hash(&(&path,&id));
             let loc  = Rc::new(Loc{path:path,id:id,hash:hash})
                 ;
-            let (do_dirty, do_set, succs, do_insert, is_fresh) =
+            let (do_dirty, do_set, succs, preds, do_insert, is_fresh) =
                 if self.table.contains_key(&loc) {
                     let node : &Box<Node<T>> = res_node_of_loc(self, &loc) ;
                     match **node {
-                        Node::Mut(_)       => { (false, true,  None, false, false) }
-                        Node::Comp(ref nd) => { (true,  false, Some(nd.succs.clone()),  false, false ) }
-                        Node::Pure(_)      => { (false, false, None, false, false) }
-                    }} else                 { (false, false, None, true, true ) }
+                        Node::Mut(_)       => { (false, true,  None, Vec::new(), false, false) }
+                        // The cell replaces the thunk's node; the thunk's predecessors become the cell's.
+                        Node::Comp(ref nd) => { (true,  false, Some(nd.succs.clone()), nd.preds.clone(), true, false ) }
+                        Node::Pure(_)      => { (false, false, None, Vec::new(), false, false) }
+                    }} else                 { (false, false, None, Vec::new(), true, true ) }
             ;
             // - - - - - - - - - -
             // Begin an allocation.  Because this allocation may require
@@ -1622,18 +1624,19 @@ impl Adapton for DCG {
                 }
             );
             if do_set   { set_(self, AbsArt::Loc(loc.clone()), val.clone()) };
-            if do_dirty { dirty_alloc(self, &loc) } ;
             match succs { Some(succs) => revoke_succs(self, &loc, &succs), None => () } ;
-            dcg_effect_end!();
-
             if do_insert {
                 let node = if is_pure { Node::Pure(PureNode{val:val.clone()}) } else {
                     Node::Mut(MutNode{
-                        preds:Vec::new(),
+                        preds:preds,
                         val:val.clone(),
                     })} ;
                 self.table.insert(loc.clone(), Box::new(node));
             } ;
+            // Dirty only now: the observers compare against the new content.
+            if do_dirty { dirty_alloc(self, &loc) } ;
+            dcg_effect_end!();
+
             if ! is_pure { match self.stack.last_mut() {
                 None => (),
                 Some(frame) => {
@@ -1738,10 +1741,10 @@ impl Adapton for DCG {
                     }
                 ;
                 let top_loc = get_top_stack_loc( self );
-                let (do_dirty, do_insert, is_fresh) = { match self.table.get_mut( &loc ) {
+                let (do_dirty, do_insert, is_fresh, preds) = { match self.table.get_mut( &loc ) {
                     None => {
                         // do_dirty=false; do_insert=true
-                        (false, true, true)
+                        (false, true, true, Vec::new())
                     },
                     Some(node) => {
                         let node: &mut Box<dyn GraphNode> = node ;
@@ -1749,8 +1752,9 @@ impl Adapton for DCG {
                         let res_nd: &mut Box<Node<Res>> = unsafe { transmute::<_,_>( node ) } ;
                         match ** res_nd {
                             Node::Pure(_)=> unreachable!(),
-                            Node::Mut(_) => {
-                                (true, true, false) // Todo: Do we need to preserve preds?
+                            Node::Mut(ref nd) => {
+                                // The thunk replaces the cell's node; the cell's predecessors become the thunk's.
+                                (true, true, false, nd.preds.clone())
                             },
                             Node::Comp(ref mut comp_nd) => {
                                 let equal_producer_prog_pts : bool =
@@ -1763,13 +1767,13 @@ impl Adapton for DCG {
                                     if app.get_arg() == arg {
                                         // Case: Same argument; Nothing else to do:
                                         // do_dirty=false; do_insert=false
-                                        (false, false, false)
+                                        (false, false, false, Vec::new())
                                     }
                                     else { // Case: Not the same argument:
                                         app.consume(arg.clone()); // overwrite the old argument
                                         comp_nd.res = None ; // clear the cache
                                         // do_dirty=true; do_insert=false
-                                        (true, false, false)
+                                        (true, false, false, Vec::new())
                                     }}
                                 else {
                                     panic!("Memozied functions not equal!
@@ -1812,6 +1816,16 @@ impl Adapton for DCG {
                         dirty:false,
                         is_dup:false, // XXX -- Actually: Not checked here.
                     });
+                if do_insert {
+                    let node : CompNode<Res> = CompNode{
+                        preds:preds,
+                        succs:Vec::new(),
+                        producer:Box::new(producer),
+                        res:None,
+                    } ;
+                    self.table.insert(loc.clone(), Box::new(Node::Comp(node)));
+                } ;
+                // Dirty only now: the observers compare against the new content.
                 if do_dirty {dirty_alloc(self, &loc) };
                 dcg_effect_end!();
 
@@ -1823,21 +1837,8 @@ impl Adapton for DCG {
                              dirty:false};
                     frame.succs.push((succ, None))
                 }};
-                if do_insert {
-                    let node : CompNode<Res> = CompNode{
-                        preds:Vec::new(),
-                        succs:Vec::new(),
-                        producer:Box::new(producer),
-                        res:None,
-                    } ;
-                    self.table.insert(loc.clone(), Box::new(Node::Comp(node)));
-                    wf::check_dcg(self);
-                    AbsArt::Loc(loc)
-                }
-                else {
-                    wf::check_dcg(self);
-                    AbsArt::Loc(loc)
-                }
+                wf::check_dcg(self);
+                AbsArt::Loc(loc)
             }
         }
     }
-- 
2.43.0


From 580884a98aa78eba5b57ff8c7763957cc99a7f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 05/23] fix: thunks with NameChoice::Eager or NameChoice::Naive
 under the DCG engine

---
 src/engine.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index f130a16..7694ee6 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2476,13 +2476,18 @@ pub fn thunk<Arg:Hash+Eq+Debug+Clone+'static,Spurious:Clone+'static,Res:Hash+Eq+
 {
     GLOBALS.with(|g| {
         match g.borrow().engine {
-            Engine::DCG(ref dcg) => {
+            // Neither choice involves a node of the DCG. In particular,
+            // the eager function may use the DCG, so it must run
+            // before we borrow it.
+            Engine::DCG(_) if id == NameChoice::Eager =>
+                put(fn_box(arg, spurious)),
+            Engine::DCG(ref dcg) if id != NameChoice::Naive => {
                 Art{art:EnumArt::Loc({
                     if let AbsArt::Loc(loc) =
                         (dcg.borrow_mut()).thunk(id, prog_pt, fn_box, arg, spurious)
                     { loc } else { unreachable!() }})}
             },
-            Engine::Naive => {
+            Engine::DCG(_) | Engine::Naive => {
                 Art{art:EnumArt::Force(
                     Rc::new(NaiveThunk{
                         id:id,prog_pt:prog_pt,
-- 
2.43.0


From 6a3acb6eae8156d7d29c96db816ff6c68678326f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 06/23] fix: thunk_map results are equal only when they map the
 same thunk the same way

---
 src/engine.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 7694ee6..da163d2 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2506,16 +2506,19 @@ pub fn thunk_map<Res1:Hash+Eq+Debug+Clone+'static,
                  Res2:Hash+Eq+Debug+Clone+'static>
     (thunk:Art<Res1>, map_fn:Rc<dyn Fn(Res1) -> Res2>) -> Art<Res2>
 {
+    // The mapped thunk and the identity of the mapping function; they
+    // decide whether two mapped thunks are the same.
+    let arg = (thunk, &*map_fn as *const dyn Fn(Res1) -> Res2 as *const () as usize);
     Art{art:EnumArt::Force(
         Rc::new(NaiveThunk{
             id:NameChoice::Naive,
             prog_pt:ProgPt{symbol:"engine::thunk_map"},
-            fn_box:{Rc::new(Box::new(move |_,_| {
+            fn_box:{Rc::new(Box::new(move |(thunk,_):(Art<Res1>,usize),_| {
                 let res1 = force(&thunk);
                 let res2 = map_fn(res1);
                 res2
             }))},
-            arg:(),
+            arg:arg,
             spurious:()
         }))
     }
-- 
2.43.0


From 42f417e27c8accf49b1a5a9f98dfda0ad9eee577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 07/23] fix: thunk![[name] body] identifies its code by the
 body, not by the text $fun

---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index 8fda541..83c0d92 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -413,7 +413,7 @@ macro_rules! thunk {
   [ [ $name:ident ] $body:expr ] => {{
       thunk(
           NameChoice::Nominal(name_of_str(stringify!($name))),
-          prog_pt!(stringify!($fun)),
+          prog_pt!(stringify!($body)),
           Rc::new(Box::new( move |(),()| { $body } )),
           () ,
           () )
-- 
2.43.0


From bb8d6b049c31e9d4d8829bb1f5790f87b84b92a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 08/23] fix: check the hidden argument types before casting a
 thunk's producer

---
 src/engine.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index da163d2..67ffc66 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -708,6 +708,8 @@ trait Producer<Res> : Debug {
     fn produce(self:&Self) -> Res;
     fn copy(self:&Self) -> Box<dyn Producer<Res>>;
     fn eq(self:&Self, other:&dyn Producer<Res>) -> bool;
+    /// Identifies the (hidden) type of this producer, for checking casts.
+    fn app_typeid(self:&Self) -> TypeId;
     fn prog_pt<'r>(self:&'r Self) -> &'r ProgPt;
 }
 // Consume a value of type Arg.
@@ -760,11 +762,13 @@ impl<Arg:'static+PartialEq+Eq+Clone+Debug,Spurious:'static+Clone,Res:'static+Deb
     fn prog_pt<'r>(self:&'r Self) -> &'r ProgPt {
         & self.prog_pt
     }
+    fn app_typeid(self:&Self) -> TypeId {
+        TypeId::of::<Self>()
+    }
     fn eq (&self, other:&dyn Producer<Res>) -> bool {
-        if &self.prog_pt == other.prog_pt() {
+        if &self.prog_pt == other.prog_pt() && self.app_typeid() == other.app_typeid() {
             let other = Box::new(other) ;
-            // This is safe if the prog_pt implies unique Arg and Res types.
-            // TODO-Soon: Program points should store argument + result types; we should check these dynamically here
+            // This is safe because the types of both producers are the same.
             let other : &Box<App<Arg,Spurious,Res>> = unsafe { transmute::<_,_>( other ) } ;
             self.arg == other.arg
         } else {
@@ -1757,11 +1761,11 @@ impl Adapton for DCG {
                                 (true, true, false, nd.preds.clone())
                             },
                             Node::Comp(ref mut comp_nd) => {
-                                let equal_producer_prog_pts : bool =
-                                    comp_nd.producer.prog_pt().eq( producer.prog_pt() ) ;
-                                if equal_producer_prog_pts { // => safe cast to Box<Consumer<Arg>>
+                                let equal_producers : bool =
+                                    comp_nd.producer.prog_pt().eq( producer.prog_pt() )
+                                    && comp_nd.producer.app_typeid() == producer.app_typeid() ;
+                                if equal_producers { // => safe cast to Box<Consumer<Arg>>
                                     let app: &mut Box<App<Arg,Spurious,Res>> =
-                                    // TODO-Soon: Follow pattern above for assert_graphnode_res_type to dynamically check the safety of this cast
                                         unsafe { transmute::<_,_>( &mut comp_nd.producer ) }
                                     ;
                                     if app.get_arg() == arg {
@@ -2203,6 +2207,8 @@ trait Force<T> {
     fn copy(self:&Self) -> Box<dyn Force<T>>;
     fn eq(self:&Self, other:&dyn Force<T>) -> bool;
     fn id<'r>(self:&'r Self) -> &'r NameChoice;
+    /// Identifies the (hidden) type of this thunk, for checking casts.
+    fn thunk_typeid(self:&Self) -> TypeId;
     fn prog_pt<'r>(self:&'r Self) -> &'r ProgPt;
     fn hash_u64(self:&Self) -> u64;
     fn fmt(&self, f:&mut Formatter) -> fmt::Result;
@@ -2237,6 +2243,9 @@ impl<A:Hash+Clone+Eq+Debug+'static,S:Clone+'static,T:'static>
     fn id<'r>(self:&'r Self) -> &'r NameChoice {
         & self.id
     }
+    fn thunk_typeid(self:&Self) -> TypeId {
+        TypeId::of::<Self>()
+    }
     fn hash_u64(&self) -> u64 {
         let mut hasher = DefaultHasher::new();
         self.id.hash( &mut hasher );
@@ -2247,10 +2256,10 @@ impl<A:Hash+Clone+Eq+Debug+'static,S:Clone+'static,T:'static>
     fn eq (&self, other:&dyn Force<T>) -> bool {
         if   &self.id      == other.id()
             && &self.prog_pt == other.prog_pt()
+            && self.thunk_typeid() == other.thunk_typeid()
         {
             let other = Box::new(other) ;
-            // This is safe if the prog_pt implies unique Arg and Res types.
-            // TODO-Soon: Program points should store argument + result types; we should check these dynamically here
+            // This is safe because the types of both thunks are the same.
             let other : &Box<NaiveThunk<A,S,T>> = unsafe { transmute::<_,_>( other ) } ;
             self.arg == other.arg
         } else {
-- 
2.43.0


From dc48c90c50b6236a4886ab5a5053ca8f5f76aaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 09/23] fix: list_gen iterated over an empty range and always
 returned nil

---
 src/catalog/collections.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index d0eef85..4760e80 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -63,7 +63,7 @@ pub fn list_gen<X:'static,G,L:ListIntro<X>>
   (len:usize, gen_elm:G) -> L
   where G:Fn(usize) -> X {
     let mut out : L = L::nil();
-    for i in len-1..0 {
+    for i in (0..len).rev() {
       let x = gen_elm(i);
       let nm = name_of_usize(i);
       out = L::art(cell(nm.clone(), out));
-- 
2.43.0


From bf5a6236e89eecae6a69a6883656f75683a40644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 10/23] fix: ListElim::is_name answered for cons instead of
 name

---
 src/catalog/collections.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index 4760e80..71dad06 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -110,8 +110,8 @@ pub trait ListElim<X> : Debug+Clone+Hash+PartialEq+Eq {
   fn is_name (list:&Self) -> bool {
     Self::elim(list,
                |_|   false,
-               |_,_| true,
-               |_,_| false)
+               |_,_| false,
+               |_,_| true)
   }
 }
 
-- 
2.43.0


From 916515780692de14357ec93322d0af83603935a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 11/23] fix: reflect names from isizes, structural locations
 and escaped strings

---
 src/parse_val.rs | 62 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 14 deletions(-)

diff --git a/src/parse_val.rs b/src/parse_val.rs
index 9b0b7a5..df67de5 100644
--- a/src/parse_val.rs
+++ b/src/parse_val.rs
@@ -59,20 +59,19 @@ enum Tok {
 pub fn parse_val <V:Debug> (v:&V) -> Val {
     let s = format!("{:?}", v);
     //println!("reflect_val({:?})", v);
-    let toks = lex(s.into_bytes());
+    let toks = lex(s.chars().collect());
     //println!("toks = {:?}", toks);
     parse_toks(toks)
 }
 
 /// Tokenize the characters of input into lexical tokens of type `Tok`
-fn lex (mut chars: Vec<u8>) -> Vec<Tok> {
+fn lex (mut chars: Vec<char>) -> Vec<Tok> {
     let mut toks = vec![];
     chars.reverse(); // TODO rewrite to avoid this
     loop {
         match chars.pop() {
             None => return toks,
             Some(c) => {
-                let c : char = c as char ;
                 if      c == ' ' { continue }
                 else if c == ':' { toks.push(Tok::Colon); continue }
                 else if c == ',' { toks.push(Tok::Comma); continue }
@@ -88,11 +87,9 @@ fn lex (mut chars: Vec<u8>) -> Vec<Tok> {
                         match chars.pop() {
                             None => break,
                             Some(c) => {
-                                let c : char = c as char ;
-                                if c == '"' { break } else { 
-                                    string_chars.push(c);
-                                    continue 
-                                }
+                                if c == '"' { break }
+                                else if c == '\\' { string_chars.push(lex_escape(&mut chars)) }
+                                else { string_chars.push(c) }
                             }
                         }
                     };
@@ -107,12 +104,11 @@ fn lex (mut chars: Vec<u8>) -> Vec<Tok> {
                         match chars.pop() {
                             None    => break,
                             Some(c) => { 
-                                let c : char = c as char ;
                                 if c >= '0' && c <= '9' { 
                                     digs.push(c); 
                                     continue 
                                 } else { 
-                                    chars.push(c as u8); 
+                                    chars.push(c); 
                                     break 
                                 }
                             }
@@ -140,7 +136,6 @@ fn lex (mut chars: Vec<u8>) -> Vec<Tok> {
                         match chars.pop() {
                             None    => break,
                             Some(c) => { 
-                                let c : char = c as char ;
                                 if (c >= 'a' && c <= 'z') ||
                                     (c >= 'A' && c <= 'Z') ||
                                     (c >= '0' && c <= '9') ||
@@ -149,7 +144,7 @@ fn lex (mut chars: Vec<u8>) -> Vec<Tok> {
                                     ident.push(c); 
                                     continue 
                                 } else { 
-                                    chars.push(c as u8); 
+                                    chars.push(c); 
                                     break 
                                 }
                             }
@@ -163,6 +158,34 @@ fn lex (mut chars: Vec<u8>) -> Vec<Tok> {
     } ;
 }
 
+/// The character that an escape sequence of a `Debug` string stands
+/// for; `chars` holds (in reverse) what follows the backslash.
+fn lex_escape (chars: &mut Vec<char>) -> char {
+    match chars.pop() {
+        Some('n') => '\n',
+        Some('r') => '\r',
+        Some('t') => '\t',
+        Some('0') => '\0',
+        Some('u') => {
+            // For example, `\u{1f600}`
+            let mut digs = String::new();
+            loop {
+                match chars.pop() {
+                    None | Some('}') => break,
+                    Some('{') => (),
+                    Some(c)   => digs.push(c),
+                }
+            }
+            u32::from_str_radix(digs.as_str(), 16).ok()
+                .and_then(std::char::from_u32)
+                .expect("a unicode escape sequence")
+        }
+        // A quote or a backslash
+        Some(c) => c,
+        None => panic!("lex_escape: expected more characters"),
+    }
+}
+
 /// Parse a sequence of fields (appending to `fields`) until right
 /// balanced token `bal`.  Return fields and remaining tokens.
 fn parse_fields (mut toks:Vec<Tok>, mut fields:Vec<(Name, Val)>, bal:Tok) -> (Vec<(Name, Val)>, Vec<Tok>) {
@@ -258,7 +281,11 @@ fn name_of_val ( n:&Val ) -> Name {
                 })
             }
             else if *cons_name == name_of_str("Isize") {
-                panic!("")
+                name_of_isize( match cons_args[0] {
+                    Val::Const( Const::Nat( n ) ) => n as isize,
+                    Val::Const( Const::Num( n ) ) => n,
+                    _ => panic!("expected a Nat or a Num"),
+                })
             }
             else if *cons_name == name_of_str("Pair") {
                 let n1 = name_of_val( & cons_args[0] );
@@ -278,6 +305,8 @@ fn name_of_val ( n:&Val ) -> Name {
             }        
         },
         Val::Name(ref n) => n.clone(),
+        // A structural identity; its `Debug` string is the hash alone.
+        Val::Const( Const::Nat( ref h ) ) => name_of_hash64( *h as u64 ),
         _ => panic!("expected a constructor for a NameSym")
     }
 }
@@ -309,7 +338,12 @@ fn name_option_of_val ( n:&Val ) -> Option<Name> {
                     }}
             }
             else if *cons_name == name_of_str("Isize") {
-                panic!("TODO")
+                if cons_args.len() < 1 { None } else {
+                    match cons_args[0] {
+                        Val::Const( Const::Nat( n ) ) => Some( name_of_isize( n as isize ) ),
+                        Val::Const( Const::Num( n ) ) => Some( name_of_isize( n ) ),
+                        _ => None,
+                    }}
             }
             else if *cons_name == name_of_str("Pair") {          
                 if cons_args.len() < 2 { None } else {
-- 
2.43.0


From d186c290fb153c82affacef46fddd5ffb05414a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 12/23] fix: trace_count skipped the effects within debug
 extents

---
 src/reflect.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/reflect.rs b/src/reflect.rs
index b7dc2b9..3a4575d 100644
--- a/src/reflect.rs
+++ b/src/reflect.rs
@@ -545,12 +545,11 @@ archivist:
         match role {
             Role::Editor =>
                 match tr.effect {
-                    Effect::Debug(_,_) |
-                    // Effect::UserEffect(_,_) => {
-                    //     for sub_tr in tr.extent.iter() { 
-                    //         trace_count_rec(Role::Editor, sub_tr, c);
-                    //     }                        
-                    // },
+                    Effect::Debug(_,_) => {
+                        for sub_tr in tr.extent.iter() { 
+                            trace_count_rec(role, sub_tr, c);
+                        }
+                    },
                     Effect::Dirty => trace_count_dirty(role, tr, c),
                     Effect::Remove => unreachable!(),
                     Effect::CleanEdge => unreachable!(),
@@ -579,12 +578,11 @@ archivist:
                 },
             Role::Archivist =>
                 match tr.effect {
-                    Effect::Debug(_,_) |
-                    // Effect::UserEffect(_,_) => {
-                    //     for sub_tr in tr.extent.iter() { 
-                    //         trace_count_rec(Role::Archivist, sub_tr, c);
-                    //     }                        
-                    // },
+                    Effect::Debug(_,_) => {
+                        for sub_tr in tr.extent.iter() { 
+                            trace_count_rec(role, sub_tr, c);
+                        }
+                    },
                     Effect::Dirty => trace_count_dirty(role, tr, c),
                     Effect::Remove => assert!(tr.extent.len() == 0),
                     Effect::CleanEdge => assert!(tr.extent.len() == 0),
-- 
2.43.0


From bad93447044cb1422e0f72981459cb00ecdf60ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 13/23] fix: re-allocating an unchanged structural cell is not
 a change

---
 src/engine.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/engine.rs b/src/engine.rs
index 67ffc66..045abc3 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1392,6 +1392,7 @@ fn check_cell_change<T:'static+Eq+Debug> (st:&mut DCG, cell:AbsArt<T,Loc>, val:&
         let node = res_node_of_loc::<T>( st, loc ) ;
         match **node {
             Node::Mut(ref mut nd) => { &nd.val != val }
+            Node::Pure(ref nd) => { &nd.val != val }
             _ => { /* the location was previously _not_ a cell, so yes */ true }
         }
     }
-- 
2.43.0


From 511df1d37ce2404f72bc9b7ff0cbe4561a1ec99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 14/23] fix: editing a cyclic computation no longer panics or
 recurses forever

---
 src/engine.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 045abc3..ce1499f 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -390,6 +390,8 @@ pub struct DCG {
     pub flags : Flags, // public because I dont want to write / design abstract accessors
     table : HashMap<Rc<Loc>, Box<dyn GraphNode>>,
     stack : Vec<Frame>,
+    // The nodes being cleaned: each may turn out to be up to date, or else may run again.
+    cleaning : Vec<Rc<Loc>>,
     path  : Rc<Path>,
     //cnt   : Cnt,
     dcg_count : usize,
@@ -1227,8 +1229,13 @@ impl <Res:'static+Sized+Debug+PartialEq+Eq+Clone+Hash>
     fn clean(self:&Self, g:&RefCell<DCG>, loc:&Rc<Loc>) -> DCGRes {
         let res_succs = { // Handle cases where there is no internal computation to re-compute:
             let st = &mut *g.borrow_mut();
+            let in_progress = is_in_progress(st, loc);
             let node : &mut Node<Res> = res_node_of_loc(st, loc) ;
             match *node {
+                // A cyclic observation; we cannot clean it on its own.
+                Node::Comp(_) if in_progress => {
+                    return DCGRes{changed:true}
+                },
                 Node::Comp(ref nd) => {
                     match nd.res {
                         Some(ref res) => Some((res.clone(), nd.succs.clone ())),
@@ -1244,7 +1251,12 @@ impl <Res:'static+Sized+Debug+PartialEq+Eq+Clone+Hash>
         } ;
         let none : Option<Loc> = None ;
         match res_succs {
-            Some((res,succs)) => clean_comp(g, self, loc, res, succs),
+            Some((res,succs)) => {
+                g.borrow_mut().cleaning.push(loc.clone());
+                let res = clean_comp(g, self, loc, res, succs);
+                g.borrow_mut().cleaning.pop();
+                res
+            },
             None => {
                 dcg_effect_begin!(
                     reflect::trace::Effect::CleanEval,
@@ -1297,6 +1309,14 @@ fn get_succ<'r>(st:&'r DCG, src_loc:&Rc<Loc>, eff:Effect, tgt_loc:&Rc<Loc>) -> &
     panic!("tgt_loc is dangling in src_node.dem_succs")
 }
 
+// True when the node at `loc` is running, or being cleaned. Demanding
+// its value now is a cyclic demand: in the latter case, each of its
+// earlier observations is unchanged, so it would demand the same again.
+fn is_in_progress(st:&DCG, loc:&Rc<Loc>) -> bool {
+    st.stack.iter().any(|frame| &frame.loc == loc)
+        || st.cleaning.iter().any(|cleaning_loc| cleaning_loc == loc)
+}
+
 // Implement "sharing" of the dirty bit.
 // The succ edge is returned as a mutable borrow, to permit checking
 // and mutating the dirty bit.
@@ -1351,7 +1371,6 @@ fn dirty_pred_observers(st:&mut DCG, loc:&Rc<Loc>) {
             match dirty_observe_succs(st, &pred_loc, &loc) {
                 None => true,
                 Some(succ) => {
-                    assert!(&pred_loc != loc);
                     dcg_effect_begin!(reflect::trace::Effect::Dirty, Some(&pred_loc), succ);
                     false
                 }}}
@@ -1531,6 +1550,7 @@ impl Adapton for DCG {
             },
             table : table,
             stack : stack,
+            cleaning : Vec::new(),
             path  : path,
             dcg_count : 0,
             dcg_hash : 0, // XXX This makes assumptions about hashing implementation
@@ -1991,13 +2011,7 @@ impl Adapton for DCG {
             AbsArt::Loc(ref loc) => {
                 let (is_comp, is_dup, is_cycle, cached_result) : (bool, bool, bool, Option<T>) = {
                     let st : &mut DCG = &mut *g.borrow_mut();
-                    let is_cycle = { let mut is_cycle = false;
-                                     for frame in st.stack.iter() {
-                                         if &frame.loc == loc {
-                                             is_cycle = true ; break
-                                         } else {  } }
-                                     is_cycle
-                    };
+                    let is_cycle = is_in_progress(st, loc);
                     let is_dup : bool = match st.stack.last_mut() { None => false, Some(frame) => {
                         let mut is_dup = false;
                         for &(ref succ, ref pred_dep) in frame.succs.iter() {
-- 
2.43.0


From 9bc5d4455eaf5ce379ab4f3090f581c6ed9cd2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:46 +0000
Subject: [PATCH 15/23] fix: effects within debug extents count for the
 re-evaluation around them

---
 src/reflect.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reflect.rs b/src/reflect.rs
index 3a4575d..e5edbd9 100644
--- a/src/reflect.rs
+++ b/src/reflect.rs
@@ -588,9 +588,11 @@ archivist:
                     Effect::CleanEdge => assert!(tr.extent.len() == 0),
                     Effect::CleanEval => {
                         let mut change = false;
-                        for subtr in tr.extent.iter() {
+                        let mut direct : Vec<&Trace> = tr.extent.iter().collect();
+                        while let Some(subtr) = direct.pop() {
                             match subtr.effect {
-                                Effect::Debug(_,_) |
+                                // The effects in a debug extent are as direct as those outside of it.
+                                Effect::Debug(_,_) => direct.extend(subtr.extent.iter()),
                                 //Effect::UserEffect(_,_) => unreachable!(),
                                 Effect::Remove => (),
                                 Effect::CleanEdge => (),
-- 
2.43.0


From dd3547874740637b57240cd43b7768f454a6b710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:18 +0000
Subject: [PATCH 16/23] fix: structural identity distinguishes contents of
 different types

---
 src/engine.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index ce1499f..d4e329b 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1597,7 +1597,8 @@ impl Adapton for DCG {
                 if ! self.flags.ignore_nominal_use_structural {
                     (Rc::new(ArtId::Nominal(nm)), false) // Ordinary case: Use provided name.
                 } else {
-                    let hash = my_hash (&val) ;
+                    // Values of different types may have the same hash.
+                    let hash = my_hash (&(TypeId::of::<T>(), &val)) ;
                     (Rc::new(ArtId::Structural(hash)), self.flags.use_purity_optimization) // Ignore the name; do hash-consing instead.
                 }
             };
@@ -1714,7 +1715,8 @@ impl Adapton for DCG {
             // Name the computation structurally, based on the args and prog point.
             NameChoice::Structural => {
                 wf::check_dcg(self);
-                let hash = my_hash (&(&prog_pt, &arg)) ;
+                // Arguments of different types may have the same hash.
+                let hash = my_hash (&(TypeId::of::<App<Arg,Spurious,Res>>(), &prog_pt, &arg)) ;
                 let loc = loc_of_id(current_path(self),
                                     Rc::new(ArtId::Structural(hash)));
                 {   // If the node exists, return early.
-- 
2.43.0


From d02ec7059316e5f9f2fcc1b87cb4e0bd028b1578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 17/23] fix: mergesort_list_of_tree2 names the thunks of a leaf
 and a merge differently

---
 src/catalog/collections.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index 71dad06..3294611 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -1000,7 +1000,9 @@ pub fn mergesort_list_of_tree2
      Rc::new(|_,|         L::nil()),
      Rc::new(|m,x|        list_name_op(m, L::singleton(x))),
      Rc::new(|_,    _, l, r| { list_merge_wrapper(None, l, None, r) }),
-     Rc::new(|_, n, _, l, r| { list_merge_wrapper(None, l, Some(n), r) }),
+     // The leaf to the right of `n` consumes `n`, so the merge uses another name.
+     Rc::new(|_, n, _, l, r| { let (n1,_) = name_fork(n);
+                               list_merge_wrapper(None, l, Some(n1), r) }),
      )
 }
 
-- 
2.43.0


From 745bf991e46b6452baad929c8f0f04a387e3230f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:33 +0000
Subject: [PATCH 18/23] fix: vec_of_list with limit zero takes nothing

---
 src/catalog/collections.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index 3294611..96b74e5 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -863,6 +863,7 @@ pub fn vec_of_list<X:Clone,L:ListElim<X>+'static>
   let mut out = vec![];
   let mut list = list ;
   loop {
+    match limit { Some(limit) if out.len() == limit => return out, _ => () } ;
     let (hd, rest) =
       L::elim_arg(
         list, (),
@@ -871,7 +872,6 @@ pub fn vec_of_list<X:Clone,L:ListElim<X>+'static>
         |n, rest, _| { (Some(NameElse::Name(n.clone())), Some(rest)) }
         ) ;
     match hd { Some(x) => out.push(x), _ => () } ;
-    match limit { Some(limit) if out.len() == limit => return out, _ => () } ;
     match rest { Some(rest) => { list = rest; continue }, None => return out }
   }
 }
-- 
2.43.0


From 191f63d75d91d4b3b5af08e3549e4915c34a4b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:37 +0000
Subject: [PATCH 19/23] fix: prune_tree_of_tree's cells no longer replace its
 own memo thunks

---
 src/catalog/collections.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index 96b74e5..fa26504 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -843,8 +843,8 @@ pub fn prune_tree_of_tree
     (tree,
      Rc::new(||          Ti::nil()),
      Rc::new(|x|         Ti::leaf(x)),
-     Rc::new(|lev,l,r|   bin_arts_niltest(None, lev, l, r)),
-     Rc::new(|n,lev,l,r| bin_arts_niltest(Some(n), lev, l, r))
+     Rc::new(|lev,l,r|   ns(name_unit(),|| bin_arts_niltest(None, lev, l, r))),
+     Rc::new(|n,lev,l,r| ns(name_unit(),|| bin_arts_niltest(Some(n), lev, l, r)))
      )
 }
 
-- 
2.43.0


From e97361068cf85cdd57c4f3a170ac67e6c6b87abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:23 +0000
Subject: [PATCH 20/23] fix: hash names by their symbols, so that different
 names of one content differ in structural identity too

---
 src/engine.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index d4e329b..bdf20e5 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2337,29 +2337,29 @@ pub fn name_of_hash64(h:u64) -> Name {
 
 /// Create a name from a `usize`
 pub fn name_of_usize (u:usize) -> Name {
-    let h = my_hash(&u) ;
     let s = NameSym::Usize(u) ;
+    let h = my_hash(&s) ;
     Name{ hash:h, symbol:Rc::new(s) }
 }
 
 /// Create a name from a `isize`
 pub fn name_of_isize (i:isize) -> Name {
-    let h = my_hash(&i) ;
     let s = NameSym::Isize(i) ;
+    let h = my_hash(&s) ;
     Name{ hash:h, symbol:Rc::new(s) }
 }
 
 /// Create a name from a `string`
 pub fn name_of_string (s:String) -> Name {
-    let h = my_hash(&s);
     let s = NameSym::String(s) ;
+    let h = my_hash(&s);
     Name{ hash:h, symbol:Rc::new(s) }
 }
 
 /// Create a name from a `str`
 pub fn name_of_str (s:&'static str) -> Name {
-    let h = my_hash(&s);
     let s = NameSym::String(s.to_string()) ;
+    let h = my_hash(&s);
     Name{ hash:h, symbol:Rc::new(s) }
 }
 
-- 
2.43.0


From 51ad76639de7656443404c95e81c1794ce9d6dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:39 +0000
Subject: [PATCH 21/23] fix: hash naive thunks with the types of their
 arguments, as their equality has it

---
 src/engine.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/engine.rs b/src/engine.rs
index bdf20e5..263c202 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2267,6 +2267,8 @@ impl<A:Hash+Clone+Eq+Debug+'static,S:Clone+'static,T:'static>
         let mut hasher = DefaultHasher::new();
         self.id.hash( &mut hasher );
         self.prog_pt.hash( &mut hasher );
+        // Arguments of different types may have the same hash.
+        self.thunk_typeid().hash( &mut hasher );
         self.arg.hash( &mut hasher );
         hasher.finish()
     }
-- 
2.43.0


From 56e6111b26aa2320cdd0b5bc60387899a0d778f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:16 +0000
Subject: [PATCH 22/23] fix: the well-formedness check ends on cyclic graphs

With ADAPTON_CHECK_DCG, wf::dirty and wf::clean followed a cycle of the
graph until the stack overflowed, and took the nodes in st.cleaning, whose
dirty edges are being processed, for dirty ones.
---
 src/engine.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/engine.rs b/src/engine.rs
index 263c202..993a7b6 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2738,6 +2738,10 @@ mod wf {
 
     // Constrains loc and all predecessors (transitive) to be dirty
     fn dirty (st:&DCG, cs:&mut Cs, loc:&Rc<Loc>) {
+        // A node that is being cleaned still has dirty edges, but a thunk that
+        // demanded it cyclically meanwhile has a clean edge to it.
+        if st.cleaning.contains(loc) { return } ;
+        if cs.get(loc) == Some(&NodeStatus::Dirty) { return } ; // Been here, perhaps through a cycle.
         add_constraint(cs, loc, NodeStatus::Dirty) ;
         let node = match st.table.get(loc) { Some(x) => x, None => panic!("") } ;
         for (pred,_) in node.preds_obs () {
@@ -2754,6 +2758,7 @@ mod wf {
 
     // Constrains loc and all successors (transitive) to be clean
     fn clean (st:&DCG, cs:&mut Cs, loc:&Rc<Loc>) {
+        if cs.get(loc) == Some(&NodeStatus::Clean) { return } ; // Been here, perhaps through a cycle.
         add_constraint(cs, loc, NodeStatus::Clean) ;
         let node = match st.table.get(loc) {
             Some(x) => x,
-- 
2.43.0


From c76e54ccec719928fff9c2772dfae0d9c3e28d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:39 +0000
Subject: [PATCH 23/23] fix: graph dumps are readable, and written whenever the
 graph changes

With ADAPTON_WRITE_DCG, the quotes within locations' names ended the node
identifiers of the DOT files early, and no file was written for changes of
edges, dirtiness or the stack, since the hash that decides about it left
these out.
---
 src/engine.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 993a7b6..671d429 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2774,7 +2774,9 @@ mod wf {
 
     pub fn check_dcg (st:&mut DCG) {
         if st.flags.write_dcg {
-            let dcg_hash = my_hash(format!("{:?}",st.table)); // XXX: This assumes that the table's debugging string identifies it uniquely
+            // The debugging strings of the stack, the nodes and the edges identify the graph; that of a node leaves out its edges.
+            let nodes = st.table.iter().map(|(loc, node)| (loc, node, if node.succs_def() { Some(node.succs()) } else { None }));
+            let dcg_hash = my_hash(format!("{:?}{:?}", st.stack, nodes.collect::<Vec<_>>()));
             if dcg_hash != st.dcg_hash {
                 println!("adapton: dcg #{} hash: {:?}", st.dcg_count, dcg_hash);
                 st.dcg_hash = dcg_hash;
@@ -2809,29 +2811,31 @@ mod wf {
 
     pub fn write_dcg_file (st:&DCG, file:&mut File) {
         let mut writer = BufWriter::new(file);
+        // Locations' debugging strings have quotes of their own, to be escaped within those of DOT.
+        let id = |loc:&Rc<Loc>| format!("{:?}", format!("{:?}", loc)) ;
         writeln!(&mut writer, "digraph {{\n").unwrap();
         writeln!(&mut writer, "ordering=out;").unwrap();
         for frame in st.stack.iter() {
-            writeln!(&mut writer, "\"{:?}\" [color=blue,penwidth=10];", frame.loc).unwrap();
+            writeln!(&mut writer, "{} [color=blue,penwidth=10];", id(&frame.loc)).unwrap();
             for succ in frame.succs.iter() {
-                writeln!(&mut writer, "\"{:?}\" -> \"{:?}\" [color=blue,weight=10,penwidth=10];", &frame.loc, &succ.0.loc).unwrap();
+                writeln!(&mut writer, "{} -> {} [color=blue,weight=10,penwidth=10];", id(&frame.loc), id(&succ.0.loc)).unwrap();
             }
         };
         for (loc, node) in &st.table {
             if ! node.succs_def () {
-                writeln!(&mut writer, "\"{:?}\" [shape=box];", loc).unwrap();
+                writeln!(&mut writer, "{} [shape=box];", id(loc)).unwrap();
                 continue;
             } ;
             for succ in node.succs () {
                 if succ.dirty {
-                    writeln!(&mut writer, "\"{:?}\" -> \"{:?}\" [color=red,weight=5,penwidth=5];", &loc, &succ.loc).unwrap();
+                    writeln!(&mut writer, "{} -> {} [color=red,weight=5,penwidth=5];", id(loc), id(&succ.loc)).unwrap();
                 } else {
                     let (weight, penwidth, color) =
                         match succ.effect {
                             super::Effect::Observe => (0.1, 1, "grey"),
                             super::Effect::Allocate => (2.0, 3, "darkgreen") } ;
-                    writeln!(&mut writer, "\"{:?}\" -> \"{:?}\" [weight={},penwidth={},color={}];",
-                             &loc, &succ.loc, weight, penwidth, color).unwrap();
+                    writeln!(&mut writer, "{} -> {} [weight={},penwidth={},color={}];",
+                             id(loc), id(&succ.loc), weight, penwidth, color).unwrap();
                 }
             }
         }
-- 
2.43.0

