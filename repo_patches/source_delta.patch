From db1cbe85c5dd5662e5351346eb1dfcecb61bcb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 01/19] fix: dirty the observers of a cell that was observed
 through force_abs

The dirtying phase skipped every abstract-map edge, so a thunk that used
force_abs kept its stale result after the cell changed.  An abstract-map edge
cannot be checked here, so it is always treated as changed.
---
 src/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 6e4ce1f..139604e 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1308,7 +1308,7 @@ fn dirty_pred_observers(st:&mut DCG, loc:&Rc<Loc>) {
     for (pred_loc, dep) in pred_locs {
         let stop : bool = match dep {
             None => false,
-            Some(dep) => dep.is_absmap() != None || dep.dirty(st, loc).changed == false
+            Some(dep) => dep.is_absmap() == None && dep.dirty(st, loc).changed == false
         };
         let stop : bool = if stop { true } else {
             // The stop bit communicates information from st for use below.
-- 
2.43.0


From 652351bdffd2b300619c103812acfcb8a33222ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 02/19] fix: record a full observation after a mapped
 observation of the same cell

force took an earlier force_map/force_abs edge to the same cell for a duplicate
of the full observation, and recorded nothing.  A later change that the mapping
hides then left the observer with a stale result.
---
 src/engine.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 139604e..fda65c1 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1964,8 +1964,8 @@ impl Adapton for DCG {
                     };
                     let is_dup : bool = match st.stack.last_mut() { None => false, Some(frame) => {
                         let mut is_dup = false;
-                        for &(ref succ, ref _pred_dep) in frame.succs.iter() {
-                            if &succ.loc == loc && succ.effect == Effect::Observe
+                        for &(ref succ, ref pred_dep) in frame.succs.iter() {
+                            if &succ.loc == loc && succ.effect == Effect::Observe && pred_dep.is_none()
                             { is_dup = true }
                         };
                         is_dup
-- 
2.43.0


From a3ecc8e7ad295974dbe1f8ec9e4d1a31ba9a8eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 03/19] fix: clean every edge that shares a dirty bit, not just
 the first one

Two force_map observations of one cell by one thunk share a dirty bit.  Cleaning
cleared it after checking only the first edge, so a change that only the second
one sees was lost.
---
 src/engine.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index fda65c1..da1defd 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1003,9 +1003,10 @@ fn clean_comp<Res:'static+Sized+Debug+PartialEq+Clone+Eq+Hash>
         } ;
         if dirty {
             dcg_effect_begin!(reflect::trace::Effect::CleanRec, Some(loc), succ);
-            let succ_dep = & succ.dep ;
-            let res = succ_dep.clean(g, &succ.loc) ;
-            if res.changed {
+            // The dirty bit is shared by all of the edges with this effect and target: check each of them.
+            let changed = succs.iter().any(
+                |s| s.effect == succ.effect && s.loc == succ.loc && s.dep.clean(g, &s.loc).changed) ;
+            if changed {
                 dcg_effect_begin!(reflect::trace::Effect::CleanEval, Some(loc), succ);
                 let result : Res = loc_produce( g, loc ) ;
                 dcg_effect_end!();
-- 
2.43.0


From d9fac5e49edc6ac7c2bd154a96caa6ba47a8d8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 04/19] fix: overwrite a thunk's location when a cell is
 allocated there

cell() left the thunk's node in place when the name had identified a thunk before,
and so the new cell's value was lost.
---
 src/engine.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index da1defd..6243c0f 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1548,14 +1548,14 @@ impl Adapton for DCG {
             let hash = my_hash(&(&path,&id));
             let loc  = Rc::new(Loc{path:path,id:id,hash:hash})
                 ;
-            let (do_dirty, do_set, succs, do_insert, is_fresh) =
+            let (do_dirty, do_set, succs, do_insert, is_fresh, preds) =
                 if self.table.contains_key(&loc) {
                     let node : &Box<Node<T>> = res_node_of_loc(self, &loc) ;
                     match **node {
-                        Node::Mut(_)       => { (false, true,  None, false, false) }
-                        Node::Comp(ref nd) => { (true,  false, Some(nd.succs.clone()),  false, false ) }
-                        Node::Pure(_)      => { (false, false, None, false, false) }
-                    }} else                 { (false, false, None, true, true ) }
+                        Node::Mut(_)       => { (false, true,  None, false, false, Vec::new()) }
+                        Node::Comp(ref nd) => { (true,  false, Some(nd.succs.clone()),  true, false, nd.preds.clone()) }
+                        Node::Pure(_)      => { (false, false, None, false, false, Vec::new()) }
+                    }} else                 { (false, false, None, true, true, Vec::new()) }
             ;
             // - - - - - - - - - -
             // Begin an allocation.  Because this allocation may require
@@ -1599,7 +1599,7 @@ impl Adapton for DCG {
             if do_insert {
                 let node = if is_pure { Node::Pure(PureNode{val:val.clone()}) } else {
                     Node::Mut(MutNode{
-                        preds:Vec::new(),
+                        preds:preds,
                         val:val.clone(),
                     })} ;
                 self.table.insert(loc.clone(), Box::new(node));
-- 
2.43.0


From eed3f8a7959fafb98d0a11684f7676b34a457a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 05/19] fix: keep a cell's observers when a thunk is allocated
 at its location

thunk() dropped the predecessor edges of the cell that it replaced.  An observer
that is cleaned without re-running never saw later changes of the new thunk.
---
 src/engine.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 6243c0f..8f90dde 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1708,6 +1708,7 @@ impl Adapton for DCG {
                     }
                 ;
                 let top_loc = get_top_stack_loc( self );
+                let mut preds : Vec<Pred> = Vec::new();
                 let (do_dirty, do_insert, is_fresh) = { match self.table.get_mut( &loc ) {
                     None => {
                         // do_dirty=false; do_insert=true
@@ -1719,8 +1720,9 @@ impl Adapton for DCG {
                         let res_nd: &mut Box<Node<Res>> = unsafe { transmute::<_,_>( node ) } ;
                         match ** res_nd {
                             Node::Pure(_)=> unreachable!(),
-                            Node::Mut(_) => {
-                                (true, true, false) // Todo: Do we need to preserve preds?
+                            Node::Mut(ref nd) => {
+                                preds = nd.preds.clone();
+                                (true, true, false)
                             },
                             Node::Comp(ref mut comp_nd) => {
                                 let equal_producer_prog_pts : bool =
@@ -1795,7 +1797,7 @@ impl Adapton for DCG {
                 }};
                 if do_insert {
                     let node : CompNode<Res> = CompNode{
-                        preds:Vec::new(),
+                        preds:preds,
                         succs:Vec::new(),
                         producer:Box::new(producer),
                         res:None,
-- 
2.43.0


From 0ad3d4d7ab0554a117ff66df6558bf7c645c1dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 06/19] fix: clean a force_map edge whose cell was replaced by
 a thunk

Cleaning such an edge hit unreachable!().
---
 src/engine.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 8f90dde..7afec44 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1175,8 +1175,9 @@ fn check_force_map_dep
                    (&Art{art:EnumArt::Loc(loc.clone())},
                     nd.val.clone())},
 
+        // The location was a cell when it was observed, and is not one now.
         Node::Comp(_) | Node::Pure(_) =>
-            unreachable!()
+            DCGRes{changed:true}
     }
 }
 
-- 
2.43.0


From d99b6a2e0aefe8d549f077829741d5462eebf402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 07/19] fix: do not take a structural thunk for pure before it
 has run

Its successor edges are unknown (and hence empty) until then, so the first
force recorded no observation and the observer missed later changes.
---
 src/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 7afec44..a90cd97 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1980,7 +1980,7 @@ impl Adapton for DCG {
                         Node::Mut(ref mut nd)  => (false, is_dup, false, false, Some(nd.val.clone())),
                         Node::Comp(ref mut nd) => {
                             let is_pure = match *loc.id {
-                                ArtId::Structural(_) => nd.succs.len() == 0 && is_pure_opt,
+                                ArtId::Structural(_) => nd.res.is_some() && nd.succs.len() == 0 && is_pure_opt,
                                 ArtId::Nominal(_)    => false } ;
                             if is_cycle {
                                 // Cycle detected; check cycle_out to see if the caller expected this
-- 
2.43.0


From d0a04aa76e30b86fb77d3b2ff5d90cb1032a4421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 08/19] fix: allocate eager and naive thunks under the DCG
 engine

Both name choices are documented, and memo!([None]? ..) uses the first one.  The
eager one aborted (and ran the function while the DCG was mutably borrowed), and
the naive one was unimplemented!().
---
 src/engine.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index a90cd97..ab374d8 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2437,8 +2437,15 @@ pub fn thunk<Arg:Hash+Eq+Debug+Clone+'static,Spurious:Clone+'static,Res:Hash+Eq+
 {
     GLOBALS.with(|g| {
         match g.borrow().engine {
-            Engine::DCG(ref dcg) => {
-                Art{art:EnumArt::Loc({
+            Engine::DCG(ref dcg) => match id {
+                // Neither of these involves the DCG; the eager case runs the function now.
+                NameChoice::Eager => Art{art:EnumArt::Rc(Rc::new(fn_box(arg, spurious)))},
+                NameChoice::Naive => Art{art:EnumArt::Force(
+                    Rc::new(NaiveThunk{
+                        id:id,prog_pt:prog_pt,
+                        fn_box:fn_box,arg:arg,
+                        spurious:spurious} ))},
+                id => Art{art:EnumArt::Loc({
                     if let AbsArt::Loc(loc) =
                         (dcg.borrow_mut()).thunk(id, prog_pt, fn_box, arg, spurious)
                     { loc } else { unreachable!() }})}
-- 
2.43.0


From 35ef555e0a28ce595a2f0d498c5357b5b49b2e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 09/19] fix: give thunk![[name] body] a program point that
 identifies its body

The macro arm stringified a variable that it does not bind, so all of these
thunks shared the program point "$fun".
---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index 8fda541..83c0d92 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -413,7 +413,7 @@ macro_rules! thunk {
   [ [ $name:ident ] $body:expr ] => {{
       thunk(
           NameChoice::Nominal(name_of_str(stringify!($name))),
-          prog_pt!(stringify!($fun)),
+          prog_pt!(stringify!($body)),
           Rc::new(Box::new( move |(),()| { $body } )),
           () ,
           () )
-- 
2.43.0


From b826d96a5efacb5022d6b4015aa99d182de460b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 10/19] fix: check the hidden argument types before downcasting
 a thunk's producer

The unsafe downcasts relied on the program point, which is only the text of the
function expression.  Two thunks with the same name and function text, but with
different argument types, read one type's memory as the other.
---
 src/engine.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index ab374d8..e001925 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -709,6 +709,8 @@ trait Producer<Res> : Debug {
     fn copy(self:&Self) -> Box<dyn Producer<Res>>;
     fn eq(self:&Self, other:&dyn Producer<Res>) -> bool;
     fn prog_pt<'r>(self:&'r Self) -> &'r ProgPt;
+    /// Identifies the concrete type that implements this producer
+    fn producer_typeid(self:&Self) -> TypeId;
 }
 // Consume a value of type Arg.
 trait Consumer<Arg> : Debug {
@@ -760,12 +762,11 @@ impl<Arg:'static+PartialEq+Eq+Clone+Debug,Spurious:'static+Clone,Res:'static+Deb
     fn prog_pt<'r>(self:&'r Self) -> &'r ProgPt {
         & self.prog_pt
     }
+    fn producer_typeid(self:&Self) -> TypeId { TypeId::of::<Self>() }
     fn eq (&self, other:&dyn Producer<Res>) -> bool {
-        if &self.prog_pt == other.prog_pt() {
-            let other = Box::new(other) ;
-            // This is safe if the prog_pt implies unique Arg and Res types.
-            // TODO-Soon: Program points should store argument + result types; we should check these dynamically here
-            let other : &Box<App<Arg,Spurious,Res>> = unsafe { transmute::<_,_>( other ) } ;
+        if &self.prog_pt == other.prog_pt() && other.producer_typeid() == TypeId::of::<Self>() {
+            // This is safe: the type ids are equal
+            let other : &App<Arg,Spurious,Res> = unsafe { &*(other as *const dyn Producer<Res> as *const App<Arg,Spurious,Res>) } ;
             self.arg == other.arg
         } else {
             false
@@ -1727,10 +1728,10 @@ impl Adapton for DCG {
                             },
                             Node::Comp(ref mut comp_nd) => {
                                 let equal_producer_prog_pts : bool =
-                                    comp_nd.producer.prog_pt().eq( producer.prog_pt() ) ;
+                                    comp_nd.producer.prog_pt().eq( producer.prog_pt() )
+                                    && comp_nd.producer.producer_typeid() == TypeId::of::<App<Arg,Spurious,Res>>() ;
                                 if equal_producer_prog_pts { // => safe cast to Box<Consumer<Arg>>
                                     let app: &mut Box<App<Arg,Spurious,Res>> =
-                                    // TODO-Soon: Follow pattern above for assert_graphnode_res_type to dynamically check the safety of this cast
                                         unsafe { transmute::<_,_>( &mut comp_nd.producer ) }
                                     ;
                                     if app.get_arg() == arg {
@@ -2165,6 +2166,8 @@ trait Force<T> {
     fn eq(self:&Self, other:&dyn Force<T>) -> bool;
     fn id<'r>(self:&'r Self) -> &'r NameChoice;
     fn prog_pt<'r>(self:&'r Self) -> &'r ProgPt;
+    /// Identifies the concrete type that implements this trait
+    fn force_typeid(self:&Self) -> TypeId;
     fn hash_u64(self:&Self) -> u64;
     fn fmt(&self, f:&mut Formatter) -> fmt::Result;
 }
@@ -2198,6 +2201,7 @@ impl<A:Hash+Clone+Eq+Debug+'static,S:Clone+'static,T:'static>
     fn id<'r>(self:&'r Self) -> &'r NameChoice {
         & self.id
     }
+    fn force_typeid(self:&Self) -> TypeId { TypeId::of::<Self>() }
     fn hash_u64(&self) -> u64 {
         let mut hasher = DefaultHasher::new();
         self.id.hash( &mut hasher );
@@ -2208,11 +2212,10 @@ impl<A:Hash+Clone+Eq+Debug+'static,S:Clone+'static,T:'static>
     fn eq (&self, other:&dyn Force<T>) -> bool {
         if   &self.id      == other.id()
             && &self.prog_pt == other.prog_pt()
+            && other.force_typeid() == TypeId::of::<Self>()
         {
-            let other = Box::new(other) ;
-            // This is safe if the prog_pt implies unique Arg and Res types.
-            // TODO-Soon: Program points should store argument + result types; we should check these dynamically here
-            let other : &Box<NaiveThunk<A,S,T>> = unsafe { transmute::<_,_>( other ) } ;
+            // This is safe: the type ids are equal
+            let other : &NaiveThunk<A,S,T> = unsafe { &*(other as *const dyn Force<T> as *const NaiveThunk<A,S,T>) } ;
             self.arg == other.arg
         } else {
             false
-- 
2.43.0


From 7d95e414ca831a570f3966b39494377c5b84f2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 11/19] fix: distinguish the articulations that thunk_map
 creates

All of them compared equal, whatever they mapped, and so a thunk whose argument
changed from one to another wrongly kept its cached result.
---
 src/engine.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index e001925..367cd95 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2476,12 +2476,13 @@ pub fn thunk_map<Res1:Hash+Eq+Debug+Clone+'static,
         Rc::new(NaiveThunk{
             id:NameChoice::Naive,
             prog_pt:ProgPt{symbol:"engine::thunk_map"},
+            // The identity of this art: the thunk that it maps, and the mapping function's address.
+            arg:(thunk.clone(), Rc::as_ptr(&map_fn) as *const () as usize),
             fn_box:{Rc::new(Box::new(move |_,_| {
                 let res1 = force(&thunk);
                 let res2 = map_fn(res1);
                 res2
             }))},
-            arg:(),
             spurious:()
         }))
     }
-- 
2.43.0


From 8afd8ba4219ecbd8902b4a348f7f50be19c92817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 12/19] fix: count the effects inside the debugging extents of
 a trace

trace_count took a debugging extent for a dirtying effect, and ignored the
allocations, forces and cleaning effects inside it.
---
 src/reflect.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/reflect.rs b/src/reflect.rs
index b7dc2b9..8c86e84 100644
--- a/src/reflect.rs
+++ b/src/reflect.rs
@@ -545,12 +545,11 @@ archivist:
         match role {
             Role::Editor =>
                 match tr.effect {
-                    Effect::Debug(_,_) |
-                    // Effect::UserEffect(_,_) => {
-                    //     for sub_tr in tr.extent.iter() { 
-                    //         trace_count_rec(Role::Editor, sub_tr, c);
-                    //     }                        
-                    // },
+                    Effect::Debug(_,_) => {
+                        for sub_tr in tr.extent.iter() { 
+                            trace_count_rec(Role::Editor, sub_tr, c);
+                        }                        
+                    },
                     Effect::Dirty => trace_count_dirty(role, tr, c),
                     Effect::Remove => unreachable!(),
                     Effect::CleanEdge => unreachable!(),
@@ -579,12 +578,11 @@ archivist:
                 },
             Role::Archivist =>
                 match tr.effect {
-                    Effect::Debug(_,_) |
-                    // Effect::UserEffect(_,_) => {
-                    //     for sub_tr in tr.extent.iter() { 
-                    //         trace_count_rec(Role::Archivist, sub_tr, c);
-                    //     }                        
-                    // },
+                    Effect::Debug(_,_) => {
+                        for sub_tr in tr.extent.iter() { 
+                            trace_count_rec(Role::Archivist, sub_tr, c);
+                        }                        
+                    },
                     Effect::Dirty => trace_count_dirty(role, tr, c),
                     Effect::Remove => assert!(tr.extent.len() == 0),
                     Effect::CleanEdge => assert!(tr.extent.len() == 0),
-- 
2.43.0


From e460101dac9a36d8f2fa0408a5aead5f30b06a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 13/19] fix: reflect names that are built from an isize

Reflecting a value that contains such a name aborted.
---
 src/parse_val.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parse_val.rs b/src/parse_val.rs
index 9b0b7a5..eba4713 100644
--- a/src/parse_val.rs
+++ b/src/parse_val.rs
@@ -258,7 +258,12 @@ fn name_of_val ( n:&Val ) -> Name {
                 })
             }
             else if *cons_name == name_of_str("Isize") {
-                panic!("")
+                match cons_args[0] {
+                    Val::Const( Const::Num( n ) ) => name_of_isize( n ),
+                    // A non-negative number has no sign when it is printed:
+                    Val::Const( Const::Nat( n ) ) => name_of_isize( n as isize ),
+                    _ => panic!("expected a Num"),
+                }
             }
             else if *cons_name == name_of_str("Pair") {
                 let n1 = name_of_val( & cons_args[0] );
@@ -309,7 +314,12 @@ fn name_option_of_val ( n:&Val ) -> Option<Name> {
                     }}
             }
             else if *cons_name == name_of_str("Isize") {
-                panic!("TODO")
+                if cons_args.len() < 1 { None } else {
+                    match cons_args[0] {
+                        Val::Const( Const::Num( n ) ) => Some( name_of_isize( n ) ),
+                        Val::Const( Const::Nat( n ) ) => Some( name_of_isize( n as isize ) ),
+                        _ => None,
+                    }}
             }
             else if *cons_name == name_of_str("Pair") {          
                 if cons_args.len() < 2 { None } else {
-- 
2.43.0


From 46bbf522d117fb2bcc0a173b3b30531221149e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 14/19] fix: reflect articulations with a structural identity

Reflecting a value that contains such an articulation aborted.
---
 src/parse_val.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse_val.rs b/src/parse_val.rs
index eba4713..31e2590 100644
--- a/src/parse_val.rs
+++ b/src/parse_val.rs
@@ -283,6 +283,8 @@ fn name_of_val ( n:&Val ) -> Name {
             }        
         },
         Val::Name(ref n) => n.clone(),
+        // The identity of a structural location is printed as a hash
+        Val::Const( Const::Nat( h ) ) => name_of_hash64( h as u64 ),
         _ => panic!("expected a constructor for a NameSym")
     }
 }
-- 
2.43.0


From c110521d42e52d28057cf18ecffa9d5690ff1459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 15/19] fix: list_gen generates the elements of the list

The range was empty (and underflowed for len=0), so every list was empty.
---
 src/catalog/collections.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index d0eef85..4760e80 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -63,7 +63,7 @@ pub fn list_gen<X:'static,G,L:ListIntro<X>>
   (len:usize, gen_elm:G) -> L
   where G:Fn(usize) -> X {
     let mut out : L = L::nil();
-    for i in len-1..0 {
+    for i in (0..len).rev() {
       let x = gen_elm(i);
       let nm = name_of_usize(i);
       out = L::art(cell(nm.clone(), out));
-- 
2.43.0


From 5edeb9426607749fb302915bad6f2afb30946092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 16/19] fix: ListElim::is_name tests for a name, not for a cons
 cell

---
 src/catalog/collections.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index 4760e80..71dad06 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -110,8 +110,8 @@ pub trait ListElim<X> : Debug+Clone+Hash+PartialEq+Eq {
   fn is_name (list:&Self) -> bool {
     Self::elim(list,
                |_|   false,
-               |_,_| true,
-               |_,_| false)
+               |_,_| false,
+               |_,_| true)
   }
 }
 
-- 
2.43.0


From 1884699f4761a7d824e52cd78c9a987707e80700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:37 +0000
Subject: [PATCH 17/19] fix: overwrite a cell with a thunk before dirtying the
 cell's observers

force_map observers compare the mapped value with the location's content when
they are dirtied; they saw the old cell and were left clean.
---
 src/engine.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 367cd95..e312192 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1786,6 +1786,16 @@ impl Adapton for DCG {
                         dirty:false,
                         is_dup:false, // XXX -- Actually: Not checked here.
                     });
+                // Overwrite a cell before dirtying its observers: they may compare what they observed with its value.
+                if do_insert {
+                    let node : CompNode<Res> = CompNode{
+                        preds:preds,
+                        succs:Vec::new(),
+                        producer:Box::new(producer),
+                        res:None,
+                    } ;
+                    self.table.insert(loc.clone(), Box::new(Node::Comp(node)));
+                } ;
                 if do_dirty {dirty_alloc(self, &loc) };
                 dcg_effect_end!();
 
@@ -1797,21 +1807,8 @@ impl Adapton for DCG {
                              dirty:false};
                     frame.succs.push((succ, None))
                 }};
-                if do_insert {
-                    let node : CompNode<Res> = CompNode{
-                        preds:preds,
-                        succs:Vec::new(),
-                        producer:Box::new(producer),
-                        res:None,
-                    } ;
-                    self.table.insert(loc.clone(), Box::new(Node::Comp(node)));
-                    wf::check_dcg(self);
-                    AbsArt::Loc(loc)
-                }
-                else {
-                    wf::check_dcg(self);
-                    AbsArt::Loc(loc)
-                }
+                wf::check_dcg(self);
+                AbsArt::Loc(loc)
             }
         }
     }
-- 
2.43.0


From 1370092523401a474fddc5931c78c30621661874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:24 +0000
Subject: [PATCH 18/19] fix: prune_tree_of_tree allocates its cells over the
 fold's own thunks

The cells for the subtrees of a named node have the names that
tree_fold_up's thunks have for the same node, so each cell replaced the
thunk, and its dependencies were lost: an edit below was not noticed.
Allocate them in a namespace, as filter_tree_of_tree does.
---
 src/catalog/collections.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index 71dad06..93d59f9 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -843,8 +843,8 @@ pub fn prune_tree_of_tree
     (tree,
      Rc::new(||          Ti::nil()),
      Rc::new(|x|         Ti::leaf(x)),
-     Rc::new(|lev,l,r|   bin_arts_niltest(None, lev, l, r)),
-     Rc::new(|n,lev,l,r| bin_arts_niltest(Some(n), lev, l, r))
+     Rc::new(|lev,l,r|   ns(name_unit(),|| bin_arts_niltest(None, lev, l, r))),
+     Rc::new(|n,lev,l,r| ns(name_unit(),|| bin_arts_niltest(Some(n), lev, l, r)))
      )
 }
 
-- 
2.43.0


From a54f7233b60de7a10a15a50e0f94993e2e69162d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:42 +0000
Subject: [PATCH 19/19] fix: vec_of_list with a limit of zero returns no
 elements

---
 src/catalog/collections.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index 93d59f9..2ce5587 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -863,6 +863,7 @@ pub fn vec_of_list<X:Clone,L:ListElim<X>+'static>
   let mut out = vec![];
   let mut list = list ;
   loop {
+    match limit { Some(limit) if out.len() == limit => return out, _ => () } ;
     let (hd, rest) =
       L::elim_arg(
         list, (),
@@ -871,7 +872,6 @@ pub fn vec_of_list<X:Clone,L:ListElim<X>+'static>
         |n, rest, _| { (Some(NameElse::Name(n.clone())), Some(rest)) }
         ) ;
     match hd { Some(x) => out.push(x), _ => () } ;
-    match limit { Some(limit) if out.len() == limit => return out, _ => () } ;
     match rest { Some(rest) => { list = rest; continue }, None => return out }
   }
 }
-- 
2.43.0

