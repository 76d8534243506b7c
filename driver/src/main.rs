// mirfacts: a rustc driver (RUSTC_WORKSPACE_WRAPPER) that compiles a crate as
// usual and writes the facts that /verif's rules are decided on: the MIR of
// every function and closure with resolved callees, named projections,
// types, and the ADT / impl tables.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn esc(o: &mut String, x: &str) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(x) => esc(o, x),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']')
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(o, k);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    tyj: Vec<J>,
    adts: BTreeMap<String, J>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn key(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn span(&self, sp: Span) -> (J, J) {
        let mut macros = vec![];
        for e in sp.macro_backtrace() {
            if let rustc_span::hygiene::ExpnKind::Macro(_, name) = e.kind {
                macros.push(s(name.to_string()));
            }
        }
        let root = sp.source_callsite();
        let line = self.tcx.sess.source_map().lookup_char_pos(root.lo()).line;
        (J::I(line as i128), J::A(macros))
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let p = self.path(def.did());
        if self.adts.contains_key(&p) {
            return;
        }
        self.adts.insert(p.clone(), J::Null);
        let tcx = self.tcx;
        let mut vs = vec![];
        let discrs: Vec<(rustc_abi::VariantIdx, i128)> = if def.is_enum() {
            def.discriminants(tcx).map(|(i, d)| (i, d.val as i128)).collect()
        } else {
            vec![]
        };
        for (i, v) in def.variants().iter_enumerated() {
            let dv = discrs.iter().find(|(j, _)| *j == i).map(|x| x.1).unwrap_or(0);
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let ti = self.ty(t);
                fs.push(J::A(vec![s(f.name.to_string()), J::I(ti as i128)]));
            }
            vs.push(J::O(vec![
                ("name", s(v.name.to_string())),
                ("discr", J::I(dv)),
                ("fields", J::A(fs)),
            ]));
        }
        let j = J::O(vec![
            ("local", J::B(def.did().is_local())),
            ("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("variants", J::A(vs)),
        ]);
        self.adts.insert(p, j);
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.tyj.len();
        self.tys.insert(t, i);
        self.tyj.push(J::Null);
        let st = ty::print::with_no_trimmed_paths!(format!("{}", t));
        let mut args: Vec<J> = vec![];
        let mut def = J::Null;
        let k = match t.kind() {
            ty::Adt(d, ga) => {
                def = s(self.path(d.did()));
                for a in ga.iter() {
                    if let Some(t) = a.as_type() {
                        let x = self.ty(t);
                        args.push(J::I(x as i128));
                    }
                }
                if d.did().is_local() || d.is_enum() {
                    self.adt(*d);
                }
                "adt"
            }
            ty::Ref(_, t, m) => {
                let x = self.ty(*t);
                args.push(J::I(x as i128));
                if m.is_mut() { "refmut" } else { "ref" }
            }
            ty::RawPtr(t, _) => {
                let x = self.ty(*t);
                args.push(J::I(x as i128));
                "ptr"
            }
            ty::Tuple(ts) => {
                for t in ts.iter() {
                    let x = self.ty(t);
                    args.push(J::I(x as i128));
                }
                "tuple"
            }
            ty::Closure(d, _) => {
                def = s(self.key(*d));
                "closure"
            }
            ty::FnDef(d, _) => {
                def = s(self.key(*d));
                "fndef"
            }
            ty::Param(_) => "param",
            ty::Dynamic(..) => "dyn",
            ty::FnPtr(..) => "fnptr",
            ty::Slice(t) | ty::Array(t, _) => {
                let x = self.ty(*t);
                args.push(J::I(x as i128));
                "slice"
            }
            ty::Never => "never",
            ty::Bool => "bool",
            ty::Alias(..) => "alias",
            _ => "prim",
        };
        self.tyj[i] = J::O(vec![("s", s(st)), ("k", s(k)), ("d", def), ("a", J::A(args))]);
        i
    }
    fn place(&mut self, b: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut out = vec![];
        for (base, el) in p.iter_projections() {
            let bt = base.ty(&b.local_decls, tcx);
            let j = match el {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, _) => {
                    let mut name = format!("{}", f.index());
                    let mut owner = String::new();
                    match bt.ty.kind() {
                        ty::Adt(d, _) => {
                            owner = self.path(d.did());
                            let v = match bt.variant_index {
                                Some(v) => Some(v),
                                None if !d.is_enum() => Some(rustc_abi::FIRST_VARIANT),
                                None => None,
                            };
                            if let Some(v) = v {
                                name = d.variant(v).fields[f].name.to_string();
                            }
                            let _ = self.ty(bt.ty);
                        }
                        ty::Closure(d, _) => {
                            owner = format!("closure:{}", self.key(*d));
                        }
                        ty::Tuple(_) => owner = "tuple".into(),
                        _ => {}
                    }
                    J::O(vec![("f", s(name)), ("i", J::I(f.index() as i128)), ("o", s(owner))])
                }
                ProjectionElem::Downcast(n, v) => {
                    let nm = match bt.ty.kind() {
                        ty::Adt(d, _) => d.variant(v).name.to_string(),
                        _ => n.map(|x| x.to_string()).unwrap_or_default(),
                    };
                    J::O(vec![("v", s(nm))])
                }
                ProjectionElem::Index(l) => J::O(vec![("x", J::I(l.index() as i128))]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::O(vec![("ci", J::I(offset as i128)), ("e", J::B(from_end))])
                }
                ProjectionElem::Subslice { from, to, from_end } => J::O(vec![
                    ("sub", J::A(vec![J::I(from as i128), J::I(to as i128)])),
                    ("e", J::B(from_end)),
                ]),
                _ => s("?"),
            };
            out.push(j);
        }
        J::O(vec![("l", J::I(p.local.index() as i128)), ("p", J::A(out))])
    }
    fn callee(&mut self, owner: DefId, d: DefId, ga: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("p", s(self.path(d))), ("dk", s(self.key(d)))];
        let mut gas = vec![];
        for a in ga.iter() {
            if let Some(t) = a.as_type() {
                let x = self.ty(t);
                gas.push(J::I(x as i128));
            }
        }
        o.push(("ga", J::A(gas)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("tr", s(self.path(tr))));
            o.push(("tm", s(tcx.item_name(d).to_string())));
        }
        let env = ty::TypingEnv::post_analysis(tcx, owner);
        let ga2 = tcx.erase_and_anonymize_regions(ga);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            ty::Instance::try_resolve(tcx, env, d, ga2)
        }));
        if let Ok(Ok(Some(inst))) = r {
            let rd = inst.def_id();
            let kind = match inst.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Virtual(..) => "virtual",
                _ => "shim",
            };
            o.push(("rk", s(kind)));
            o.push(("rp", s(self.path(rd))));
            o.push(("key", s(self.key(rd))));
            o.push(("local", J::B(rd.is_local())));
        } else {
            o.push(("rk", s("unresolved")));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let i = self.ty(st);
            o.push(("ist", J::I(i as i128)));
        }
        J::O(o)
    }
    fn konst(&mut self, owner: DefId, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut o: Vec<(&'static str, J)> = vec![("t", J::I(ti as i128))];
        if let ty::FnDef(d, ga) = t.kind() {
            let ga = ga.skip_binder();
            let j = self.callee(owner, *d, ga);
            o.push(("fn", j));
            return J::O(vec![("c", J::O(o))]);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", J::I(p.index() as i128)));
                return J::O(vec![("c", J::O(o))]);
            }
            o.push(("item", s(self.path(u.def))));
        }
        if let Some(d) = c.check_static_ptr(tcx) {
            o.push(("static", s(self.path(d))));
        }
        let env = ty::TypingEnv::post_analysis(tcx, owner);
        if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(b) = c.const_.try_eval_bits(tcx, env) {
                o.push(("bits", s(format!("{}", b))));
            }
        }
        o.push(("s", s(ty::print::with_no_trimmed_paths!(format!("{}", c.const_)))));
        J::O(vec![("c", J::O(o))])
    }
    fn op(&mut self, owner: DefId, b: &Body<'tcx>, x: &Operand<'tcx>) -> J {
        match x {
            Operand::Copy(p) => J::O(vec![("cp", self.place(b, p))]),
            Operand::Move(p) => J::O(vec![("mv", self.place(b, p))]),
            Operand::Constant(c) => self.konst(owner, c),
            o => J::O(vec![("rt", s(format!("{:?}", o)))]),
        }
    }
    fn rvalue(&mut self, owner: DefId, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(x, _) => J::O(vec![("k", s("use")), ("x", self.op(owner, b, x))]),
            Rvalue::Repeat(x, _) => J::O(vec![("k", s("repeat")), ("x", self.op(owner, b, x))]),
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("k", s("ref")),
                ("m", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("p", self.place(b, p)),
            ]),
            Rvalue::RawPtr(_, p) => {
                J::O(vec![("k", s("ref")), ("m", J::B(true)), ("raw", J::B(true)), ("p", self.place(b, p))])
            }
            Rvalue::Reborrow(_, _, p) => {
                J::O(vec![("k", s("use")), ("x", J::O(vec![("cp", self.place(b, p))]))])
            }
            Rvalue::ThreadLocalRef(d) => J::O(vec![("k", s("tls")), ("d", s(self.path(*d)))]),
            Rvalue::Cast(ck, x, t) => {
                let ti = self.ty(*t);
                let xt = x.ty(&b.local_decls, self.tcx);
                let fi = self.ty(xt);
                J::O(vec![
                    ("k", s("cast")),
                    ("ck", s(format!("{:?}", ck))),
                    ("x", self.op(owner, b, x)),
                    ("from", J::I(fi as i128)),
                    ("t", J::I(ti as i128)),
                ])
            }
            Rvalue::BinaryOp(o, xs) => J::O(vec![
                ("k", s("bin")),
                ("o", s(format!("{:?}", o))),
                ("a", self.op(owner, b, &xs.0)),
                ("b", self.op(owner, b, &xs.1)),
            ]),
            Rvalue::UnaryOp(o, x) => {
                J::O(vec![("k", s("un")), ("o", s(format!("{:?}", o))), ("x", self.op(owner, b, x))])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, self.tcx).ty;
                let ti = self.ty(t);
                J::O(vec![("k", s("discr")), ("p", self.place(b, p)), ("t", J::I(ti as i128))])
            }
            Rvalue::CopyForDeref(p) => {
                J::O(vec![("k", s("use")), ("x", J::O(vec![("cp", self.place(b, p))]))])
            }
            Rvalue::Aggregate(k, ops) => {
                let xs: Vec<J> = ops.iter().map(|x| self.op(owner, b, x)).collect();
                let mut o: Vec<(&'static str, J)> = vec![("k", s("agg"))];
                match **k {
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let def = self.tcx.adt_def(d);
                        self.adt(def);
                        o.push(("adt", s(self.path(d))));
                        o.push(("v", s(def.variant(v).name.to_string())));
                        o.push((
                            "fs",
                            J::A(def.variant(v).fields.iter().map(|f| s(f.name.to_string())).collect()),
                        ));
                    }
                    AggregateKind::Closure(d, _) => {
                        o.push(("closure", s(self.key(d))));
                    }
                    AggregateKind::Tuple => o.push(("tuple", J::B(true))),
                    AggregateKind::Array(_) => o.push(("array", J::B(true))),
                    AggregateKind::RawPtr(..) => o.push(("rawptr", J::B(true))),
                    _ => o.push(("other", J::B(true))),
                }
                o.push(("xs", J::A(xs)));
                J::O(o)
            }
            r => J::O(vec![("k", s("other")), ("s", s(format!("{:?}", r)))]),
        }
    }
    fn body(&mut self, owner: DefId, b: &Body<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut locals = vec![];
        for l in b.local_decls.iter() {
            let t = self.ty(l.ty);
            locals.push(J::I(t as i128));
        }
        let mut vars = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                vars.push(J::A(vec![s(v.name.to_string()), self.place(b, &p)]));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                let (ln, mc) = self.span(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        st.push(J::O(vec![
                            ("k", s("=")),
                            ("p", self.place(b, p)),
                            ("r", self.rvalue(owner, b, r)),
                            ("ln", ln),
                            ("mc", mc),
                        ]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(J::O(vec![
                        ("k", s("setd")),
                        ("p", self.place(b, place)),
                        ("v", J::I(variant_index.index() as i128)),
                        ("ln", ln),
                    ])),
                    StatementKind::StorageDead(l) => {
                        st.push(J::O(vec![("k", s("dead")), ("l", J::I(l.index() as i128))]))
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(J::O(vec![("k", s("intr")), ("s", s(format!("{:?}", i)))]))
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let (ln, mc) = self.span(t.source_info.span);
            let mut o: Vec<(&'static str, J)> = match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    vec![("k", s("goto")), ("t", J::I(target.index() as i128))]
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&b.local_decls, tcx);
                    let ti = self.ty(dt);
                    let ts = targets
                        .iter()
                        .map(|(v, t)| J::A(vec![s(format!("{}", v)), J::I(t.index() as i128)]))
                        .collect();
                    vec![
                        ("k", s("switch")),
                        ("x", self.op(owner, b, discr)),
                        ("ty", J::I(ti as i128)),
                        ("ts", J::A(ts)),
                        ("o", J::I(targets.otherwise().index() as i128)),
                    ]
                }
                TerminatorKind::Return => vec![("k", s("return"))],
                TerminatorKind::Unreachable => vec![("k", s("unreachable"))],
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    vec![("k", s("resume"))]
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&b.local_decls, tcx).ty;
                    let ti = self.ty(pt);
                    vec![
                        ("k", s("drop")),
                        ("p", self.place(b, place)),
                        ("ty", J::I(ti as i128)),
                        ("t", J::I(target.index() as i128)),
                    ]
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(owner, b, func);
                    let a = args.iter().map(|x| self.op(owner, b, &x.node)).collect();
                    let at: Vec<J> = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(&b.local_decls, tcx);
                            J::I(self.ty(t) as i128)
                        })
                        .collect();
                    let dt = destination.ty(&b.local_decls, tcx).ty;
                    let ti = self.ty(dt);
                    vec![
                        ("k", s("call")),
                        ("f", f),
                        ("a", J::A(a)),
                        ("at", J::A(at)),
                        ("d", self.place(b, destination)),
                        ("dt", J::I(ti as i128)),
                        ("t", target.map(|x| J::I(x.index() as i128)).unwrap_or(J::Null)),
                    ]
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => vec![
                    ("k", s("assert")),
                    ("x", self.op(owner, b, cond)),
                    ("e", J::B(*expected)),
                    ("m", s(format!("{:?}", msg).chars().take(60).collect::<String>())),
                    ("t", J::I(target.index() as i128)),
                ],
                TerminatorKind::FalseEdge { real_target, .. } => {
                    vec![("k", s("goto")), ("t", J::I(real_target.index() as i128))]
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    vec![("k", s("goto")), ("t", J::I(real_target.index() as i128))]
                }
                t => vec![("k", s("other")), ("s", s(format!("{:?}", t)))],
            };
            o.push(("ln", ln));
            o.push(("mc", mc));
            blocks.push(J::O(vec![
                ("cl", J::B(bb.is_cleanup)),
                ("s", J::A(st)),
                ("t", J::O(o)),
            ]));
        }
        vec![
            ("nargs", J::I(b.arg_count as i128)),
            ("locals", J::A(locals)),
            ("vars", J::A(vars)),
            ("blocks", J::A(blocks)),
        ]
    }
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, tys: HashMap::new(), tyj: vec![], adts: BTreeMap::new() };
        let mut fns = vec![];
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|d| cx.key(d.to_def_id()));
        for ld in keys {
            let d = ld.to_def_id();
            let dk = tcx.def_kind(d);
            let (kind, body) = match dk {
                DefKind::Fn | DefKind::AssocFn => ("fn", tcx.optimized_mir(d)),
                DefKind::Closure => ("closure", tcx.optimized_mir(d)),
                DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => {
                    ("const", tcx.mir_for_ctfe(d))
                }
                _ => continue,
            };
            let mut o: Vec<(&'static str, J)> = vec![
                ("key", s(cx.key(d))),
                ("path", s(cx.path(d))),
                ("kind", s(kind)),
                ("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())),
            ];
            let file = tcx.sess.source_map().span_to_filename(tcx.def_span(d));
            o.push(("file", s(file.prefer_local_unconditionally().to_string())));
            let mut gn = vec![];
            let mut g = Some(tcx.generics_of(tcx.typeck_root_def_id(d)));
            while let Some(x) = g {
                let here: Vec<J> = x
                    .own_params
                    .iter()
                    .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
                    .map(|p| s(p.name.to_string()))
                    .collect();
                gn.splice(0..0, here);
                g = x.parent.map(|p| tcx.generics_of(p));
            }
            o.push(("gens", J::A(gn)));
            let (ln, mc) = cx.span(tcx.def_span(d));
            o.push(("line", ln));
            o.push(("mc", mc));
            if kind == "closure" {
                o.push(("parent", s(cx.key(tcx.parent(d)))));
                let caps = tcx
                    .closure_captures(ld)
                    .iter()
                    .map(|c| {
                        J::A(vec![
                            s(c.to_symbol().to_string()),
                            s(format!("{:?}", c.info.capture_kind).chars().take(40).collect::<String>()),
                            J::I(cx.ty(c.place.ty()) as i128),
                        ])
                    })
                    .collect();
                o.push(("captures", J::A(caps)));
            }
            if kind == "fn" {
                o.push(("pub", J::B(tcx.effective_visibilities(()).is_exported(ld))));
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                o.push(("sig", s(ty::print::with_no_trimmed_paths!(format!("{:?}", sig)))));
                if let Some(im) = tcx.impl_of_assoc(d) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let i = cx.ty(st);
                    o.push(("impl_self", J::I(i as i128)));
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        o.push(("impl_trait", s(cx.path(tr.def_id))));
                        o.push(("derived", J::B(tcx.is_automatically_derived(im))));
                    }
                } else if let Some(tr) = tcx.trait_of_assoc(d) {
                    o.push(("trait_default", s(cx.path(tr))));
                }
            }
            let bj = cx.body(d, body);
            o.extend(bj);
            if kind != "const" || matches!(dk, DefKind::Static { .. } | DefKind::Const { .. }) {
                let mut pj = vec![];
                for p in tcx.promoted_mir(d).iter() {
                    let x = cx.body(d, p);
                    pj.push(J::O(x));
                }
                o.push(("promoted", J::A(pj)));
            }
            fns.push(J::O(o));
        }
        // impl table
        let mut impls = vec![];
        for (tr, ims) in tcx.all_local_trait_impls(()).iter() {
            for im in ims.iter() {
                let st = tcx.type_of(im.to_def_id()).instantiate_identity().skip_norm_wip();
                let i = cx.ty(st);
                let der = tcx.is_automatically_derived(im.to_def_id());
                let items = tcx
                    .associated_item_def_ids(im.to_def_id())
                    .iter()
                    .map(|d| s(cx.key(*d)))
                    .collect();
                impls.push(J::O(vec![
                    ("trait", s(cx.path(*tr))),
                    ("self", J::I(i as i128)),
                    ("derived", J::B(der)),
                    ("key", s(cx.key(im.to_def_id()))),
                    ("items", J::A(items)),
                ]));
            }
        }
        let tys = std::mem::take(&mut cx.tyj);
        let adts = std::mem::take(&mut cx.adts).into_iter().collect();
        let j = J::O(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("fns", J::A(fns)),
            ("impls", J::A(impls)),
            ("adts", J::M(adts)),
            ("tys", J::A(tys)),
        ]);
        let mut out = String::new();
        j.w(&mut out);
        let f = format!("{}/{}.json", self.out, tcx.crate_name(LOCAL_CRATE));
        std::fs::write(&f, out).expect("cannot write facts");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    // argv: mirfacts <rustc> <args...>   (RUSTC_WORKSPACE_WRAPPER)
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1).cloned());
    let want = std::env::var("MIRFACTS_CRATES").unwrap_or_default();
    let test = args.iter().any(|a| a == "--test");
    let hit = name.map_or(false, |n| want.split(',').any(|w| w == n)) && !test;
    if hit {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        let out = std::env::var("MIRFACTS_OUT").expect("MIRFACTS_OUT");
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
