//! Dump of one crate: types, impls, bodies.
use crate::json::J;
use rustc_hir::def::{CtorOf, DefKind};
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt};
use std::collections::{BTreeMap, HashMap};

pub struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
}

/// Unique, stable key of a definition: crate and disambiguated path.
fn key(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

fn loc(tcx: TyCtxt<'_>, sp: rustc_span::Span) -> J {
    let sm = tcx.sess.source_map();
    let sp = sp.source_callsite();
    let p = sm.lookup_char_pos(sp.lo());
    J::S(format!("{}:{}", p.file.name.prefer_local_unconditionally(), p.line))
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        J::N(self.ty_id(t) as i128)
    }
    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.type_ids.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(J::Null);
        self.type_ids.insert(t, i);
        let tcx = self.tcx;
        let k = |k: &str| ("k", J::s(k));
        let j = match t.kind() {
            ty::Bool => vec![k("bool")],
            ty::Char => vec![k("char")],
            ty::Int(x) => vec![k("int"), ("n", J::s(x.name_str()))],
            ty::Uint(x) => vec![k("uint"), ("n", J::s(x.name_str()))],
            ty::Float(x) => vec![k("float"), ("n", J::s(x.name_str()))],
            ty::Str => vec![k("str")],
            ty::Never => vec![k("never")],
            ty::Adt(d, args) => {
                self.adt(*d);
                let a = self.args(args);
                vec![k("adt"), ("d", J::S(key(tcx, d.did()))), ("a", a)]
            }
            ty::Array(e, n) => {
                let len = n.try_to_target_usize(tcx).map_or(J::Null, |n| J::N(n as i128));
                vec![k("array"), ("e", self.ty(*e)), ("len", len)]
            }
            ty::Slice(e) => vec![k("slice"), ("e", self.ty(*e))],
            ty::RawPtr(e, m) => vec![k("ptr"), ("e", self.ty(*e)), ("m", J::B(m.is_mut()))],
            ty::Ref(_, e, m) => vec![k("ref"), ("e", self.ty(*e)), ("m", J::B(m.is_mut()))],
            ty::FnDef(d, args) => {
                let a = self.args(args.skip_binder());
                vec![k("fndef"), ("d", J::S(key(tcx, *d))), ("a", a)]
            }
            ty::FnPtr(..) => vec![k("fnptr")],
            ty::Dynamic(p, _) => {
                let mut v = vec![];
                for x in p.iter() {
                    match x.skip_binder() {
                        ty::ExistentialPredicate::Trait(t) => v.push(J::S(key(tcx, t.def_id))),
                        ty::ExistentialPredicate::AutoTrait(t) => v.push(J::S(key(tcx, t))),
                        _ => (),
                    }
                }
                vec![k("dyn"), ("t", J::A(v))]
            }
            ty::Closure(d, args) => {
                let up: Vec<_> =
                    args.as_closure().upvar_tys().iter().collect();
                let v = up.into_iter().map(|x| self.ty(x)).collect();
                vec![k("closure"), ("d", J::S(key(tcx, *d))), ("u", J::A(v))]
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|x| self.ty(x)).collect();
                vec![k("tuple"), ("e", J::A(v))]
            }
            ty::Param(p) => vec![k("param"), ("n", J::s(p.name))],
            ty::Alias(..) => vec![k("alias")],
            _ => vec![k("other")],
        };
        let mut j = j;
        j.push(("s", J::S(format!("{t}"))));
        self.types[i] = J::O(j);
        i
    }
    fn args(&mut self, args: GenericArgsRef<'tcx>) -> J {
        let v: Vec<_> = args.types().collect();
        J::A(v.into_iter().map(|x| self.ty(x)).collect())
    }
    fn adt(&mut self, d: ty::AdtDef<'tcx>) {
        let tcx = self.tcx;
        let kk = key(tcx, d.did());
        if self.adts.contains_key(&kk) {
            return;
        }
        self.adts.insert(kk.clone(), J::Null);
        let mut vs = vec![];
        let local = d.did().is_local();
        for (vi, v) in d.variants().iter_enumerated() {
            let discr = if d.is_enum() { d.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
            let mut fs = vec![];
            for f in v.fields.iter() {
                let fty = if local {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    self.ty(t)
                } else {
                    J::Null
                };
                fs.push(J::O(vec![
                    ("name", J::s(f.name)),
                    ("ty", fty),
                    ("pub", J::B(f.vis.is_public())),
                    ("vis", J::S(format!("{:?}", f.vis))),
                ]));
            }
            vs.push(J::O(vec![
                ("name", J::s(v.name)),
                ("discr", J::N(discr)),
                ("fields", J::A(fs)),
            ]));
        }
        let j = J::O(vec![
            ("path", J::S(tcx.def_path_str(d.did()))),
            ("local", J::B(local)),
            ("enum", J::B(d.is_enum())),
            ("pub", J::B(tcx.visibility(d.did()).is_public())),
            ("variants", J::A(vs)),
        ]);
        self.adts.insert(kk, j);
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::A(vec![J::s("*")]),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![J::s("f"), J::N(f.as_u32() as i128), t])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::N(l.as_u32() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    J::s("ci"),
                    J::N(offset as i128),
                    J::N(min_length as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("ss"), J::N(from as i128), J::N(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => {
                    J::A(vec![J::s("v"), J::N(v.as_u32() as i128)])
                }
                other => J::A(vec![J::s("?"), J::S(format!("{other:?}"))]),
            });
        }
        J::A(vec![J::N(p.local.as_u32() as i128), J::A(v)])
    }

    fn konst(&mut self, body: &Body<'tcx>, c: &Const<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let tj = self.ty(t);
        let mut o = vec![("k", J::s("const")), ("ty", tj)];
        match t.kind() {
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let f = self.fn_ref(body, *d, args);
                o.push(("fn", f));
                return J::O(o);
            }
            _ => (),
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                o.push(("promoted", J::N(p.as_u32() as i128)));
                return J::O(o);
            }
            o.push(("item", J::S(key(tcx, u.def))));
            o.push(("item_path", J::S(tcx.def_path_str(u.def))));
        }
        let env = ty::TypingEnv::post_analysis(tcx, body.source.def_id());
        if let Ok(v) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
            match v {
                ConstValue::ZeroSized => o.push(("zst", J::B(true))),
                ConstValue::Scalar(interpret::Scalar::Int(i)) => {
                    let bits = i.to_bits(i.size()) as i128;
                    let v = if let ty::Int(_) = t.kind() { i.to_int(i.size()) } else { bits };
                    o.push(("v", J::N(v)));
                }
                ConstValue::Slice { .. } => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        o.push(("str", J::S(String::from_utf8_lossy(b).into_owned())));
                    }
                }
                ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.into_raw_parts();
                    if let Some(interpret::GlobalAlloc::Memory(a)) =
                        tcx.try_get_global_alloc(prov.alloc_id())
                    {
                        let a = a.inner();
                        if a.provenance().ptrs().is_empty() {
                            let n = a.size().bytes_usize();
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(
                                off.bytes_usize()..n,
                            );
                            o.push(("bytes", J::A(b.iter().map(|x| J::N(*x as i128)).collect())));
                        }
                    }
                }
                _ => (),
            }
        } else if let Const::Ty(_, ct) = c {
            o.push(("cparam", J::S(format!("{ct}"))));
        }
        o.push(("dbg", J::S(format!("{c}"))));
        J::O(o)
    }

    /// A resolved reference to a function: what is named, and - if it is a trait
    /// method - what it statically resolves to.
    fn fn_ref(&mut self, body: &Body<'tcx>, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let a = self.args(args);
        let mut o = vec![
            ("d", J::S(key(tcx, d))),
            ("path", J::S(tcx.def_path_str(d))),
            ("name", J::S(tcx.opt_item_name(d).map_or(String::new(), |x| x.to_string()))),
            ("a", a),
        ];
        let dk = tcx.def_kind(d);
        if let DefKind::Ctor(of, _) = dk {
            let parent = tcx.parent(d);
            let (adt, variant) = match of {
                CtorOf::Struct => (parent, 0),
                CtorOf::Variant => {
                    let adt = tcx.parent(parent);
                    let v = tcx.adt_def(adt).variant_index_with_id(parent);
                    (adt, v.as_u32())
                }
            };
            self.adt(tcx.adt_def(adt));
            o.push(("ctor", J::A(vec![J::S(key(tcx, adt)), J::N(variant as i128)])));
            return J::O(o);
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::S(key(tcx, t))));
            let env = ty::TypingEnv::post_analysis(tcx, body.source.def_id());
            let args2 = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, env, d, args2) {
                o.push(("res", J::S(key(tcx, i.def_id()))));
                let ra = self.args(i.args);
                o.push(("res_a", ra));
            }
        } else if let Some(i) = tcx.impl_of_assoc(d) {
            let t = tcx.type_of(i).instantiate_identity().skip_norm_wip();
            let s = self.ty(t);
            o.push(("impl_self", s));
        }
        J::O(o)
    }

    fn operand(&mut self, body: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![J::s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![J::s("m"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![J::s("k"), self.konst(body, &c.const_)]),
            Operand::RuntimeChecks(c) => J::A(vec![J::s("rt"), J::S(format!("{c:?}"))]),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        let s = |x: &str| J::s(x);
        J::A(match r {
            Rvalue::Use(o, ..) => vec![s("use"), self.operand(body, o)],
            Rvalue::Repeat(o, n) => {
                let len = n.try_to_target_usize(tcx).map_or(J::Null, |n| J::N(n as i128));
                vec![s("repeat"), self.operand(body, o), len]
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                vec![s("ref"), J::B(m), self.place(p)]
            }
            Rvalue::RawPtr(_, p) => vec![s("ref"), J::B(true), self.place(p)],
            Rvalue::ThreadLocalRef(d) => vec![s("tls"), J::S(key(tcx, *d))],
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                vec![s("cast"), J::S(format!("{k:?}")), self.operand(body, o), t]
            }
            Rvalue::BinaryOp(b, x) => {
                let l = self.operand(body, &x.0);
                let r = self.operand(body, &x.1);
                vec![s("bin"), J::S(format!("{b:?}")), l, r]
            }
            Rvalue::UnaryOp(u, o) => vec![s("un"), J::S(format!("{u:?}")), self.operand(body, o)],
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                vec![s("discr"), self.place(p), self.ty(t)]
            }
            Rvalue::CopyForDeref(p) => {
                vec![s("use"), J::A(vec![J::s("c"), self.place(p)])]
            }
            Rvalue::Aggregate(k, ops) => {
                let ops = J::A(ops.iter().map(|o| self.operand(body, o)).collect());
                match &**k {
                    AggregateKind::Array(_) => vec![s("agg"), s("array"), ops],
                    AggregateKind::Tuple => vec![s("agg"), s("tuple"), ops],
                    AggregateKind::Adt(d, v, _, _, f) => {
                        self.adt(tcx.adt_def(*d));
                        vec![
                            s("agg"),
                            s("adt"),
                            ops,
                            J::S(key(tcx, *d)),
                            J::N(v.as_u32() as i128),
                            f.map_or(J::Null, |f| J::N(f.as_u32() as i128)),
                        ]
                    }
                    AggregateKind::Closure(d, _) => {
                        vec![s("agg"), s("closure"), ops, J::S(key(tcx, *d))]
                    }
                    other => vec![s("agg"), s("?"), ops, J::S(format!("{other:?}"))],
                }
            }
            other => vec![s("?"), J::S(format!("{other:?}"))],
        })
    }

    fn body(&mut self, body: &Body<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let locals = body.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![J::N(p.local.as_u32() as i128), J::s(v.name)]));
                }
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut ss = vec![];
            for st in &bb.statements {
                let l = loc(tcx, st.source_info.span);
                match &st.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(&x.0);
                        let r = self.rvalue(body, &x.1);
                        ss.push(J::A(vec![J::s("="), p, r, l]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        ss.push(J::A(vec![
                            J::s("sd"),
                            p,
                            J::N(variant_index.as_u32() as i128),
                            l,
                        ]));
                    }
                    StatementKind::StorageLive(x) => {
                        ss.push(J::A(vec![J::s("live"), J::N(x.as_u32() as i128)]))
                    }
                    StatementKind::StorageDead(x) => {
                        ss.push(J::A(vec![J::s("dead"), J::N(x.as_u32() as i128)]))
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(_) => (),
                        o => ss.push(J::A(vec![J::s("?"), J::S(format!("{o:?}")), l])),
                    },
                    _ => (),
                }
            }
            let t = bb.terminator();
            let l = loc(tcx, t.source_info.span);
            let b = |x: BasicBlock| J::N(x.as_u32() as i128);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![J::s("goto"), b(*target)],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dty = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dty);
                    let d = self.operand(body, discr);
                    let ts = targets
                        .iter()
                        .map(|(v, t)| J::A(vec![J::N(v as i128), b(t)]))
                        .collect();
                    vec![J::s("switch"), d, J::A(ts), b(targets.otherwise()), dt]
                }
                TerminatorKind::Return => vec![J::s("return")],
                TerminatorKind::Unreachable => vec![J::s("unreachable")],
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    vec![J::s("resume")]
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let pty = place.ty(&body.local_decls, tcx).ty;
                    let pt = self.ty(pty);
                    vec![J::s("drop"), self.place(place), b(*target), pt]
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(body, func);
                    let a = J::A(args.iter().map(|x| self.operand(body, &x.node)).collect());
                    let d = self.place(destination);
                    let dty = destination.ty(&body.local_decls, tcx).ty;
                    let dt = self.ty(dty);
                    vec![J::s("call"), f, a, d, target.map_or(J::Null, b), dt]
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(body, cond);
                    let mut m = vec![J::S(format!("{:?}", msg).chars().take(80).collect())];
                    if let AssertKind::BoundsCheck { len, index } = &**msg {
                        m = vec![J::s("bounds"), self.operand(body, len), self.operand(body, index)];
                    } else if let AssertKind::Overflow(op, x, y) = &**msg {
                        m = vec![
                            J::s("overflow"),
                            J::S(format!("{op:?}")),
                            self.operand(body, x),
                            self.operand(body, y),
                        ];
                    }
                    vec![J::s("assert"), c, J::B(*expected), J::A(m), b(*target)]
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    vec![J::s("goto"), b(*real_target)]
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    vec![J::s("goto"), b(*real_target)]
                }
                other => vec![J::s("?"), J::S(format!("{other:?}"))],
            };
            blocks.push(J::O(vec![
                ("s", J::A(ss)),
                ("t", J::A(term)),
                ("l", l),
                ("cl", J::B(bb.is_cleanup)),
            ]));
        }
        vec![
            ("argc", J::N(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
            ("spread", body.spread_arg.map_or(J::Null, |l| J::N(l.as_u32() as i128))),
        ]
    }
}

pub fn dump_crate<'tcx>(tcx: TyCtxt<'tcx>, name: &str) -> J {
    let mut cx = Cx { tcx, types: vec![], type_ids: HashMap::new(), adts: BTreeMap::new() };
    let mut bodies: Vec<(String, J)> = vec![];
    for ld in tcx.mir_keys(()).iter() {
        let d: LocalDefId = *ld;
        let did = d.to_def_id();
        let dk = tcx.def_kind(did);
        let is_fn = matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        if !is_fn {
            continue;
        }
        let body = tcx.optimized_mir(did);
        let mut o = cx.body(body);
        o.push(("path", J::S(tcx.def_path_str(did))));
        o.push(("kind", J::S(format!("{dk:?}"))));
        o.push(("loc", loc(tcx, tcx.def_span(did))));
        o.push(("name", J::S(tcx.opt_item_name(did).map_or(String::new(), |x| x.to_string()))));
        if dk != DefKind::Closure {
            o.push(("vis", J::S(format!("{:?}", tcx.visibility(did)))));
            o.push(("pub", J::B(tcx.visibility(did).is_public())));
            let sig = tcx.fn_sig(did).skip_binder();
            o.push(("unsafe", J::B(sig.safety().is_unsafe())));
            if let Some(t) = tcx.trait_of_assoc(did) {
                o.push(("trait", J::S(key(tcx, t))));
            }
            if let Some(i) = tcx.impl_of_assoc(did) {
                o.push(("impl", J::S(key(tcx, i))));
                let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                let st = cx.ty(st);
                o.push(("impl_self", st));
            }
            let gens: Vec<J> = {
                let g = tcx.generics_of(did);
                let mut v = vec![];
                for i in 0..g.count() {
                    v.push(J::s(g.param_at(i, tcx).name));
                }
                v
            };
            o.push(("generics", J::A(gens)));
        }
        let mut pr = vec![];
        for p in tcx.promoted_mir(did).iter() {
            pr.push(J::O(cx.body(p)));
        }
        o.push(("promoted", J::A(pr)));
        bodies.push((key(tcx, did), J::O(o)));
    }
    // Traits and impls.
    let mut impls = vec![];
    let mut traits = vec![];
    let mut statics = vec![];
    let mut uses_unsafe = vec![];
    let mut tydefs = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let stj = cx.ty(st);
                let mut o = vec![("d", J::S(key(tcx, did))), ("self", stj)];
                o.push(("loc", loc(tcx, tcx.def_span(did))));
                if of_trait {
                    let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    o.push(("trait", J::S(key(tcx, tr.def_id))));
                    let ta = cx.args(tr.args);
                    o.push(("trait_args", ta));
                    o.push(("unsafe", J::B(tcx.impl_trait_header(did).safety.is_unsafe())));
                    o.push(("negative", J::B(tcx.impl_polarity(did) == ty::ImplPolarity::Negative)));
                }
                let mut ps = vec![];
                for (p, _) in tcx.clauses_of(did).instantiate_identity(tcx) {
                    if let Some(t) = p.skip_norm_wip().as_trait_clause() {
                        let t = t.skip_binder();
                        let s = cx.ty(t.self_ty());
                        ps.push(J::A(vec![s, J::S(key(tcx, t.def_id()))]));
                    }
                }
                o.push(("preds", J::A(ps)));
                let mut ms = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    if it.is_fn() {
                        ms.push((it.name().to_string(), J::S(key(tcx, it.def_id))));
                    }
                }
                o.push(("methods", J::M(ms)));
                impls.push(J::O(o));
            }
            DefKind::Trait => {
                let mut ms = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    if it.is_fn() {
                        ms.push((
                            it.name().to_string(),
                            J::A(vec![
                                J::S(key(tcx, it.def_id)),
                                J::B(it.defaultness(tcx).has_value()),
                                J::B(it.is_method()),
                            ]),
                        ));
                    }
                }
                let mut supers = vec![];
                for p in tcx.explicit_super_clauses_of(did).skip_binder() {
                    if let Some(t) = p.0.as_trait_clause() {
                        supers.push(J::S(key(tcx, t.def_id())));
                    }
                }
                traits.push(J::O(vec![
                    ("d", J::S(key(tcx, did))),
                    ("path", J::S(tcx.def_path_str(did))),
                    ("methods", J::M(ms)),
                    ("supers", J::A(supers)),
                ]));
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let env = ty::TypingEnv::post_analysis(tcx, did);
                statics.push(J::O(vec![
                    ("d", J::S(key(tcx, did))),
                    ("loc", loc(tcx, tcx.def_span(did))),
                    ("mut", J::B(mutability.is_mut())),
                    ("freeze", J::B(t.is_freeze(tcx, env))),
                ]));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                cx.adt(tcx.adt_def(did));
                tydefs.push(J::S(key(tcx, did)));
            }
            _ => (),
        }
    }
    // Unsafe blocks and unsafe impls (HIR).
    {
        struct V<'tcx> {
            tcx: TyCtxt<'tcx>,
            out: Vec<J>,
        }
        impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'tcx> {
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
                    if matches!(src, rustc_hir::UnsafeSource::UserProvided) {
                        self.out.push(loc(self.tcx, b.span));
                    }
                }
                rustc_hir::intravisit::walk_block(self, b);
            }
        }
        let mut v = V { tcx, out: vec![] };
        for d in tcx.hir_body_owners() {
            let b = tcx.hir_body_owned_by(d);
            rustc_hir::intravisit::Visitor::visit_body(&mut v, b);
        }
        uses_unsafe.append(&mut v.out);
    }
    let adts = std::mem::take(&mut cx.adts).into_iter().collect();
    J::O(vec![
        ("crate", J::s(name)),
        ("types", J::A(cx.types)),
        ("adts", J::M(adts)),
        ("impls", J::A(impls)),
        ("traits", J::A(traits)),
        ("statics", J::A(statics)),
        ("tydefs", J::A(tydefs)),
        ("unsafe", J::A(uses_unsafe)),
        ("bodies", J::M(bodies)),
    ])
}
