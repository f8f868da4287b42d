//! Dumps what rustc knows about a crate (type-checked MIR with resolved callees, types, impls,
//! statics, unsafe blocks) as JSON. It judges nothing: the rules live in /verif/vf (Python).
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, interpret::Scalar};
use rustc_middle::ty::print::{with_crate_prefix, with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::N(x as i128)
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => {
                let _ = write!(o, "{b}");
            }
            J::N(v) => {
                let _ = write!(o, "{v}");
            }
            J::S(v) => {
                o.push('"');
                for c in v.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::S((*k).to_string()).w(o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(with_no_visible_paths!(with_crate_prefix!(tcx.def_path_str(d))))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: RefCell<(HashMap<Ty<'tcx>, usize>, Vec<J>)>,
    adts: RefCell<BTreeMap<String, J>>,
}

impl<'tcx> Cx<'tcx> {
    fn loc(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }
    fn args(&self, a: ty::GenericArgsRef<'tcx>) -> J {
        J::A(a.types().map(|t| n(self.ty(t))).collect())
    }
    fn ty(&self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.borrow().0.get(&t) {
            return *i;
        }
        let i = {
            let mut b = self.tys.borrow_mut();
            let i = b.1.len();
            b.0.insert(t, i);
            b.1.push(J::Null);
            i
        };
        let tcx = self.tcx;
        let j = match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                J::A(vec![s("prim"), s(t.to_string())])
            }
            ty::Adt(def, args) => {
                self.adt(def);
                J::A(vec![s("adt"), s(path(tcx, def.did())), self.args(args)])
            }
            ty::Array(e, _) => J::A(vec![s("array"), n(self.ty(e))]),
            ty::Slice(e) => J::A(vec![s("slice"), n(self.ty(e))]),
            ty::Ref(_, e, m) => J::A(vec![s("ref"), J::B(m.is_mut()), n(self.ty(e))]),
            ty::RawPtr(e, m) => J::A(vec![s("ptr"), J::B(m.is_mut()), n(self.ty(e))]),
            ty::FnDef(d, _) => J::A(vec![s("fndef"), s(path(tcx, d.into()))]),
            ty::FnPtr(..) => J::A(vec![s("fnptr")]),
            ty::Closure(d, _) => J::A(vec![s("closure"), s(path(tcx, d.into()))]),
            ty::Tuple(ts) => J::A(vec![s("tuple"), J::A(ts.iter().map(|x| n(self.ty(x))).collect())]),
            ty::Param(p) => J::A(vec![s("param"), s(p.name.to_string())]),
            ty::Dynamic(..) => J::A(vec![s("dyn"), s(t.to_string())]),
            _ => J::A(vec![s("other"), s(with_no_trimmed_paths!(t.to_string()))]),
        };
        self.tys.borrow_mut().1[i] = j;
        i
    }
    fn adt(&self, def: ty::AdtDef<'tcx>) {
        let p = path(self.tcx, def.did());
        if self.adts.borrow().contains_key(&p) {
            return;
        }
        self.adts.borrow_mut().insert(p.clone(), J::Null);
        let mut vs = Vec::new();
        for (i, v) in def.variants().iter_enumerated() {
            let d = if def.is_enum() {
                J::S(def.discriminant_for_variant(self.tcx, i).val.to_string())
            } else {
                s("0")
            };
            let fs = v
                .fields
                .iter()
                .map(|f| {
                    let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    J::A(vec![s(f.name.to_string()), n(self.ty(t)), J::B(f.vis.is_public())])
                })
                .collect();
            vs.push(J::O(vec![("name", s(v.name.to_string())), ("discr", d), ("fields", J::A(fs))]));
        }
        let j = J::O(vec![
            ("path", s(p.clone())),
            ("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("local", J::B(def.did().is_local())),
            ("variants", J::A(vs)),
        ]);
        self.adts.borrow_mut().insert(p, j);
    }
    fn callee(&self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("k", s("fn")),
            ("path", s(path(tcx, d))),
            ("args", self.args(args)),
            ("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())),
            ("local", J::B(d.is_local())),
        ];
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            o.push(("ctor", s(path(tcx, tcx.parent(d)))));
            return J::O(o);
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(path(tcx, tr))));
            o.push(("self", n(self.ty(args.type_at(0)))));
        } else if let Some(im) = tcx.inherent_impl_of_assoc(d) {
            let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            o.push(("inherent", n(self.ty(t))));
        }
        let erased = tcx.erase_and_anonymize_regions(args);
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, erased) {
                if let ty::InstanceKind::Item(rd) = i.def {
                    o.push(("resolved", s(path(tcx, rd))));
                    o.push(("rlocal", J::B(rd.is_local())));
                    o.push(("rargs", self.args(i.args)));
                } else {
                    o.push(("shim", s(format!("{:?}", i.def).split('(').next().unwrap().to_string())));
                }
            }
        }
        J::O(o)
    }
    fn scalar(&self, sc: Scalar, t: Ty<'tcx>) -> J {
        match sc {
            Scalar::Int(i) => {
                let bits = i.to_bits(i.size());
                let v = if t.is_signed() { i.size().sign_extend(bits) as i128 } else { bits as i128 };
                J::O(vec![("k", s("int")), ("v", J::N(v)), ("ty", n(self.ty(t)))])
            }
            Scalar::Ptr(p, _) => {
                let tcx = self.tcx;
                let (prov, off) = p.prov_and_relative_offset();
                let alloc = prov.alloc_id();
                if let ty::Ref(_, inner, _) = t.kind() {
                    if let ty::Array(e, _) = inner.kind() {
                        if *e == tcx.types.u8 {
                            if let rustc_middle::mir::interpret::GlobalAlloc::Memory(m) = tcx.global_alloc(alloc) {
                                let a = m.inner();
                                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(
                                    off.bytes() as usize..a.size().bytes() as usize,
                                );
                                return J::O(vec![
                                    ("k", s("bytes")),
                                    ("v", J::A(b.iter().map(|x| J::N(*x as i128)).collect())),
                                ]);
                            }
                        }
                    }
                }
                if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) = tcx.global_alloc(alloc) {
                    return J::O(vec![("k", s("static")), ("path", s(path(tcx, d)))]);
                }
                J::O(vec![("k", s("ptr")), ("ty", n(self.ty(t)))])
            }
        }
    }
    fn cval(&self, v: mir::ConstValue, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match v {
            mir::ConstValue::Scalar(sc) => self.scalar(sc, t),
            mir::ConstValue::ZeroSized => J::O(vec![("k", s("zst")), ("ty", n(self.ty(t)))]),
            mir::ConstValue::Slice { .. } => match v.try_get_slice_bytes_for_diagnostics(tcx) {
                Some(b) => {
                    if let ty::Ref(_, inner, _) = t.kind() {
                        if inner.is_str() {
                            return J::O(vec![
                                ("k", s("str")),
                                ("v", s(String::from_utf8_lossy(b).into_owned())),
                            ]);
                        }
                    }
                    J::O(vec![("k", s("bytes")), ("v", J::A(b.iter().map(|x| J::N(*x as i128)).collect()))])
                }
                None => J::O(vec![("k", s("slice")), ("ty", n(self.ty(t)))]),
            },
            mir::ConstValue::Indirect { .. } => J::O(vec![
                ("k", s("indirect")),
                ("ty", n(self.ty(t))),
                ("txt", s(format!("{}", mir::Const::Val(v, t)))),
            ]),
        }
    }
    fn konst(&self, env: TypingEnv<'tcx>, c: &mir::ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = *t.kind() {
            return self.callee(env, d.into(), args.skip_binder());
        }
        match c.const_ {
            mir::Const::Val(v, t) => self.cval(v, t),
            mir::Const::Ty(t, ct) => match ct.try_to_value() {
                Some(v) => match v.try_to_leaf() {
                    Some(i) => self.scalar(Scalar::Int(i), t),
                    None => J::O(vec![("k", s("tyconst")), ("txt", s(format!("{ct}"))), ("ty", n(self.ty(t)))]),
                },
                None => J::O(vec![("k", s("tyconst")), ("txt", s(format!("{ct}"))), ("ty", n(self.ty(t)))]),
            },
            mir::Const::Unevaluated(u, t) => {
                if let Some(p) = u.promoted {
                    return J::O(vec![
                        ("k", s("promoted")),
                        ("def", s(path(tcx, u.def))),
                        ("idx", n(p.as_usize())),
                        ("ty", n(self.ty(t))),
                    ]);
                }
                let val = c.const_.eval(tcx, env, c.span).ok().map(|v| self.cval(v, t)).unwrap_or(J::Null);
                J::O(vec![("k", s("named")), ("path", s(path(tcx, u.def))), ("val", val), ("ty", n(self.ty(t)))])
            }
        }
    }
    fn place(&self, body: &mir::Body<'tcx>, p: &mir::Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut proj = Vec::new();
        for e in p.projection {
            let j = match e {
                mir::ProjectionElem::Deref => J::A(vec![s("deref")]),
                mir::ProjectionElem::Field(f, _) => {
                    let name = match *pty.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variant(v).fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let (adt, var) = match *pty.ty.kind() {
                        ty::Adt(def, _) => {
                            self.adt(def);
                            let v = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            (s(path(tcx, def.did())), s(def.variant(v).name.to_string()))
                        }
                        ty::Tuple(ts) => (J::Null, n(ts.len())),
                        _ => (J::Null, J::Null),
                    };
                    J::A(vec![s("field"), s(name), n(f.as_usize()), adt, var])
                }
                mir::ProjectionElem::Index(l) => J::A(vec![s("index"), n(l.as_usize())]),
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("cindex"), J::N(offset as i128), J::N(min_length as i128), J::B(from_end)])
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("subslice"), J::N(from as i128), J::N(to as i128), J::B(from_end)])
                }
                mir::ProjectionElem::Downcast(_, v) => {
                    let name = match *pty.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => v.as_usize().to_string(),
                    };
                    J::A(vec![s("downcast"), s(name)])
                }
                _ => J::A(vec![s("other")]),
            };
            proj.push(j);
            pty = pty.projection_ty(tcx, e);
        }
        J::A(vec![n(p.local.as_usize()), J::A(proj), n(self.ty(pty.ty))])
    }
    fn operand(&self, env: TypingEnv<'tcx>, body: &mir::Body<'tcx>, o: &mir::Operand<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => J::A(vec![s("copy"), self.place(body, p)]),
            mir::Operand::Move(p) => J::A(vec![s("move"), self.place(body, p)]),
            mir::Operand::Constant(c) => J::A(vec![s("const"), self.konst(env, c)]),
            _ => J::A(vec![s("const"), J::O(vec![("k", s("runtime"))])]),
        }
    }
    fn rvalue(&self, env: TypingEnv<'tcx>, body: &mir::Body<'tcx>, r: &mir::Rvalue<'tcx>) -> J {
        let op = |o: &mir::Operand<'tcx>| self.operand(env, body, o);
        match r {
            mir::Rvalue::Use(o, ..) => J::A(vec![s("use"), op(o)]),
            mir::Rvalue::Repeat(o, c) => J::A(vec![s("repeat"), op(o), s(format!("{c}"))]),
            mir::Rvalue::Ref(_, k, p) => J::A(vec![
                s("ref"),
                s(match k {
                    mir::BorrowKind::Shared => "shared",
                    mir::BorrowKind::Fake(_) => "fake",
                    mir::BorrowKind::Mut { .. } => "mut",
                }),
                self.place(body, p),
            ]),
            mir::Rvalue::RawPtr(k, p) => J::A(vec![s("rawptr"), s(format!("{k:?}")), self.place(body, p)]),
            mir::Rvalue::Cast(k, o, t) => {
                J::A(vec![s("cast"), s(format!("{k:?}")), op(o), n(self.ty(*t))])
            }
            mir::Rvalue::BinaryOp(b, ops) => J::A(vec![s("bin"), s(format!("{b:?}")), op(&ops.0), op(&ops.1)]),
            mir::Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{u:?}")), op(o)]),
            mir::Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(body, p)]),
            mir::Rvalue::Aggregate(k, ops) => {
                let kind = match **k {
                    mir::AggregateKind::Array(_) => J::A(vec![s("array")]),
                    mir::AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    mir::AggregateKind::Adt(d, v, _, _, _) => {
                        let def = self.tcx.adt_def(d);
                        self.adt(def);
                        let var = def.variant(v);
                        J::A(vec![
                            s("adt"),
                            s(path(self.tcx, d)),
                            s(var.name.to_string()),
                            J::A(var.fields.iter().map(|f| s(f.name.to_string())).collect()),
                        ])
                    }
                    mir::AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(path(self.tcx, d))]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kind, J::A(ops.iter().map(op).collect())])
            }
            mir::Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("copy"), self.place(body, p)])]),
            mir::Rvalue::ThreadLocalRef(d) => J::A(vec![s("threadlocal"), s(path(self.tcx, *d))]),
            _ => J::A(vec![s("other"), s(format!("{r:?}"))]),
        }
    }
    fn body(&self, name: String, def: DefId, body: &mir::Body<'tcx>) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(def));
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut dbg = Vec::new();
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                }
                dbg.push(J::A(vec![s(v.name.to_string()), self.place(body, &p)]));
            }
        }
        let locals = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                J::A(vec![n(self.ty(d.ty)), names.get(&l.as_usize()).map(|x| s(x.clone())).unwrap_or(J::Null)])
            })
            .collect();
        let mut blocks = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut st = Vec::new();
            for x in &bb.statements {
                let loc = self.loc(x.source_info.span);
                match &x.kind {
                    mir::StatementKind::Assign(b) => st.push(J::A(vec![
                        s("assign"),
                        self.place(body, &b.0),
                        self.rvalue(env, body, &b.1),
                        loc,
                    ])),
                    mir::StatementKind::SetDiscriminant { place, variant_index } => st.push(J::A(vec![
                        s("setdiscr"),
                        self.place(body, place),
                        n(variant_index.as_usize()),
                        loc,
                    ])),
                    mir::StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![s("dead"), n(l.as_usize())]))
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let loc = self.loc(t.source_info.span);
            let op = |o: &mir::Operand<'tcx>| self.operand(env, body, o);
            let tj = match &t.kind {
                mir::TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
                mir::TerminatorKind::SwitchInt { discr, targets } => J::A(vec![
                    s("switch"),
                    op(discr),
                    J::A(targets
                        .iter()
                        .map(|(v, b)| J::A(vec![J::S(v.to_string()), n(b.as_usize())]))
                        .collect()),
                    n(targets.otherwise().as_usize()),
                    n(self.ty(discr.ty(&body.local_decls, tcx))),
                ]),
                mir::TerminatorKind::Return => J::A(vec![s("return")]),
                mir::TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                mir::TerminatorKind::Drop { place, target, .. } => {
                    J::A(vec![s("drop"), self.place(body, place), n(target.as_usize())])
                }
                mir::TerminatorKind::Call { func, args, destination, target, fn_span, .. } => J::A(vec![
                    s("call"),
                    op(func),
                    J::A(args.iter().map(|a| op(&a.node)).collect()),
                    self.place(body, destination),
                    target.map(|t| n(t.as_usize())).unwrap_or(J::Null),
                    self.loc(*fn_span),
                ]),
                mir::TerminatorKind::Assert { cond, expected, target, msg, .. } => J::A(vec![
                    s("assert"),
                    op(cond),
                    J::B(*expected),
                    n(target.as_usize()),
                    s(format!("{msg:?}").split('(').next().unwrap().to_string()),
                ]),
                mir::TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), n(real_target.as_usize())])
                }
                mir::TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), n(real_target.as_usize())])
                }
                k => J::A(vec![s("other"), s(format!("{k:?}"))]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("l", loc),
                ("c", J::B(bb.is_cleanup)),
            ]));
        }
        let mut o = vec![
            ("name", s(name)),
            ("argc", n(body.arg_count)),
            ("locals", J::A(locals)),
            ("dbg", J::A(dbg)),
            ("blocks", J::A(blocks)),
            ("loc", self.loc(tcx.def_span(def))),
        ];
        let root = tcx.typeck_root_def_id(def);
        o.push(("root", s(path(tcx, root))));
        if tcx.is_closure_like(def) {
            o.push(("closure", J::B(true)));
        }
        if let Some(p) = tcx.opt_parent(root) {
            if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                o.push(("impl_self", n(self.ty(tcx.type_of(p).instantiate_identity().skip_norm_wip()))));
                if let Some(tr) = tcx.impl_opt_trait_ref(p) {
                    o.push(("impl_trait", s(path(tcx, tr.skip_binder().def_id))));
                }
                if tcx.is_automatically_derived(p) {
                    o.push(("derived", J::B(true)));
                }
            } else if matches!(tcx.def_kind(p), DefKind::Trait) {
                o.push(("in_trait", s(path(tcx, p))));
            }
        }
        if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
            o.push(("pub", J::B(tcx.visibility(def).is_public())));
            o.push(("item", s(tcx.item_name(def).to_string())));
            let g = tcx.generics_of(def);
            let mut gs = Vec::new();
            let args = ty::GenericArgs::identity_for_item(tcx, def);
            let _ = g;
            for t in args.types() {
                gs.push(n(self.ty(t)));
            }
            o.push(("generics", J::A(gs)));
            let sig = tcx.fn_sig(def).instantiate_identity().skip_norm_wip();
            o.push(("unsafe", J::B(!sig.skip_binder().fn_sig_kind.is_safe())));
        }
        J::O(o)
    }
}

struct UnsafeFinder<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<rustc_span::Span>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeFinder<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.found.push(b.span);
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(dir) = std::env::var("VF_OUT") else { return Compilation::Continue };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let cx = Cx { tcx, tys: Default::default(), adts: Default::default() };
        let mut bodies = Vec::new();
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if tcx.is_constructor(d) {
                        continue;
                    }
                    let b = tcx.optimized_mir(d);
                    bodies.push(cx.body(path(tcx, d), d, b));
                    for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                        bodies.push(cx.body(format!("{}::promoted[{}]", path(tcx, d), i.as_usize()), d, p));
                    }
                }
                DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => {
                    if kind == DefKind::AssocFn { continue; }
                    let b = tcx.mir_for_ctfe(d);
                    bodies.push(cx.body(path(tcx, d), d, b));
                    for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                        bodies.push(cx.body(format!("{}::promoted[{}]", path(tcx, d), i.as_usize()), d, p));
                    }
                }
                _ => {}
            }
        }
        let mut impls = Vec::new();
        let mut statics = Vec::new();
        let mut traits = Vec::new();
        for id in tcx.hir_free_items() {
            let d = id.owner_id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let tr = tcx.impl_opt_trait_ref(d).map(|t| path(tcx, t.skip_binder().def_id));
                    let items = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .filter(|i| matches!(i.kind, ty::AssocKind::Fn { .. }))
                        .map(|i| J::A(vec![s(i.name().to_string()), s(path(tcx, i.def_id))]))
                        .collect();
                    impls.push(J::O(vec![
                        ("self", n(cx.ty(st))),
                        ("trait", tr.map(s).unwrap_or(J::Null)),
                        ("derived", J::B(tcx.is_automatically_derived(d))),
                        ("items", J::A(items)),
                        ("loc", cx.loc(tcx.def_span(d))),
                    ]));
                }
                DefKind::Trait => {
                    let items = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .filter(|i| matches!(i.kind, ty::AssocKind::Fn { .. }))
                        .map(|i| {
                            J::A(vec![
                                s(i.name().to_string()),
                                s(path(tcx, i.def_id)),
                                J::B(i.defaultness(tcx).has_value()),
                            ])
                        })
                        .collect();
                    traits.push(J::O(vec![("path", s(path(tcx, d))), ("items", J::A(items))]));
                }
                DefKind::Static { mutability, .. } => statics.push(J::O(vec![
                    ("path", s(path(tcx, d))),
                    ("mut", J::B(mutability.is_mut())),
                    ("ty", n(cx.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip()))),
                    ("loc", cx.loc(tcx.def_span(d))),
                ])),
                DefKind::Struct | DefKind::Enum | DefKind::Union => cx.adt(tcx.adt_def(d)),
                _ => {}
            }
        }
        let mut uf = UnsafeFinder { tcx, found: vec![] };
        tcx.hir_visit_all_item_likes_in_crate(&mut uf);
        let unsafes = uf.found.iter().map(|x| cx.loc(*x)).collect();
        let mut adts = Vec::new();
        for (_, v) in std::mem::take(&mut *cx.adts.borrow_mut()) {
            adts.push(v);
        }
        let tys = std::mem::take(&mut cx.tys.borrow_mut().1);
        let out = J::O(vec![
            ("crate", s(krate.clone())),
            ("bodies", J::A(bodies)),
            ("types", J::A(tys)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("traits", J::A(traits)),
            ("statics", J::A(statics)),
            ("unsafe", J::A(unsafes)),
        ]);
        let mut o = String::new();
        out.w(&mut o);
        let kind = if tcx.entry_fn(()).is_some() { "bin" } else { "lib" };
        std::fs::write(format!("{dir}/{krate}.{kind}.json"), o).unwrap();
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    let mut args: Vec<String> = std::env::args().collect();
    let real = args.remove(1);
    let primary = std::env::var("CARGO_PRIMARY_PACKAGE").is_ok();
    if !primary || std::env::var("VF_OUT").is_err() {
        let st = std::process::Command::new(&real).args(&args[1..]).status().expect("rustc");
        return std::process::ExitCode::from(st.code().unwrap_or(101) as u8);
    }
    args[0] = real;
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    args.push("-Cdebug-assertions=off".into());
    args.push("-Coverflow-checks=off".into());
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
