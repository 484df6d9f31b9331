//! A rustc driver which writes facts about a crate: the MIR of every body before drop elaboration
//! and before the coroutine transform, types, trait impls, and selected bodies of other crates.
//!
//! Used as `RUSTC_WORKSPACE_WRAPPER`: `mir-facts <rustc> <args..>`. It dumps facts only for the
//! crate named by `MIR_FACTS_CRATE`, into the file `MIR_FACTS_OUT`, and otherwise is plain rustc.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;

use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};

use json::J;
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::{DesugaringKind, ExpnKind, Span};

struct Dump {
    out: String,
}

impl rustc_driver::Callbacks for Dump {
    fn after_expansion<'tcx>(
        &mut self,
        _: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let mut cx = Cx::new(tcx);
        let facts = cx.run();
        let mut s = String::new();
        facts.write(&mut s);
        std::fs::write(&self.out, s).expect("cannot write facts");
        Compilation::Continue
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, J>,
    adt_queue: VecDeque<DefId>,
    adt_seen: BTreeSet<String>,
    ext_queue: VecDeque<DefId>,
    ext_seen: HashMap<DefId, ()>,
    generics_seen: BTreeMap<String, J>,
    prefixes: Vec<String>,
    register: bool,
}

macro_rules! path {
    ($e:expr) => {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(
            ty::print::with_resolve_crate_name!($e)
        ))
    };
}

fn s(x: impl Into<String>) -> J {
    J::Str(x.into())
}

impl<'tcx> Cx<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        let prefixes = std::env::var("MIR_FACTS_EXTERN").unwrap_or_default();
        Cx {
            tcx,
            adts: BTreeMap::new(),
            adt_queue: VecDeque::new(),
            adt_seen: BTreeSet::new(),
            ext_queue: VecDeque::new(),
            ext_seen: HashMap::new(),
            generics_seen: BTreeMap::new(),
            prefixes: prefixes
                .split(',')
                .filter(|p| !p.is_empty())
                .map(|p| p.to_string())
                .collect(),
            register: true,
        }
    }

    fn key(&self, def: DefId) -> String {
        format!("{}:{}", def.krate.as_u32(), def.index.as_u32())
    }

    fn path(&self, def: DefId) -> String {
        let p: String = path!(self.tcx.def_path_str(def));
        // Two types of one function may have the same name.
        if def.is_local() && matches!(self.tcx.def_kind(def), DefKind::Struct | DefKind::Enum) {
            let n = self.tcx.def_path(def).data.last().map_or(0, |d| d.disambiguator);
            if n > 0 {
                return format!("{p}#{n}");
            }
        }
        p
    }

    fn span(&self, span: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = span.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let file = format!("{}", lo.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", file, lo.line))
    }

    /// Which crates' macros, and which desugarings, this span comes from.
    fn expansion(&self, span: Span) -> J {
        let mut out = Vec::new();
        for e in span.macro_backtrace() {
            if let Some(def) = e.macro_def_id {
                out.push(format!(
                    "{}::{}",
                    self.tcx.crate_name(def.krate),
                    self.tcx.opt_item_name(def).map(|n| n.to_string()).unwrap_or_default()
                ));
            }
        }
        let mut ctxt = span.ctxt();
        while !ctxt.is_root() {
            let data = ctxt.outer_expn_data();
            if let ExpnKind::Desugaring(d) = data.kind {
                out.push(format!("desugar:{}", if d == DesugaringKind::Await { "await".into() } else { format!("{d:?}") }));
            }
            ctxt = data.call_site.ctxt();
        }
        J::Arr(out.into_iter().map(s).collect())
    }

    fn generics(&mut self, def: DefId) {
        let key = self.key(def);
        if self.generics_seen.contains_key(&key) {
            return;
        }
        let mut def = def;
        while self.tcx.is_typeck_child(def) {
            def = self.tcx.parent(def);
        }
        let mut names = Vec::new();
        let g = self.tcx.generics_of(def);
        for i in 0..g.count() {
            let p = g.param_at(i, self.tcx);
            if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                names.push(s(p.name.to_string()));
            }
        }
        self.generics_seen.insert(key, J::Arr(names));
    }

    fn args(&mut self, args: GenericArgsRef<'tcx>) -> J {
        let mut out = Vec::new();
        for a in args.iter() {
            match a.kind() {
                ty::GenericArgKind::Type(t) => out.push(self.ty(t)),
                ty::GenericArgKind::Const(c) => {
                    out.push(J::Arr(vec![s("constarg"), s(path!(format!("{c}")))]))
                }
                ty::GenericArgKind::Lifetime(_) => {}
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        J::Arr(out)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        J::Arr(match *t.kind() {
            ty::Bool => vec![s("bool")],
            ty::Char => vec![s("char")],
            ty::Str => vec![s("str")],
            ty::Never => vec![s("never")],
            ty::Int(i) => vec![s("int"), s(i.name_str())],
            ty::Uint(i) => vec![s("int"), s(i.name_str())],
            ty::Float(f) => vec![s("float"), s(f.name_str())],
            ty::Adt(def, args) => {
                let did = def.did();
                if self.register {
                    self.adt_queue.push_back(did);
                }
                vec![s("adt"), s(self.path(did)), self.args(args)]
            }
            ty::Array(t, n) => vec![s("array"), self.ty(t), s(path!(format!("{n}")))],
            ty::Slice(t) => vec![s("slice"), self.ty(t)],
            ty::RawPtr(t, m) => vec![s("ptr"), s(m.prefix_str().trim()), self.ty(t)],
            ty::Ref(_, t, m) => vec![s("ref"), s(m.prefix_str().trim()), self.ty(t)],
            ty::FnDef(def, args) => {
                let args = args.skip_binder();
                self.generics(def);
                vec![s("fndef"), s(self.path(def)), s(self.key(def)), self.args(args)]
            }
            ty::FnPtr(..) => vec![s("fnptr"), s(path!(format!("{t}")))],
            ty::Closure(def, args) => {
                let parent = tcx.mk_args(args.as_closure().parent_args());
                self.generics(def);
                vec![s("closure"), s(self.path(def)), s(self.key(def)), self.args(parent)]
            }
            ty::Coroutine(def, args) => {
                let parent = tcx.mk_args(args.as_coroutine().parent_args());
                self.generics(def);
                vec![s("coroutine"), s(self.path(def)), s(self.key(def)), self.args(parent)]
            }
            ty::Tuple(ts) => {
                let ts = ts.iter().map(|t| self.ty(t)).collect();
                vec![s("tuple"), J::Arr(ts)]
            }
            ty::Param(p) => vec![s("param"), s(p.name.to_string())],
            ty::Alias(_, a) => {
                let def: DefId = alias_def(a.kind);
                vec![s("alias"), s(self.path(def)), s(self.key(def)), self.args(a.args)]
            }
            ty::Dynamic(preds, _) => {
                let p = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                vec![s("dyn"), s(p), s(path!(format!("{t}")))]
            }
            _ => vec![s("other"), s(path!(format!("{t}")))],
        })
    }

    fn adt(&mut self, def: DefId) {
        let path = self.path(def);
        if !self.adt_seen.insert(path.clone()) {
            return;
        }
        let tcx = self.tcx;
        let adt = tcx.adt_def(def);
        let old = self.register;
        self.register = def.is_local();
        let mut variants = Vec::new();
        for (idx, v) in adt.variants().iter_enumerated() {
            let discr = if adt.is_enum() {
                J::Num(format!("{}", adt.discriminant_for_variant(tcx, idx).val))
            } else {
                J::Null
            };
            let fields = v
                .fields
                .iter()
                .map(|f| {
                    let fty = self.ty(tcx.type_of(f.did).skip_binder());
                    J::Arr(vec![s(f.name.to_string()), fty, J::Bool(tcx.visibility(f.did).is_public())])
                })
                .collect();
            variants.push(J::Obj(vec![
                ("name", s(v.name.to_string())),
                ("discr", discr),
                ("fields", J::Arr(fields)),
            ]));
        }
        self.register = old;
        let mut names = Vec::new();
        for p in &tcx.generics_of(def).own_params {
            if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                names.push(s(p.name.to_string()));
            }
        }
        let kind = if adt.is_enum() { "enum" } else if adt.is_union() { "union" } else { "struct" };
        let repr = if adt.is_enum() {
            s(format!("{:?}", adt.repr().int))
        } else {
            J::Null
        };
        self.adts.insert(
            path,
            J::Obj(vec![
                ("kind", s(kind)),
                ("local", J::Bool(def.is_local())),
                ("generics", J::Arr(names)),
                ("variants", J::Arr(variants)),
                ("repr", repr),
                ("span", if def.is_local() { self.span(tcx.def_span(def)) } else { J::Null }),
            ]),
        );
    }

    fn bytes_of(&self, alloc: rustc_middle::mir::interpret::AllocId, off: usize, len: Option<usize>) -> Option<Vec<u8>> {
        use rustc_middle::mir::interpret::GlobalAlloc;
        match self.tcx.try_get_global_alloc(alloc)? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let end = match len {
                    Some(l) => off + l,
                    None => a.len(),
                };
                if end > a.len() || !a.provenance().ptrs().is_empty() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..end).to_vec())
            }
            _ => None,
        }
    }

    fn const_value(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<J> {
        use rustc_middle::mir::interpret::Scalar;
        let peeled = match *t.kind() {
            ty::Ref(_, inner, _) => Some(inner),
            _ => None,
        };
        Some(match v {
            ConstValue::ZeroSized => J::Arr(vec![s("zst")]),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let size = i.size();
                let num = match *t.kind() {
                    ty::Int(_) => format!("{}", i.to_int(size)),
                    _ => format!("{}", i.to_uint(size)),
                };
                J::Arr(vec![s("int"), J::Num(num)])
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let global = self.tcx.try_get_global_alloc(prov.alloc_id());
                if let Some(rustc_middle::mir::interpret::GlobalAlloc::Static(did)) = global {
                    // Memory that never changes is as good as a constant.
                    let env = TypingEnv::fully_monomorphized();
                    let st = self.tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let frozen = off.bytes() == 0
                        && !self.tcx.is_mutable_static(did)
                        && !self.tcx.is_thread_local_static(did)
                        && st.is_freeze(self.tcx, env);
                    return Some(J::Arr(vec![
                        s("static"),
                        s(self.path(did)),
                        s(self.key(did)),
                        J::Bool(frozen),
                    ]));
                }
                let inner = peeled?;
                if let ty::Array(e, _) = *inner.kind() {
                    if e == self.tcx.types.u8 {
                        let b = self.bytes_of(prov.alloc_id(), off.bytes_usize(), None)?;
                        return Some(J::Arr(vec![
                            s("bytes"),
                            J::Arr(b.into_iter().map(|b| J::Num(b.to_string())).collect()),
                        ]));
                    }
                }
                return None;
            }
            ConstValue::Slice { alloc_id, meta } => {
                let b = self.bytes_of(alloc_id, 0, Some(meta as usize))?;
                if peeled.is_some_and(|i| i.is_str()) {
                    J::Arr(vec![s("str"), s(String::from_utf8(b).ok()?)])
                } else {
                    J::Arr(vec![
                        s("bytes"),
                        J::Arr(b.into_iter().map(|b| J::Num(b.to_string())).collect()),
                    ])
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                // A constant `&str` or integer array may be stored in memory.
                if let ty::Array(e, _) = *t.kind() {
                    if e == self.tcx.types.u8 {
                        let b = self.bytes_of(alloc_id, offset.bytes_usize(), None)?;
                        return Some(J::Arr(vec![
                            s("bytes"),
                            J::Arr(b.into_iter().map(|b| J::Num(b.to_string())).collect()),
                        ]));
                    }
                }
                if let Some(inner) = peeled {
                    let text = inner.is_str();
                    if text || matches!(*inner.kind(), ty::Slice(e) if e == self.tcx.types.u8) {
                        let b = v.try_get_slice_bytes_for_diagnostics(self.tcx)?.to_vec();
                        return Some(J::Arr(if text {
                            vec![s("str"), s(String::from_utf8(b).ok()?)]
                        } else {
                            vec![
                                s("bytes"),
                                J::Arr(b.into_iter().map(|b| J::Num(b.to_string())).collect()),
                            ]
                        }));
                    }
                }
                // Enum or struct constants: destructure when possible.
                return self.destructure(v, t);
            }
        })
    }

    fn destructure(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<J> {
        match t.kind() {
            ty::Adt(d, _) if !d.is_union() => {}
            ty::Tuple(_) => {}
            _ => return None,
        }
        let d = self.tcx.try_destructure_mir_constant_for_user_output(v, t)?;
        let fields: Vec<J> = d
            .fields
            .iter()
            .map(|(v, t)| {
                let ty = self.ty(*t);
                let v = self.const_value(*v, *t).unwrap_or(J::Null);
                J::Arr(vec![v, ty])
            })
            .collect();
        let variant = d.variant.map(|v| J::Num(v.as_u32().to_string())).unwrap_or(J::Null);
        Some(J::Arr(vec![s("destruct"), variant, J::Arr(fields)]))
    }

    fn konst(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let tj = self.ty(t);
        let mut f = vec![("ty", tj)];
        if let ty::FnDef(def, args) = *t.kind() {
            let args = args.skip_binder();
            f.push(("fn", self.callee(env, def, args)));
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            f.push(("def", s(self.path(u.def))));
            f.push(("key", s(self.key(u.def))));
            f.push(("args", self.args(u.args)));
            if let Some(p) = u.promoted {
                f.push(("promoted", J::Num(p.as_u32().to_string())));
            }
        }
        let skip = matches!(c.const_, Const::Unevaluated(u, _) if u.promoted.is_some());
        if !skip {
            let v = match c.const_ {
                Const::Unevaluated(..) | Const::Ty(..)
                    if ty::TypeVisitableExt::has_param(&c.const_) =>
                {
                    None
                }
                _ => c.const_.eval(self.tcx, env, c.span).ok(),
            };
            if let Some(v) = v {
                let v = if t.is_enum() || t.ty_adt_def().is_some_and(|d| d.is_struct()) || matches!(t.kind(), ty::Tuple(l) if l.len() > 0) {
                    self.destructure(v, t).or_else(|| self.const_value(v, t))
                } else {
                    self.const_value(v, t)
                };
                if let Some(v) = v {
                    f.push(("val", v));
                }
            }
        }
        J::Obj(f)
    }

    fn callee(&mut self, env: TypingEnv<'tcx>, def: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        self.generics(def);
        let mut f = vec![
            ("path", s(self.path(def))),
            ("key", s(self.key(def))),
            ("args", self.args(args)),
        ];
        if let Some(tr) = tcx.trait_of_assoc(def) {
            f.push(("trait", s(self.path(tr))));
            f.push(("name", s(tcx.item_name(def).to_string())));
        }
        if let Some(i) = tcx.intrinsic(def) {
            f.push(("intrinsic", s(i.name.to_string())));
        }
        let kind = tcx.def_kind(def);
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let eargs = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, def, eargs) {
                let d = inst.def_id();
                let k = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Shim(ty::ShimKind::Clone(..)) => "clone_shim",
                    InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptr_shim",
                    InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closure_once",
                    _ => "shim",
                };
                self.generics(d);
                let is_closure = tcx.is_closure_like(d);
                let rargs = if is_closure {
                    J::Arr(vec![])
                } else {
                    self.args(inst.args)
                };
                f.push((
                    "res",
                    J::Obj(vec![
                        ("path", s(self.path(d))),
                        ("key", s(self.key(d))),
                        ("kind", s(k)),
                        ("args", rargs),
                        ("closure", J::Bool(is_closure)),
                    ]),
                ));
                if k == "item" {
                    self.want(d);
                }
            } else {
                self.want(def);
            }
        }
        J::Obj(f)
    }

    /// Queues the body of a function of another crate.
    fn want(&mut self, def: DefId) {
        if def.is_local() || self.ext_seen.contains_key(&def) {
            return;
        }
        let p = self.path(def);
        if self.prefixes.iter().any(|x| p.starts_with(x.as_str()) || p.contains(&format!("<{x}")) || p.contains(&format!(" {x}"))) {
            self.ext_seen.insert(def, ());
            self.ext_queue.push_back(def);
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut proj = Vec::new();
        for e in p.projection.iter() {
            proj.push(J::Arr(match e {
                ProjectionElem::Deref => vec![s("deref")],
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(t);
                    vec![s("field"), J::Num(i.as_u32().to_string()), t]
                }
                ProjectionElem::Index(l) => vec![s("index"), J::Num(l.as_u32().to_string())],
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => vec![
                    s("cindex"),
                    J::Num(offset.to_string()),
                    J::Bool(from_end),
                    J::Num(min_length.to_string()),
                ],
                ProjectionElem::Subslice { from, to, from_end } => vec![
                    s("subslice"),
                    J::Num(from.to_string()),
                    J::Num(to.to_string()),
                    J::Bool(from_end),
                ],
                ProjectionElem::Downcast(_, v) => {
                    vec![s("downcast"), J::Num(v.as_u32().to_string())]
                }
                _ => vec![s("opaque")],
            }));
        }
        J::Arr(vec![J::Num(p.local.as_u32().to_string()), J::Arr(proj)])
    }

    fn operand(&mut self, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::Arr(vec![s("copy"), self.place(p)]),
            Operand::Move(p) => J::Arr(vec![s("move"), self.place(p)]),
            Operand::Constant(c) => J::Arr(vec![s("const"), self.konst(env, c)]),
            #[allow(unreachable_patterns)]
            o => J::Arr(vec![s("runtime"), s(format!("{o:?}"))]),
        }
    }

    fn rvalue(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        J::Arr(match r {
            Rvalue::Use(o, ..) => vec![s("use"), self.operand(env, o)],
            Rvalue::Repeat(o, n) => {
                vec![s("repeat"), self.operand(env, o), s(path!(format!("{n}")))]
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                vec![s("ref"), J::Bool(m), self.place(p)]
            }
            Rvalue::RawPtr(k, p) => {
                vec![s("rawptr"), J::Bool(matches!(k, RawPtrKind::Mut)), self.place(p)]
            }
            Rvalue::Cast(k, o, t) => {
                vec![s("cast"), s(format!("{k:?}")), self.operand(env, o), self.ty(*t)]
            }
            Rvalue::BinaryOp(op, b) => vec![
                s("bin"),
                s(format!("{op:?}")),
                self.operand(env, &b.0),
                self.operand(env, &b.1),
            ],
            Rvalue::UnaryOp(op, o) => vec![s("un"), s(format!("{op:?}")), self.operand(env, o)],
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                vec![s("discr"), self.place(p), self.ty(t)]
            }
            Rvalue::Aggregate(k, ops) => {
                let kj = match **k {
                    AggregateKind::Array(t) => J::Arr(vec![s("array"), self.ty(t)]),
                    AggregateKind::Tuple => J::Arr(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, args, _, active) => {
                        self.adt_queue.push_back(d);
                        J::Arr(vec![
                            s("adt"),
                            s(self.path(d)),
                            J::Num(v.as_u32().to_string()),
                            self.args(args),
                            active.map(|a| J::Num(a.as_u32().to_string())).unwrap_or(J::Null),
                        ])
                    }
                    AggregateKind::Closure(d, args) => {
                        let parent = self.tcx.mk_args(args.as_closure().parent_args());
                        J::Arr(vec![s("closure"), s(self.path(d)), s(self.key(d)), self.args(parent)])
                    }
                    AggregateKind::Coroutine(d, args) => {
                        let parent = self.tcx.mk_args(args.as_coroutine().parent_args());
                        J::Arr(vec![s("coroutine"), s(self.path(d)), s(self.key(d)), self.args(parent)])
                    }
                    _ => J::Arr(vec![s("other"), s(format!("{k:?}"))]),
                };
                let ops = ops.iter().map(|o| self.operand(env, o)).collect();
                vec![s("agg"), kj, J::Arr(ops)]
            }
            Rvalue::CopyForDeref(p) => vec![s("use"), J::Arr(vec![s("copy"), self.place(p)])],
            Rvalue::Reborrow(_, _, p) => vec![s("use"), J::Arr(vec![s("copy"), self.place(p)])],
            r => vec![s("other"), s(format!("{r:?}"))],
        })
    }

    fn body(&mut self, def: DefId, promoted: Option<u32>, body: &Body<'tcx>, optimized: bool) -> J {
        let tcx = self.tcx;
        let env = if optimized {
            TypingEnv::post_analysis(tcx, def)
        } else {
            TypingEnv::non_body_analysis(tcx, def)
        };
        self.generics(def);
        let locals = body
            .local_decls
            .iter()
            .map(|d| {
                let t = self.ty(d.ty);
                t
            })
            .collect();
        let mut names = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let pj = self.place(&p);
                names.push(J::Arr(vec![s(v.name.to_string()), pj]));
            }
        }
        let mut blocks = Vec::new();
        for b in body.basic_blocks.iter() {
            let mut stmts = Vec::new();
            for st in &b.statements {
                match &st.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(&x.0);
                        let r = self.rvalue(env, body, &x.1);
                        stmts.push(J::Arr(vec![s("assign"), p, r, self.span(st.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        stmts.push(J::Arr(vec![
                            s("setdiscr"),
                            p,
                            J::Num(variant_index.as_u32().to_string()),
                        ]));
                    }
                    StatementKind::StorageDead(l) => {
                        stmts.push(J::Arr(vec![s("dead"), J::Num(l.as_u32().to_string())]));
                    }
                    StatementKind::StorageLive(l) => {
                        stmts.push(J::Arr(vec![s("live"), J::Num(l.as_u32().to_string())]));
                    }
                    StatementKind::Intrinsic(i) => {
                        stmts.push(J::Arr(vec![s("intrinsic"), s(format!("{i:?}"))]));
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let bb = |b: BasicBlock| J::Num(b.as_u32().to_string());
            let unwind = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => J::Num(b.as_u32().to_string()),
                _ => J::Null,
            };
            let mut f: Vec<(&'static str, J)> = Vec::new();
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    f.push(("k", s("goto")));
                    f.push(("t", bb(*target)));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    f.push(("k", s("switch")));
                    f.push(("op", self.operand(env, discr)));
                    let dt = discr.ty(&body.local_decls, tcx);
                    f.push(("ty", self.ty(dt)));
                    let cases = targets
                        .iter()
                        .map(|(v, b)| {
                            let num = match *dt.kind() {
                                ty::Int(it) => {
                                    let bits = it.bit_width().unwrap_or(64);
                                    let shift = 128 - bits;
                                    format!("{}", ((v << shift) as i128) >> shift)
                                }
                                _ => format!("{v}"),
                            };
                            J::Arr(vec![J::Num(num), bb(b)])
                        })
                        .collect();
                    f.push(("cases", J::Arr(cases)));
                    f.push(("otherwise", bb(targets.otherwise())));
                }
                TerminatorKind::UnwindResume => f.push(("k", s("resume"))),
                TerminatorKind::UnwindTerminate(_) => f.push(("k", s("abort"))),
                TerminatorKind::Return => f.push(("k", s("return"))),
                TerminatorKind::Unreachable => f.push(("k", s("unreachable"))),
                TerminatorKind::Drop { place, target, unwind: u, replace, .. } => {
                    f.push(("k", s("drop")));
                    f.push(("place", self.place(place)));
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    f.push(("ty", self.ty(pt)));
                    f.push(("t", bb(*target)));
                    f.push(("u", unwind(u)));
                    f.push(("replace", J::Bool(*replace)));
                }
                TerminatorKind::Call { func, args, destination, target, unwind: u, .. } => {
                    f.push(("k", s("call")));
                    f.push(("func", self.operand(env, func)));
                    let a = args.iter().map(|a| self.operand(env, &a.node)).collect();
                    f.push(("args", J::Arr(a)));
                    f.push(("dest", self.place(destination)));
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    f.push(("dty", self.ty(dt)));
                    f.push(("t", target.map(bb).unwrap_or(J::Null)));
                    f.push(("u", unwind(u)));
                }
                TerminatorKind::TailCall { .. } => f.push(("k", s("tailcall"))),
                TerminatorKind::Assert { cond, expected, msg, target, unwind: u } => {
                    f.push(("k", s("assert")));
                    f.push(("cond", self.operand(env, cond)));
                    f.push(("expected", J::Bool(*expected)));
                    let (m, ops): (&str, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds", vec![len, index]),
                        AssertKind::Overflow(_, a, b) => ("overflow", vec![a, b]),
                        AssertKind::OverflowNeg(a) => ("overflow", vec![a]),
                        AssertKind::DivisionByZero(a) => ("div0", vec![a]),
                        AssertKind::RemainderByZero(a) => ("div0", vec![a]),
                        _ => ("other", vec![]),
                    };
                    f.push(("msg", s(m)));
                    let ops = ops.into_iter().map(|o| self.operand(env, o)).collect();
                    f.push(("ops", J::Arr(ops)));
                    f.push(("t", bb(*target)));
                    f.push(("u", unwind(u)));
                }
                TerminatorKind::Yield { value, resume, resume_arg, drop } => {
                    f.push(("k", s("yield")));
                    f.push(("value", self.operand(env, value)));
                    f.push(("t", bb(*resume)));
                    f.push(("arg", self.place(resume_arg)));
                    f.push(("drop", drop.map(bb).unwrap_or(J::Null)));
                }
                TerminatorKind::CoroutineDrop => f.push(("k", s("codrop"))),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    f.push(("k", s("goto")));
                    f.push(("t", bb(*real_target)));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    f.push(("k", s("goto")));
                    f.push(("t", bb(*real_target)));
                }
                TerminatorKind::InlineAsm { .. } => f.push(("k", s("asm"))),
            }
            f.push(("sp", self.span(t.source_info.span)));
            let exp = self.expansion(t.source_info.span);
            if let J::Arr(ref a) = exp {
                if !a.is_empty() {
                    f.push(("exp", exp));
                }
            }
            blocks.push(J::Obj(vec![
                ("s", J::Arr(stmts)),
                ("t", J::Obj(f)),
                ("c", J::Bool(b.is_cleanup)),
            ]));
        }
        let mut out = vec![
            ("path", s(self.path(def))),
            ("key", s(self.key(def))),
            ("kind", s(format!("{:?}", tcx.def_kind(def)))),
            ("local", J::Bool(def.is_local())),
            ("argc", J::Num(body.arg_count.to_string())),
            ("spread", body.spread_arg.map(|l| J::Num(l.as_u32().to_string())).unwrap_or(J::Null)),
            ("locals", J::Arr(locals)),
            ("names", J::Arr(names)),
            ("span", self.span(body.span)),
            ("blocks", J::Arr(blocks)),
        ];
        if let Some(p) = promoted {
            out.push(("promoted", J::Num(p.to_string())));
        }
        let dk = tcx.def_kind(def);
        if let DefKind::Static { .. } = dk {
            let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
            let frozen = !tcx.is_mutable_static(def)
                && !tcx.is_thread_local_static(def)
                && t.is_freeze(tcx, TypingEnv::fully_monomorphized());
            out.push(("frozen", J::Bool(frozen)));
        }
        if let Some(parent) = tcx.opt_parent(def) {
            out.push(("parent", s(self.key(parent))));
            out.push(("parent_path", s(self.path(parent))));
        }
        if let Some(k) = tcx.coroutine_kind(def) {
            out.push(("coroutine", s(format!("{k:?}"))));
        }
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            out.push(("name", s(tcx.item_name(def).to_string())));
            out.push(("public", J::Bool(tcx.visibility(def).is_public())));
            if def.is_local() && promoted.is_none() {
                out.push((
                    "reachable",
                    J::Bool(tcx.effective_visibilities(()).is_exported(def.expect_local())),
                ));
            }
            if let Some(i) = tcx.impl_of_assoc(def) {
                let t = self.ty(tcx.type_of(i).skip_binder());
                out.push(("impl_self", t));
                out.push(("impl", s(self.key(i))));
                if let Some(tr) = tcx.impl_opt_trait_ref(i) {
                    out.push(("impl_trait", s(self.path(tr.skip_binder().def_id))));
                }
            }
            if let Some(t) = tcx.trait_of_assoc(def) {
                out.push(("in_trait", s(self.path(t))));
            }
        }
        J::Obj(out)
    }

    fn impls(&mut self) -> J {
        let tcx = self.tcx;
        let mut out = Vec::new();
        for tr in tcx.all_traits_including_private() {
            let path = self.path(tr);
            let extern_wanted = matches!(
                path.as_str(),
                "lsp_types::request::Request" | "lsp_types::notification::Notification"
            );
            for i in tcx.all_impls(tr) {
                if !(i.is_local() || extern_wanted) {
                    continue;
                }
                self.register = i.is_local();
                self.generics(i);
                let trait_ref = tcx.impl_trait_ref(i).skip_binder();
                let self_ty = self.ty(trait_ref.self_ty());
                let targs = self.args(trait_ref.args);
                let mut items = Vec::new();
                for it in tcx.associated_items(i).in_definition_order() {
                    let name = it.opt_name().map(|n| n.to_string()).unwrap_or_else(|| "<returned>".into());
                    let mut f = vec![("name", s(name)), ("key", s(self.key(it.def_id)))];
                    match it.kind {
                        ty::AssocKind::Type { .. } => {
                            let t = self.ty(tcx.type_of(it.def_id).skip_binder());
                            f.push(("kind", s("type")));
                            f.push(("ty", t));
                        }
                        ty::AssocKind::Const { .. } => {
                            f.push(("kind", s("const")));
                            if let Ok(v) = tcx.const_eval_poly(it.def_id) {
                                let t = tcx.type_of(it.def_id).skip_binder();
                                if let Some(v) = self.const_value(v, t) {
                                    f.push(("val", v));
                                }
                            }
                        }
                        ty::AssocKind::Fn { .. } => {
                            f.push(("kind", s("fn")));
                        }
                    }
                    items.push(J::Obj(f));
                }
                let mut preds = Vec::new();
                for (p, _) in tcx.clauses_of(i).clauses {
                    preds.push(s(path!(format!("{p}"))));
                }
                out.push(J::Obj(vec![
                    ("trait", s(path.clone())),
                    ("key", s(self.key(i))),
                    ("self", self_ty),
                    ("args", targs),
                    ("items", J::Arr(items)),
                    ("preds", J::Arr(preds)),
                    ("span", self.span(tcx.def_span(i))),
                ]));
            }
        }
        self.register = true;
        J::Arr(out)
    }

    /// The provided and required items of local traits.
    fn traits(&mut self) -> J {
        let tcx = self.tcx;
        let mut out = Vec::new();
        for tr in tcx.all_traits_including_private() {
            if !tr.is_local() {
                continue;
            }
            let mut items = Vec::new();
            for it in tcx.associated_items(tr).in_definition_order() {
                let mut f = vec![
                    ("name", s(it.opt_name().map(|n| n.to_string()).unwrap_or_else(|| "<returned>".into()))),
                    ("key", s(self.key(it.def_id))),
                    ("default", J::Bool(it.defaultness(tcx).has_value())),
                ];
                if matches!(it.kind, ty::AssocKind::Fn { .. }) {
                    let sig = tcx.fn_sig(it.def_id).skip_binder().skip_binder();
                    let ins: Vec<J> = sig.inputs().iter().map(|t| self.ty(*t)).collect();
                    let o = self.ty(sig.output());
                    f.push(("inputs", J::Arr(ins)));
                    f.push(("output", o));
                    // For `async_trait` methods: the text of the boxed future's output.
                    f.push(("output_str", s(path!(format!("{}", sig.output())))));
                }
                items.push(J::Obj(f));
            }
            out.push(J::Obj(vec![("path", s(self.path(tr))), ("items", J::Arr(items))]));
        }
        J::Arr(out)
    }

    /// Public inherent functions and their signatures.
    fn signatures(&mut self) -> J {
        let tcx = self.tcx;
        let mut out = Vec::new();
        for def in tcx.hir_body_owners() {
            let did = def.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let sig = tcx.fn_sig(did).skip_binder().skip_binder();
            let ins: Vec<J> = sig.inputs().iter().map(|t| self.ty(*t)).collect();
            let o = self.ty(sig.output());
            let mut preds = Vec::new();
            let mut cur = Some(did);
            while let Some(d) = cur {
                let p = tcx.clauses_of(d);
                for (p, _) in p.clauses {
                    preds.push(s(path!(format!("{p}"))));
                }
                cur = p.parent;
            }
            let mut f = vec![
                ("path", s(self.path(did))),
                ("key", s(self.key(did))),
                ("inputs", J::Arr(ins)),
                ("output", o),
                ("output_str", s(path!(format!("{}", sig.output())))),
                ("preds", J::Arr(preds)),
                ("async", J::Bool(tcx.asyncness(did).is_async())),
            ];
            // What the returned future resolves to.
            if let ty::Alias(_, a) = *sig.output().kind() {
                if matches!(a.kind, ty::AliasTyKind::Opaque { .. }) {
                    let def_id: DefId = alias_def(a.kind);
                    let mut bounds = Vec::new();
                    for b in tcx.explicit_item_bounds(def_id).skip_binder() {
                        if let ty::ClauseKind::Projection(p) = b.0.kind().skip_binder() {
                            if let Some(t) = p.term.as_type() {
                                bounds.push(self.ty(t));
                            }
                        }
                    }
                    f.push(("resolves_to", J::Arr(bounds)));
                }
            }
            out.push(J::Obj(f));
        }
        J::Arr(out)
    }

    fn run(&mut self) -> J {
        let tcx = self.tcx;
        let mut owners: Vec<_> = tcx.hir_body_owners().collect();
        // Constants come first: building a body evaluates the constants in its patterns and types.
        owners.sort_by_key(|d| {
            matches!(tcx.def_kind(*d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure)
        });
        // Copy all bodies first: the queries made below may steal them.
        let mut copies = Vec::new();
        for &def in &owners {
            if matches!(tcx.def_kind(def), DefKind::AnonConst | DefKind::GlobalAsm) {
                continue;
            }
            let (body, promoted) = tcx.mir_promoted(def);
            let did = def.to_def_id();
            if body.is_stolen() || promoted.is_stolen() {
                // It was evaluated at compile time: what was evaluated is kept.
                copies.push((did, tcx.mir_for_ctfe(did).clone(), tcx.promoted_mir(did).clone()));
                continue;
            }
            let b = body.borrow().clone();
            let p = promoted.borrow().clone();
            copies.push((did, b, p));
        }
        let mut bodies = Vec::new();
        for (def, b, ps) in &copies {
            bodies.push(self.body(*def, None, b, false));
            for (i, p) in ps.iter_enumerated() {
                bodies.push(self.body(*def, Some(i.as_u32()), p, false));
            }
        }
        let impls = self.impls();
        let traits = self.traits();
        let sigs = self.signatures();
        while let Some(def) = self.ext_queue.pop_front() {
            if !tcx.is_mir_available(def) {
                continue;
            }
            let b = tcx.optimized_mir(def);
            let j = self.body(def, None, b, true);
            bodies.push(j);
            for (i, p) in tcx.promoted_mir(def).iter_enumerated() {
                let j = self.body(def, Some(i.as_u32()), p, true);
                bodies.push(j);
            }
            // Closures of that function are inlined or reached as their own bodies.
            if bodies.len() > 20000 {
                break;
            }
        }
        while let Some(d) = self.adt_queue.pop_front() {
            self.adt(d);
        }
        let adts = std::mem::take(&mut self.adts);
        let generics = std::mem::take(&mut self.generics_seen);
        J::Obj(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("bodies", J::Arr(bodies)),
            ("impls", impls),
            ("traits", traits),
            ("sigs", sigs),
            ("adts", J::Map(adts)),
            ("generics", J::Map(generics)),
        ])
    }
}

fn alias_def<'tcx>(k: ty::AliasTyKind<'tcx>) -> DefId {
    match k {
        ty::AliasTyKind::Projection { def_id } => def_id.into(),
        ty::AliasTyKind::Inherent { def_id } => def_id.into(),
        ty::AliasTyKind::Opaque { def_id } => def_id.into(),
        ty::AliasTyKind::Free { def_id } => def_id.into(),
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // As a wrapper, the first argument is the path of the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let want = std::env::var("MIR_FACTS_CRATE").unwrap_or_default();
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let out = std::env::var("MIR_FACTS_OUT").unwrap_or_default();
    let dump = !want.is_empty() && name == want && !out.is_empty();
    rustc_driver::catch_with_exit_code(move || {
      if dump {
        rustc_driver::compiler_entrypoint(&args, &mut Dump { out });
      } else {
        struct Plain;
        impl rustc_driver::Callbacks for Plain {}
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
      }
    })
}
