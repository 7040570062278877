use crate::json::J;
use crate::Bodies;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, Unnormalized};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, VecDeque};

/// Modules of the standard library whose (generic or inline) bodies are exported, so that the
/// analysis interprets them instead of needing a hand-written model.
const STD_MODULES: &[&str] = &[
    "core::option::", "core::result::", "core::ops::", "core::iter::", "core::cmp::",
    "core::convert::", "core::default::", "core::clone::", "core::bool::", "core::tuple::",
    "core::borrow::", "core::char::methods::", "core::array::", "core::slice::iter::",
    "core::task::poll::", "core::pin::", "core::num::", "core::ascii::", "core::mem::",
    "core::future::", "core::marker::", "core::any::",
];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Key<'tcx> {
    Fn(Instance<'tcx>),
    /// a constant item (or associated constant), evaluated by interpreting its body
    Const(DefId, GenericArgsRef<'tcx>),
}

pub struct Exporter<'tcx> {
    tcx: TyCtxt<'tcx>,
    bodies: Bodies,
    env_def: DefId,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<Option<J>>,
    type_queue: VecDeque<(Ty<'tcx>, usize, DefId)>,
    insts: HashMap<(Key<'tcx>, Option<DefId>), usize>,
    inst_queue: VecDeque<(Key<'tcx>, usize, DefId)>,
    inst_json: Vec<Option<J>>,
    adts: BTreeMap<String, J>,
}

impl<'tcx> Exporter<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>, bodies: Bodies) -> Self {
        Exporter {
            tcx,
            bodies,
            env_def: LOCAL_CRATE.as_def_id(),
            types: HashMap::new(),
            type_json: vec![],
            type_queue: VecDeque::new(),
            insts: HashMap::new(),
            inst_queue: VecDeque::new(),
            inst_json: vec![],
            adts: BTreeMap::new(),
        }
    }

    fn env(&self) -> ty::TypingEnv<'tcx> {
        ty::TypingEnv::post_analysis(self.tcx, self.env_def)
    }

    // ------------------------------------------------------------------------------------------
    // names

    fn plain_path(&self, def: DefId) -> String {
        let mut s = self.tcx.crate_name(def.krate).to_string();
        let dp = self.tcx.def_path(def);
        for d in &dp.data {
            use rustc_hir::definitions::DefPathData::*;
            match d.data {
                Impl | ForeignMod | Use | GlobalAsm => {}
                Closure => {
                    s.push_str(&format!("::{{closure#{}}}", d.disambiguator));
                }
                _ => {
                    s.push_str("::");
                    s.push_str(&d.data.to_string());
                }
            }
        }
        s
    }

    fn ty_head(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.plain_path(a.did()),
            ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.ty_head(*t)),
            ty::Slice(t) => format!("[{}]", self.ty_head(*t)),
            ty::Array(t, _) => format!("[{};N]", self.ty_head(*t)),
            ty::Tuple(ts) if ts.is_empty() => "()".into(),
            ty::Tuple(_) => "(..)".into(),
            ty::Param(_) => "T".into(),
            ty::Dynamic(..) => "dyn".into(),
            ty::RawPtr(t, _) => format!("*{}", self.ty_head(*t)),
            ty::Closure(..) => "closure".into(),
            ty::Alias(..) => "alias".into(),
            ty::FnPtr(..) => "fnptr".into(),
            ty::FnDef(..) => "fndef".into(),
            _ => format!("{}", t),
        }
    }

    fn name(&self, def: DefId) -> String {
        let tcx = self.tcx;
        if tcx.is_closure_like(def) {
            let parent = tcx.parent(def);
            let dp = tcx.def_path(def);
            return format!("{}::{{closure#{}}}", self.name(parent), dp.data.last().map(|d| d.disambiguator).unwrap_or(0));
        }
        if let Some(parent) = tcx.opt_parent(def) {
            if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
                let self_ty = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                let item = tcx.opt_item_name(def).map(|s| s.to_string()).unwrap_or_default();
                if of_trait {
                    let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                    return format!("<{} as {}>::{}", self.ty_head(self_ty), self.plain_path(tr.def_id), item);
                }
                return format!("{}::{}", self.ty_head(self_ty), item);
            }
            if matches!(tcx.def_kind(parent), DefKind::Fn | DefKind::AssocFn) {
                if let Some(n) = tcx.opt_item_name(def) {
                    return format!("{}::{}", self.name(parent), n);
                }
            }
        }
        self.plain_path(def)
    }

    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        J::s(format!("{}:{}", f, loc.line))
    }

    // ------------------------------------------------------------------------------------------
    // types

    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let tcx = self.tcx;
        let t0 = tcx.erase_and_anonymize_regions(t);
        if t0.has_escaping_bound_vars() || t0.has_infer() {
            return t0;
        }
        match tcx.try_normalize_erasing_regions(self.env(), Unnormalized::new_wip(t0)) {
            Ok(t) => t,
            Err(_) => t0,
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.norm(t);
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let i = self.type_json.len();
        self.type_json.push(None);
        self.types.insert(t, i);
        self.type_queue.push_back((t, i, self.env_def));
        i
    }

    fn tys(&mut self, ts: impl IntoIterator<Item = Ty<'tcx>>) -> J {
        let v: Vec<Ty<'tcx>> = ts.into_iter().collect();
        J::Arr(v.into_iter().map(|t| J::n(self.ty(t))).collect())
    }

    fn ty_args(&mut self, args: GenericArgsRef<'tcx>) -> J {
        let mut out = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                out.push(J::n(self.ty(t)));
            } else if let Some(c) = a.as_const() {
                out.push(J::s(format!("{}", c)));
            }
        }
        J::Arr(out)
    }

    fn expand_adt_fields(&self, def: DefId) -> bool {
        if def.is_local() {
            return true;
        }
        let n = self.tcx.crate_name(def.krate);
        matches!(n.as_str(), "core" | "vt6")
    }

    fn type_to_json(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let show = J::s(format!("{}", t));
        let mut o: Vec<(&'static str, J)> = vec![("s", show)];
        match *t.kind() {
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::Int(_) | ty::Uint(_) => {
                o.push(("k", J::s("int")));
                let (size, signed) = t.int_size_and_signed(tcx);
                o.push(("bits", J::n(size.bits() as usize)));
                o.push(("signed", J::Bool(signed)));
            }
            ty::Float(_) => o.push(("k", J::s("float"))),
            ty::Slice(e) => {
                o.push(("k", J::s("slice")));
                let e = self.ty(e);
                o.push(("e", J::n(e)));
            }
            ty::Array(e, n) => {
                o.push(("k", J::s("array")));
                let e = self.ty(e);
                o.push(("e", J::n(e)));
                o.push(("n", J::opt(n.try_to_target_usize(tcx).map(|n| J::Num(n as i128)))));
            }
            ty::Ref(_, e, m) => {
                o.push(("k", J::s("ref")));
                o.push(("mut", J::Bool(m.is_mut())));
                let e = self.ty(e);
                o.push(("e", J::n(e)));
            }
            ty::RawPtr(e, m) => {
                o.push(("k", J::s("ptr")));
                o.push(("mut", J::Bool(m.is_mut())));
                let e = self.ty(e);
                o.push(("e", J::n(e)));
            }
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let f = self.tys(ts.iter());
                o.push(("f", f));
            }
            ty::Param(p) => {
                o.push(("k", J::s("param")));
                o.push(("name", J::s(p.name.to_string())));
            }
            ty::Dynamic(preds, ..) => {
                o.push(("k", J::s("dyn")));
                let tr = preds.principal_def_id().map(|d| J::s(self.plain_path(d)));
                o.push(("trait", J::opt(tr)));
                let autos: Vec<J> = preds.auto_traits().map(|d| J::s(self.plain_path(d))).collect();
                o.push(("autos", J::Arr(autos)));
            }
            ty::Alias(..) => o.push(("k", J::s("alias"))),
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::Adt(adt, args) => {
                o.push(("k", J::s("adt")));
                let n = self.plain_path(adt.did());
                o.push(("def", J::s(n.clone())));
                let a = self.ty_args(args);
                o.push(("args", a));
                self.adt(adt);
                if let Some(d) = tcx.adt_destructor(adt.did()) {
                    if adt.did().is_local() {
                        let inst = Instance::new_raw(d.did, args);
                        let id = self.inst(Key::Fn(inst));
                        o.push(("drop", J::n(id)));
                    } else {
                        o.push(("drop", J::Null));
                    }
                }
                if self.expand_adt_fields(adt.did()) && !adt.is_union() {
                    let mut vs = vec![];
                    for v in adt.variants() {
                        let fts: Vec<Ty<'tcx>> =
                            v.fields.iter().map(|f| f.ty(tcx, args).skip_norm_wip()).collect();
                        vs.push(self.tys(fts));
                    }
                    o.push(("v", J::Arr(vs)));
                }
            }
            ty::Closure(def, args) => {
                o.push(("k", J::s("closure")));
                o.push(("def", J::s(self.name(def))));
                let c = args.as_closure();
                let up = self.tys(c.upvar_tys().iter());
                o.push(("f", up));
                o.push(("kind", J::s(format!("{:?}", c.kind()))));
                let id = self.inst(Key::Fn(Instance::new_raw(def, args)));
                o.push(("inst", J::n(id)));
            }
            ty::Coroutine(def, args) => {
                o.push(("k", J::s("coroutine")));
                o.push(("def", J::s(self.name(def))));
                let c = args.as_coroutine();
                let up = self.tys(c.upvar_tys().iter());
                o.push(("f", up));
                let r = self.ty(c.return_ty());
                o.push(("ret", J::n(r)));
                let id = self.inst(Key::Fn(Instance::new_raw(def, args)));
                o.push(("inst", J::n(id)));
            }
            ty::FnDef(def, args) => {
                let args = args.no_bound_vars().unwrap_or_else(|| ty::GenericArgs::identity_for_item(tcx, def));
                self.fndef_json(def, args, &mut o);
            }
            _ => o.push(("k", J::s("other"))),
        }
        J::Obj(o)
    }

    fn fndef_json(&mut self, def: DefId, args: GenericArgsRef<'tcx>, o: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        o.push(("k", J::s("fndef")));
        o.push(("def", J::s(self.name(def))));
        o.push(("item", J::s(tcx.opt_item_name(def).map(|s| s.to_string()).unwrap_or_default())));
        o.push(("local", J::Bool(def.is_local())));
        o.push(("crate", J::s(tcx.crate_name(def.krate).to_string())));
        let a = self.ty_args(args);
        o.push(("args", a));
        if !matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
            // tuple struct / variant constructor
            o.push(("rk", J::s("ctor")));
            let parent = tcx.parent(def);
            let (adt, variant) = match tcx.def_kind(parent) {
                DefKind::Variant => (tcx.parent(parent), tcx.adt_def(tcx.parent(parent)).variant_index_with_id(parent).as_usize()),
                _ => (parent, 0),
            };
            o.push(("adt", J::s(self.plain_path(adt))));
            o.push(("variant", J::n(variant)));
            let sig = tcx.fn_sig(def).instantiate(tcx, args).skip_norm_wip();
            let out = tcx.instantiate_bound_regions_with_erased(sig.output());
            let t = self.ty(out);
            o.push(("out", J::n(t)));
            return;
        }
        let sig = tcx.fn_sig(def).instantiate(tcx, args).skip_norm_wip();
        let sig = tcx.instantiate_bound_regions_with_erased(sig);
        let out = self.ty(sig.output());
        o.push(("out", J::n(out)));
        let ins = self.tys(sig.inputs().iter().copied());
        o.push(("in", ins));
        o.push(("unsafe", J::Bool(!tcx.fn_sig(def).skip_binder().safety().is_safe())));
        if let Some(tr) = tcx.trait_of_assoc(def) {
            o.push(("trait", J::s(self.plain_path(tr))));
            let s = self.ty(args.type_at(0));
            o.push(("self", J::n(s)));
            if matches!(self.plain_path(tr).as_str(), "core::iter::traits::iterator::Iterator" | "core::iter::traits::double_ended::DoubleEndedIterator") {
                // so that the analysis can step the iterator itself
                let next = tcx
                    .associated_item_def_ids(tr)
                    .iter()
                    .copied()
                    .find(|d| tcx.opt_item_name(*d).map(|s| s.as_str() == "next" || s.as_str() == "next_back").unwrap_or(false));
                if let Some(next) = next {
                    if next != def {
                        let nargs = tcx.mk_args(&[args[0]]);
                        let t = Ty::new_fn_def(tcx, next, ty::Binder::dummy(nargs));
                        let t = self.ty(t);
                        o.push(("next", J::n(t)));
                    }
                }
            }
        } else if let Some(p) = tcx.opt_parent(def) {
            if let DefKind::Impl { .. } = tcx.def_kind(p) {
                let st = tcx.type_of(p).instantiate(tcx, args).skip_norm_wip();
                let s = self.ty(st);
                o.push(("self", J::n(s)));
            }
        }
        if args.has_escaping_bound_vars() || args.has_infer() {
            o.push(("rk", J::s("unresolved")));
            return;
        }
        let nargs = tcx.erase_and_anonymize_regions(args);
        match Instance::try_resolve(tcx, self.env(), def, nargs) {
            Ok(Some(inst)) => {
                let rk = match inst.def {
                    InstanceKind::Item(d) => {
                        if tcx.trait_of_assoc(d).is_some() && tcx.trait_of_assoc(def).is_some() && d == def {
                            "default"
                        } else {
                            "item"
                        }
                    }
                    InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(ShimKind::Clone(..)) => "cloneshim",
                    InstanceKind::Shim(..) => "shim",
                };
                o.push(("rk", J::s(rk)));
                if !matches!(rk, "intrinsic" | "virtual") {
                    let id = self.inst(Key::Fn(inst));
                    o.push(("inst", J::n(id)));
                }
                o.push(("rdef", J::s(self.name(inst.def_id()))));
            }
            _ => o.push(("rk", J::s("unresolved"))),
        }
    }

    fn adt(&mut self, adt: ty::AdtDef<'tcx>) {
        let tcx = self.tcx;
        let n = self.plain_path(adt.did());
        if self.adts.contains_key(&n) {
            return;
        }
        self.adts.insert(n.clone(), J::Null);
        let mut vs = vec![];
        for (i, v) in adt.variants().iter_enumerated() {
            let fs: Vec<J> = v
                .fields
                .iter()
                .map(|f| {
                    J::Arr(vec![
                        J::s(f.name.to_string()),
                        J::Bool(f.vis.is_public()),
                    ])
                })
                .collect();
            let d = if adt.is_enum() {
                J::Num(adt.discriminant_for_variant(tcx, i).val as i128)
            } else {
                J::Num(0)
            };
            vs.push(J::Obj(vec![("name", J::s(v.name.to_string())), ("d", d), ("f", J::Arr(fs))]));
        }
        let kind = if adt.is_enum() { "enum" } else if adt.is_union() { "union" } else { "struct" };
        let j = J::Obj(vec![
            ("kind", J::s(kind)),
            ("local", J::Bool(adt.did().is_local())),
            ("pub", J::Bool(adt.did().as_local().map(|d| tcx.effective_visibilities(()).is_reachable(d)).unwrap_or(true))),
            ("v", J::Arr(vs)),
            ("span", self.span(tcx.def_span(adt.did()))),
        ]);
        self.adts.insert(n, j);
    }

    // ------------------------------------------------------------------------------------------
    // instances

    fn inst(&mut self, k: Key<'tcx>) -> usize {
        let args = match k {
            Key::Fn(i) => i.args,
            Key::Const(_, a) => a,
        };
        let envk = if args.has_param() { Some(self.env_def) } else { None };
        if let Some(&i) = self.insts.get(&(k, envk)) {
            return i;
        }
        let i = self.inst_json.len();
        self.inst_json.push(None);
        self.insts.insert((k, envk), i);
        self.inst_queue.push_back((k, i, self.env_def));
        i
    }

    fn want_std_body(&self, def: DefId) -> bool {
        let n = self.plain_path(def);
        STD_MODULES.iter().any(|m| n.starts_with(m)) || n.starts_with("core::mem::drop")
    }

    fn inst_to_json(&mut self, k: Key<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![];
        let (def, args) = match k {
            Key::Fn(i) => (i.def_id(), i.args),
            Key::Const(d, a) => (d, a),
        };
        o.push(("def", J::s(self.name(def))));
        o.push(("local", J::Bool(def.is_local())));
        let kind = match k {
            Key::Const(..) => "const".to_string(),
            Key::Fn(i) => match i.def {
                InstanceKind::Item(_) => "item".to_string(),
                InstanceKind::Shim(s) => format!("shim:{}", format!("{:?}", s).split(['(', ' ', '{']).next().unwrap_or("")),
                _ => "other".to_string(),
            },
        };
        let a = self.ty_args(args);
        o.push(("args", a));
        o.push(("span", self.span(tcx.def_span(def))));
        let mut body: Option<(Body<'tcx>, Vec<Body<'tcx>>)> = None;
        let is_item = kind == "item" || kind == "const";
        o.push(("kind", J::s(kind)));
        if is_item {
            if let Some(l) = def.as_local() {
                if let Some((b, p)) = self.bodies.get(&l) {
                    let b: Body<'static> = b.clone();
                    let p: Vec<Body<'static>> = p.iter().cloned().collect();
                    // shorten 'static to 'tcx (they were lengthened in main.rs)
                    let b: Body<'tcx> = unsafe { std::mem::transmute(b) };
                    let p: Vec<Body<'tcx>> = unsafe { std::mem::transmute(p) };
                    body = Some((b, p));
                }
            } else if matches!(k, Key::Const(..)) {
                // constants of other crates are evaluated by the compiler instead
            } else if self.want_std_body(def) && tcx.is_mir_available(def) {
                let b = tcx.optimized_mir(def).clone();
                let p = tcx.promoted_mir(def).iter().cloned().collect();
                body = Some((b, p));
            }
        } else if let Key::Fn(i) = k {
            if matches!(i.def, InstanceKind::Shim(ShimKind::ClosureOnce { .. } | ShimKind::FnPtr(..))) {
                let b = tcx.instance_mir(i.def).clone();
                body = Some((b, vec![]));
            }
        }
        if let Some((b, ps)) = body {
            let inst_args = match k {
                Key::Fn(i) => i.args_for_mir_body_pub(),
                Key::Const(_, a) => Some(a),
            };
            let j = self.body(&b, inst_args);
            o.push(("body", j));
            let mut pj = vec![];
            for p in &ps {
                pj.push(self.body(p, inst_args));
            }
            o.push(("promoted", J::Arr(pj)));
        }
        J::Obj(o)
    }

    fn subst<T: ty::TypeFoldable<TyCtxt<'tcx>> + Clone>(&self, x: &T, args: Option<GenericArgsRef<'tcx>>) -> T {
        match args {
            Some(a) => ty::EarlyBinder::bind(self.tcx, x.clone()).instantiate(self.tcx, a).skip_norm_wip(),
            None => x.clone(),
        }
    }

    // ------------------------------------------------------------------------------------------
    // bodies

    fn body(&mut self, b: &Body<'tcx>, args: Option<GenericArgsRef<'tcx>>) -> J {
        let b: Body<'tcx> = self.subst(b, args);
        let b = &b;
        let mut locals = vec![];
        for d in b.local_decls.iter() {
            locals.push(J::n(self.ty(d.ty)));
        }
        let mut names: Vec<J> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let pj = self.place(p);
                names.push(J::Arr(vec![J::s(v.name.to_string()), pj]));
            }
        }
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut stmts = vec![];
            for s in &bb.statements {
                if let Some(j) = self.stmt(s) {
                    stmts.push(j);
                }
            }
            let term = self.term(bb.terminator(), b);
            blocks.push(J::Obj(vec![
                ("s", J::Arr(stmts)),
                ("t", term),
                ("c", J::Bool(bb.is_cleanup)),
            ]));
        }
        J::Obj(vec![
            ("argc", J::n(b.arg_count)),
            ("spread", J::opt(b.spread_arg.map(|l| J::n(l.as_usize())))),
            ("locals", J::Arr(locals)),
            ("names", J::Arr(names)),
            ("blocks", J::Arr(blocks)),
        ])
    }

    fn place(&mut self, p: Place<'tcx>) -> J {
        let mut ps = vec![];
        for e in p.projection.iter() {
            ps.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::Arr(vec![J::s("f"), J::n(f.as_usize()), J::n(t)])
                }
                ProjectionElem::Index(l) => J::Arr(vec![J::s("i"), J::n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::Arr(vec![
                    J::s("c"),
                    J::Num(offset as i128),
                    J::Num(min_length as i128),
                    J::Bool(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::Arr(vec![
                    J::s("s"),
                    J::Num(from as i128),
                    J::Num(to as i128),
                    J::Bool(from_end),
                ]),
                ProjectionElem::Downcast(_, v) => J::Arr(vec![J::s("v"), J::n(v.as_usize())]),
                _ => J::Arr(vec![J::s("o")]),
            });
        }
        J::Arr(vec![J::n(p.local.as_usize()), J::Arr(ps)])
    }

    fn operand(&mut self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => {
                let p = self.place(*p);
                J::Arr(vec![J::s("cp"), p])
            }
            Operand::Move(p) => {
                let p = self.place(*p);
                J::Arr(vec![J::s("mv"), p])
            }
            Operand::Constant(c) => {
                let c = self.constant(c.const_, c.span);
                J::Arr(vec![J::s("k"), c])
            }
            Operand::RuntimeChecks(_) => {
                let t = self.ty(self.tcx.types.bool);
                J::Arr(vec![J::s("k"), J::Obj(vec![("t", J::n(t)), ("i", J::Num(0)), ("rtc", J::Bool(true))])])
            }
        }
    }

    fn constant(&mut self, c: Const<'tcx>, span: Span) -> J {
        let t = c.ty();
        let tid = self.ty(t);
        let mut o = vec![("t", J::n(tid))];
        match c {
            Const::Ty(_, ct) => {
                if let Some(v) = ct.try_to_target_usize(self.tcx) {
                    o.push(("i", J::Num(v as i128)));
                } else {
                    o.push(("x", J::s(format!("{}", ct))));
                }
            }
            Const::Val(v, t) => self.const_value(v, t, &mut o),
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    let inst = Instance::new_raw(u.def, u.args);
                    let id = self.inst(Key::Fn(inst));
                    o.push(("p", J::Arr(vec![J::n(id), J::n(p.as_usize())])));
                    return J::Obj(o);
                }
                o.push(("name", J::s(self.name(u.def))));
                let tcx = self.tcx;
                let uargs = tcx.erase_and_anonymize_regions(u.args);
                let simple = matches!(t.kind(), ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char)
                    || t.builtin_deref(true).map(|t| t.is_str()).unwrap_or(false);
                let resolved = match Instance::try_resolve(tcx, self.env(), u.def, uargs) {
                    Ok(Some(i)) => Some(i),
                    _ => None,
                };
                if !simple {
                    if let Some(i) = resolved {
                        if let Some(l) = i.def_id().as_local() {
                            if self.bodies.contains_key(&l) {
                                let id = self.inst(Key::Const(i.def_id(), i.args));
                                o.push(("u", J::n(id)));
                                return J::Obj(o);
                            }
                        }
                    }
                }
                if let Some(i) = resolved {
                    let u2 = UnevaluatedConst { def: i.def_id(), args: i.args, promoted: None };
                    if !i.args.has_param() {
                        if let Ok(v) = tcx.const_eval_resolve(self.env(), u2, span) {
                            self.const_value(v, t, &mut o);
                            return J::Obj(o);
                        }
                    }
                    if let Some(l) = i.def_id().as_local() {
                        if self.bodies.contains_key(&l) {
                            let id = self.inst(Key::Const(i.def_id(), i.args));
                            o.push(("u", J::n(id)));
                            return J::Obj(o);
                        }
                    }
                }
                o.push(("x", J::s(format!("{}", c))));
            }
        }
        J::Obj(o)
    }

    fn const_value(&mut self, v: ConstValue, t: Ty<'tcx>, o: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => o.push(("z", J::Bool(true))),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let size = i.size();
                let signed = matches!(t.kind(), ty::Int(_));
                let n = if signed { i.to_int(size) } else { i.to_uint(size) as i128 };
                // u128 values beyond i128::MAX do not occur in practice; keep them readable
                if !signed && size.bits() == 128 && i.to_uint(size) > i128::MAX as u128 {
                    o.push(("x", J::s(i.to_uint(size).to_string())));
                    o.push(("bigint", J::s(i.to_uint(size).to_string())));
                } else {
                    o.push(("i", J::Num(n)));
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                match tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Memory(a) => {
                        let inner = a.inner();
                        let len = inner.len();
                        let elem_is_u8 = match t.builtin_deref(true).map(|t| *t.kind()) {
                            Some(ty::Array(e, _)) => e == tcx.types.u8,
                            _ => false,
                        };
                        if elem_is_u8 {
                            let bytes = inner.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes() as usize..len);
                            o.push(("b", J::s(hex(bytes))));
                        } else {
                            o.push(("x", J::s("ptr")));
                        }
                    }
                    GlobalAlloc::Static(d) => {
                        o.push(("static", J::s(self.name(d))));
                    }
                    GlobalAlloc::Function { instance, .. } => {
                        let id = self.inst(Key::Fn(instance));
                        o.push(("fnptr", J::n(id)));
                    }
                    _ => o.push(("x", J::s("ptr"))),
                }
            }
            ConstValue::Slice { alloc_id, meta } => match tcx.global_alloc(alloc_id) {
                GlobalAlloc::Memory(a) => {
                    let ok = match t.builtin_deref(true).map(|t| *t.kind()) {
                        Some(ty::Str) => true,
                        Some(ty::Slice(e)) => e == tcx.types.u8,
                        _ => false,
                    };
                    if ok {
                        let bytes = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                        o.push(("b", J::s(hex(bytes))));
                    } else {
                        o.push(("x", J::s("slice")));
                    }
                }
                _ => o.push(("x", J::s("slice"))),
            },
            ConstValue::Indirect { .. } => {
                // enums, structs, arrays: take them apart
                match self.destructure(v, t) {
                    Some(j) => o.push(("agg", j)),
                    None => o.push(("x", J::s(format!("{:?}", v)))),
                }
            }
        }
    }

    fn destructure(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        if t.has_param() {
            return None;
        }
        if !matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) {
            return None;
        }
        if let ty::Adt(a, _) = t.kind() {
            if a.is_union() {
                return None;
            }
        }
        let d = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
        let mut fs = vec![];
        for (v, t) in d.fields.iter() {
            let mut o = vec![("t", J::n(self.ty(*t)))];
            self.const_value(*v, *t, &mut o);
            fs.push(J::Obj(o));
        }
        Some(J::Obj(vec![
            ("v", J::n(d.variant.map(|v| v.as_usize()).unwrap_or(0))),
            ("f", J::Arr(fs)),
        ]))
    }

    fn stmt(&mut self, s: &Statement<'tcx>) -> Option<J> {
        match &s.kind {
            StatementKind::Assign(b) => {
                let (p, rv) = &**b;
                if let Rvalue::Ref(_, BorrowKind::Fake(_), _) = rv {
                    return None;
                }
                let pj = self.place(*p);
                let rj = self.rvalue(rv);
                Some(J::Arr(vec![J::s("="), pj, rj, self.span(s.source_info.span)]))
            }
            StatementKind::StorageDead(l) => Some(J::Arr(vec![J::s("dead"), J::n(l.as_usize())])),
            StatementKind::StorageLive(l) => Some(J::Arr(vec![J::s("live"), J::n(l.as_usize())])),
            StatementKind::SetDiscriminant { place, variant_index } => {
                let pj = self.place(**place);
                Some(J::Arr(vec![J::s("disc"), pj, J::n(variant_index.as_usize())]))
            }
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(op) => {
                    let o = self.operand(op);
                    Some(J::Arr(vec![J::s("assume"), o]))
                }
                NonDivergingIntrinsic::CopyNonOverlapping(_) => Some(J::Arr(vec![J::s("cno")])),
            },
            _ => None,
        }
    }

    fn rvalue(&mut self, rv: &Rvalue<'tcx>) -> J {
        match rv {
            Rvalue::Use(op, _) => {
                let o = self.operand(op);
                J::Arr(vec![J::s("use"), o])
            }
            Rvalue::Repeat(op, n) => {
                let o = self.operand(op);
                let n = n.try_to_target_usize(self.tcx).map(|n| J::Num(n as i128));
                J::Arr(vec![J::s("repeat"), o, J::opt(n)])
            }
            Rvalue::Ref(_, bk, p) => {
                let p = self.place(*p);
                J::Arr(vec![J::s("ref"), J::Bool(matches!(bk, BorrowKind::Mut { .. })), p])
            }
            Rvalue::Reborrow(_, m, p) => {
                let p = self.place(*p);
                J::Arr(vec![J::s("reborrow"), J::Bool(m.is_mut()), p])
            }
            Rvalue::RawPtr(k, p) => {
                let p = self.place(*p);
                J::Arr(vec![J::s("addr"), J::s(format!("{:?}", k)), p])
            }
            Rvalue::Cast(k, op, t) => {
                let o = self.operand(op);
                let from = self.op_ty_id(op);
                let t = self.ty(*t);
                let ks = format!("{:?}", k);
                J::Arr(vec![J::s("cast"), J::s(ks), o, J::n(t), from])
            }
            Rvalue::BinaryOp(b, ops) => {
                let l = self.operand(&ops.0);
                let r = self.operand(&ops.1);
                J::Arr(vec![J::s("bin"), J::s(format!("{:?}", b)), l, r])
            }
            Rvalue::UnaryOp(u, op) => {
                let o = self.operand(op);
                J::Arr(vec![J::s("un"), J::s(format!("{:?}", u)), o])
            }
            Rvalue::Discriminant(p) => {
                let p = self.place(*p);
                J::Arr(vec![J::s("discr"), p])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(*p);
                J::Arr(vec![J::s("use"), J::Arr(vec![J::s("cp"), p])])
            }
            Rvalue::Aggregate(k, ops) => {
                let mut os = vec![];
                for o in ops.iter() {
                    os.push(self.operand(o));
                }
                let (kj, extra) = match **k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(t);
                        ("array", J::n(t))
                    }
                    AggregateKind::Tuple => ("tuple", J::Null),
                    AggregateKind::Adt(def, v, args, _, active) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(def), args);
                        let t = self.ty(t);
                        let a = match active {
                            Some(f) => J::n(f.as_usize()),
                            None => J::Null,
                        };
                        ("adt", J::Arr(vec![J::n(t), J::n(v.as_usize()), a]))
                    }
                    AggregateKind::Closure(def, args) => {
                        let t = Ty::new_closure(self.tcx, def, args);
                        let t = self.ty(t);
                        ("closure", J::n(t))
                    }
                    AggregateKind::Coroutine(def, args) => {
                        let t = Ty::new_coroutine(self.tcx, def, args);
                        let t = self.ty(t);
                        ("coroutine", J::n(t))
                    }
                    AggregateKind::RawPtr(t, _) => {
                        let t = self.ty(t);
                        ("rawptr", J::n(t))
                    }
                    _ => ("other", J::Null),
                };
                J::Arr(vec![J::s("agg"), J::s(kj), extra, J::Arr(os)])
            }
            other => J::Arr(vec![J::s("other"), J::s(format!("{:?}", other))]),
        }
    }

    fn op_ty_id(&mut self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Constant(c) => J::n(self.ty(c.const_.ty())),
            _ => J::Null,
        }
    }

    fn term(&mut self, t: &Terminator<'tcx>, b: &Body<'tcx>) -> J {
        let bb = |b: BasicBlock| J::n(b.as_usize());
        let sp = self.span(t.source_info.span);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::Arr(vec![J::s("goto"), bb(*target)]),
            TerminatorKind::FalseEdge { real_target, .. } => J::Arr(vec![J::s("goto"), bb(*real_target)]),
            TerminatorKind::FalseUnwind { real_target, .. } => J::Arr(vec![J::s("goto"), bb(*real_target)]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let o = self.operand(discr);
                let dty = discr.ty(&b.local_decls, self.tcx);
                let signed = matches!(dty.kind(), ty::Int(_));
                let bits = match dty.kind() {
                    ty::Int(_) | ty::Uint(_) => dty.int_size_and_signed(self.tcx).0.bits(),
                    _ => 128,
                };
                let vals: Vec<J> = targets
                    .iter()
                    .map(|(v, t)| {
                        let n = if signed && bits < 128 && (v >> (bits - 1)) & 1 == 1 {
                            (v as i128) - (1i128 << bits)
                        } else {
                            v as i128
                        };
                        J::Arr(vec![J::Num(n), bb(t)])
                    })
                    .collect();
                let t = self.ty(dty);
                J::Arr(vec![J::s("switch"), o, J::Arr(vals), bb(targets.otherwise()), J::n(t), sp])
            }
            TerminatorKind::Return => J::Arr(vec![J::s("return")]),
            TerminatorKind::Unreachable => J::Arr(vec![J::s("unreachable")]),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::Arr(vec![J::s("resume")]),
            TerminatorKind::CoroutineDrop => J::Arr(vec![J::s("resume")]),
            TerminatorKind::Drop { place, target, .. } => {
                let dty = place.ty(&b.local_decls, self.tcx).ty;
                let t = self.ty(dty);
                let p = self.place(*place);
                J::Arr(vec![J::s("drop"), p, bb(*target), J::n(t), sp])
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let f = self.operand(func);
                let mut a = vec![];
                for x in args.iter() {
                    a.push(self.operand(&x.node));
                }
                let d = self.place(*destination);
                let dt = self.ty(destination.ty(&b.local_decls, self.tcx).ty);
                J::Arr(vec![J::s("call"), f, J::Arr(a), d, J::opt(target.map(bb)), sp, J::n(dt)])
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let c = self.operand(cond);
                let (k, ops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => ("BoundsCheck".into(), vec![len, index]),
                    AssertKind::Overflow(op, l, r) => (format!("Overflow:{:?}", op), vec![l, r]),
                    AssertKind::OverflowNeg(x) => ("OverflowNeg".into(), vec![x]),
                    AssertKind::DivisionByZero(x) => ("DivisionByZero".into(), vec![x]),
                    AssertKind::RemainderByZero(x) => ("RemainderByZero".into(), vec![x]),
                    other => (format!("{:?}", other).split(['(', ' ', '{']).next().unwrap_or("").to_string(), vec![]),
                };
                let mut oj = vec![];
                for x in ops {
                    oj.push(self.operand(x));
                }
                J::Arr(vec![J::s("assert"), c, J::Bool(*expected), J::s(k), J::Arr(oj), bb(*target), sp])
            }
            TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                let v = self.operand(value);
                let p = self.place(*resume_arg);
                J::Arr(vec![J::s("yield"), v, bb(*resume), p, sp])
            }
            TerminatorKind::InlineAsm { .. } => J::Arr(vec![J::s("asm"), sp]),
            TerminatorKind::TailCall { .. } => J::Arr(vec![J::s("tailcall"), sp]),
        }
    }

    // ------------------------------------------------------------------------------------------

    pub fn run(mut self) -> J {
        let tcx = self.tcx;
        let mut owners: Vec<LocalDefId> = self.bodies.keys().copied().collect();
        owners.sort_by_key(|d| d.local_def_index.as_usize());
        let eff = tcx.effective_visibilities(());
        let mut fns = vec![];
        for l in owners {
            let def = l.to_def_id();
            let kind = tcx.def_kind(def);
            self.env_def = tcx.typeck_root_def_id(def);
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn);
            let is_closure = tcx.is_closure_like(def);
            let is_const = matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. });
            if !is_fn && !is_closure && !is_const {
                continue;
            }
            let args = ty::GenericArgs::identity_for_item(tcx, def);
            let args = tcx.erase_and_anonymize_regions(args);
            let key = if is_const {
                Key::Const(def, args)
            } else if is_closure {
                // closures: the type as seen by the analysed parent
                let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                let t = self.norm(t);
                match t.kind() {
                    ty::Closure(d, a) | ty::Coroutine(d, a) => Key::Fn(Instance::new_raw(*d, *a)),
                    _ => Key::Fn(Instance::new_raw(def, args)),
                }
            } else {
                Key::Fn(Instance::new_raw(def, args))
            };
            let id = self.inst(key);
            let mut o: Vec<(&'static str, J)> = vec![
                ("def", J::s(self.name(def))),
                ("path", J::s(self.plain_path(def))),
                ("item", J::s(tcx.opt_item_name(def).map(|s| s.to_string()).unwrap_or_default())),
                ("inst", J::n(id)),
                ("span", self.span(tcx.def_span(def))),
                ("kind", J::s(if is_fn { "fn" } else if is_closure { "closure" } else { "const" })),
            ];
            if is_closure {
                o.push(("coroutine", J::Bool(tcx.is_coroutine(def))));
                o.push(("root", J::s(self.name(tcx.typeck_root_def_id(def)))));
            }
            if is_fn {
                o.push(("pub", J::Bool(eff.is_reachable(l))));
                let sig = tcx.fn_sig(def).instantiate_identity().skip_norm_wip();
                o.push(("unsafe", J::Bool(!sig.safety().is_safe())));
                o.push(("sig", J::s(format!("{:?}", sig))));
                o.push(("async", J::Bool(tcx.asyncness(def).is_async())));
                let parent = tcx.parent(def);
                if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
                    let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                    let s = self.ty(st);
                    o.push(("self", J::n(s)));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                        o.push(("trait", J::s(self.plain_path(tr.def_id))));
                        let ta = self.ty_args(tr.args);
                        o.push(("targs", ta));
                    }
                } else if tcx.def_kind(parent) == DefKind::Trait {
                    o.push(("trait", J::s(self.plain_path(parent))));
                    o.push(("default", J::Bool(true)));
                }
            }
            fns.push(J::Obj(o));
        }
        // trait impls of the crate
        let mut impls = vec![];
        for (tr, list) in tcx.all_local_trait_impls(()) {
            for l in list {
                let d = l.to_def_id();
                self.env_def = d;
                let trf = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                let st = self.ty(trf.self_ty());
                let targs = self.ty_args(trf.args);
                let unsafe_impl = !tcx.impl_trait_header(d).safety.is_safe();
                impls.push(J::Obj(vec![
                    ("trait", J::s(self.plain_path(*tr))),
                    ("self", J::n(st)),
                    ("targs", targs),
                    ("unsafe", J::Bool(unsafe_impl)),
                    ("derived", J::Bool(tcx.is_automatically_derived(d))),
                    ("span", self.span(tcx.def_span(d))),
                ]));
            }
        }
        // all local ADTs and public items
        let mut items = vec![];
        for l in tcx.hir_crate_items(()).definitions() {
            let d = l.to_def_id();
            let kind = tcx.def_kind(d);
            if matches!(kind, DefKind::Struct | DefKind::Enum | DefKind::Union) {
                self.env_def = d;
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                self.ty(t);
            }
            if matches!(kind, DefKind::Struct | DefKind::Enum | DefKind::Trait | DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::TyAlias)
            {
                let sig = if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                    format!("{:?}", tcx.fn_sig(d).instantiate_identity().skip_norm_wip())
                } else {
                    String::new()
                };
                items.push(J::Obj(vec![
                    ("kind", J::s(format!("{:?}", kind).split([' ', '{', '(']).next().unwrap_or("").to_string())),
                    ("def", J::s(self.name(d))),
                    ("pub", J::Bool(eff.is_reachable(l))),
                    ("sig", J::s(sig)),
                ]));
            }
        }
        // unsafe blocks written by hand
        let mut ublocks = vec![];
        for owner in tcx.hir_body_owners() {
            let body = tcx.hir_body_owned_by(owner);
            let mut v = UnsafeVisitor { spans: vec![] };
            rustc_hir::intravisit::Visitor::visit_body(&mut v, body);
            for sp in v.spans {
                ublocks.push(J::Obj(vec![
                    ("def", J::s(self.name(owner.to_def_id()))),
                    ("span", self.span(sp)),
                    ("expansion", J::Bool(sp.from_expansion())),
                ]));
            }
        }
        // work lists
        loop {
            if let Some((t, i, env)) = self.type_queue.pop_front() {
                self.env_def = env;
                let j = self.type_to_json(t);
                self.type_json[i] = Some(j);
                continue;
            }
            if let Some((k, i, env)) = self.inst_queue.pop_front() {
                self.env_def = env;
                let j = self.inst_to_json(k);
                self.inst_json[i] = Some(j);
                continue;
            }
            break;
        }
        let crates: Vec<J> = tcx.crates(()).iter().map(|c| J::s(tcx.crate_name(*c).to_string())).collect();
        let features: Vec<J> = tcx
            .sess
            .config
            .iter()
            .filter_map(|(k, v)| if k.as_str() == "feature" { v.map(|v| J::s(v.to_string())) } else { None })
            .collect();
        J::Obj(vec![
            ("crate", J::s(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("features", J::Arr(features)),
            ("crates", J::Arr(crates)),
            ("types", J::Arr(self.type_json.into_iter().map(J::opt).collect())),
            ("adts", J::Map(self.adts.into_iter().collect())),
            ("insts", J::Arr(self.inst_json.into_iter().map(J::opt).collect())),
            ("fns", J::Arr(fns)),
            ("impls", J::Arr(impls)),
            ("items", J::Arr(items)),
            ("unsafe_blocks", J::Arr(ublocks)),
        ])
    }
}

struct UnsafeVisitor {
    spans: Vec<rustc_span::Span>,
}

impl<'v> rustc_hir::intravisit::Visitor<'v> for UnsafeVisitor {
    fn visit_block(&mut self, b: &'v rustc_hir::Block<'v>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.spans.push(b.span);
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

trait InstanceExt<'tcx> {
    fn args_for_mir_body_pub(&self) -> Option<GenericArgsRef<'tcx>>;
}

impl<'tcx> InstanceExt<'tcx> for Instance<'tcx> {
    fn args_for_mir_body_pub(&self) -> Option<GenericArgsRef<'tcx>> {
        match self.def {
            InstanceKind::Item(_) => Some(self.args),
            // the bodies of these shims are already monomorphic in their self type
            InstanceKind::Shim(ShimKind::FnPtr(..)) => None,
            _ => Some(self.args),
        }
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
