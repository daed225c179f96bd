//! A rustc driver that writes the type-checked MIR of selected crates as JSON
//! facts. Used as `RUSTC_WRAPPER`: every crate that is not selected is handed to
//! the real compiler unchanged.
//!
//! For every body (function, closure, coroutine) of a selected crate it dumps the
//! MIR as built: before borrow checking moves things around, with the `await`
//! points still visible as `Yield`s and with the un-elaborated drops. Callees are
//! resolved through the type checker, constants are evaluated, and each span is
//! tagged with the macros it was expanded from.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::{
    cell::RefCell,
    collections::HashMap,
    fmt::Write as _,
    process::{exit, Command, ExitCode},
    sync::OnceLock,
};

use rustc_data_structures::steal::Steal;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::{def::DefKind, def_id::{DefId, LocalDefId}};
use rustc_interface::interface::{Compiler, Config};
use rustc_middle::{
    mir::{
        self, interpret::{GlobalAlloc, Scalar}, AggregateKind, Body, Const, ConstValue, Operand,
        Place, ProjectionElem, Rvalue, StatementKind, TerminatorKind,
    },
    ty::{self, print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name}, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv},
};
use rustc_span::{ExpnKind, Span};

const SELECTED: &[&str] = &["paladin", "paladin_opkind_derive", "probe"];

type MirBuilt = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx Steal<Body<'tcx>>;
static DEFAULT_MIR_BUILT: OnceLock<MirBuilt> = OnceLock::new();

thread_local! {
    /// The bodies as built; the lifetime is erased as thread locals cannot carry it. Only used
    /// while the `TyCtxt` is alive.
    static BODIES: RefCell<Vec<(LocalDefId, Body<'static>)>> = const { RefCell::new(Vec::new()) };
}

fn mir_built<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> &'tcx Steal<Body<'tcx>> {
    let steal = DEFAULT_MIR_BUILT.get().unwrap()(tcx, def);
    let body: Body<'tcx> = steal.borrow().clone();
    let body: Body<'static> = unsafe { std::mem::transmute(body) };
    BODIES.with(|b| b.borrow_mut().push((def, body)));
    steal
}

struct J(String);
impl J {
    fn str(&mut self, s: &str) {
        self.0.push('"');
        for c in s.chars() {
            match c {
                '"' => self.0.push_str("\\\""),
                '\\' => self.0.push_str("\\\\"),
                '\n' => self.0.push_str("\\n"),
                '\t' => self.0.push_str("\\t"),
                '\r' => self.0.push_str("\\r"),
                c if (c as u32) < 0x20 => {
                    let _ = write!(self.0, "\\u{:04x}", c as u32);
                }
                c => self.0.push(c),
            }
        }
        self.0.push('"');
    }
    fn raw(&mut self, s: &str) {
        self.0.push_str(s);
    }
    fn num(&mut self, n: impl std::fmt::Display) {
        let _ = write!(self.0, "{n}");
    }
    fn list<T>(&mut self, it: impl IntoIterator<Item = T>, mut f: impl FnMut(&mut Self, T)) {
        self.0.push('[');
        for (i, x) in it.into_iter().enumerate() {
            if i > 0 {
                self.0.push(',');
            }
            f(self, x);
        }
        self.0.push(']');
    }
}

fn s(x: &str) -> String {
    let mut j = J(String::new());
    j.str(x);
    j.0
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    spans: HashMap<(String, usize, String), usize>,
    span_out: Vec<String>,
    adts: HashMap<DefId, String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(self
            .tcx
            .def_path_str(d))))
    }

    fn id(&self, d: DefId) -> String {
        format!("{}#{}", self.tcx.crate_name(d.krate), d.index.as_u32())
    }

    fn tyid(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let repr = with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(t.to_string())));
        let mut o = format!("{{\"s\":{}", s(&repr));
        match *t.kind() {
            ty::Adt(def, args) => {
                self.adt(def);
                let a: Vec<String> = args.types().map(|t| self.tyid(t).to_string()).collect();
                let _ = write!(o, ",\"k\":\"adt\",\"d\":{},\"id\":{},\"a\":[{}]", s(&self.path(def.did())), s(&self.id(def.did())), a.join(","));
            }
            ty::Ref(_, t, m) => {
                let _ = write!(o, ",\"k\":\"ref\",\"m\":{},\"t\":{}", m.is_mut(), self.tyid(t));
            }
            ty::RawPtr(t, m) => {
                let _ = write!(o, ",\"k\":\"ptr\",\"m\":{},\"t\":{}", m.is_mut(), self.tyid(t));
            }
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|t| self.tyid(t).to_string()).collect();
                let _ = write!(o, ",\"k\":\"tuple\",\"a\":[{}]", a.join(","));
            }
            ty::Closure(d, _) => {
                let _ = write!(o, ",\"k\":\"closure\",\"id\":{}", s(&self.id(d)));
            }
            ty::Coroutine(d, _) => {
                let _ = write!(o, ",\"k\":\"coroutine\",\"id\":{}", s(&self.id(d)));
            }
            ty::FnDef(d, _) => {
                let _ = write!(o, ",\"k\":\"fndef\",\"id\":{},\"d\":{}", s(&self.id(d)), s(&self.path(d)));
            }
            ty::FnPtr(..) => o.push_str(",\"k\":\"fnptr\""),
            ty::Dynamic(preds, _) => {
                let p: Vec<String> = preds
                    .iter()
                    .filter_map(|p| match p.skip_binder() {
                        ty::ExistentialPredicate::Trait(t) => Some(s(&self.path(t.def_id))),
                        ty::ExistentialPredicate::AutoTrait(_) => None,
                        ty::ExistentialPredicate::Projection(_) => None,
                    })
                    .collect();
                let _ = write!(o, ",\"k\":\"dyn\",\"tr\":[{}]", p.join(","));
            }
            ty::Param(p) => {
                let _ = write!(o, ",\"k\":\"param\",\"n\":{}", s(p.name.as_str()));
            }
            ty::Alias(..) => o.push_str(",\"k\":\"alias\""),
            ty::Slice(t) | ty::Array(t, _) => {
                let _ = write!(o, ",\"k\":\"slice\",\"t\":{}", self.tyid(t));
            }
            ty::Never => o.push_str(",\"k\":\"never\""),
            _ => o.push_str(",\"k\":\"prim\""),
        }
        o.push('}');
        self.ty_out[i] = o;
        i
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        if self.adts.contains_key(&def.did()) {
            return;
        }
        self.adts.insert(def.did(), String::new());
        let mut o = format!("{{\"d\":{},\"enum\":{},\"v\":[", s(&self.path(def.did())), def.is_enum());
        let discrs: Vec<String> = if def.is_enum() {
            def.discriminants(self.tcx).map(|(_, d)| d.val.to_string()).collect()
        } else {
            vec!["0".into()]
        };
        for (i, v) in def.variants().iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let local = def.did().is_local();
            let mut f = Vec::new();
            for fl in v.fields.iter() {
                let t = if local {
                    let t = self.tcx.type_of(fl.did).instantiate_identity().skip_norm_wip();
                    self.tyid(t).to_string()
                } else {
                    "null".into()
                };
                f.push(format!("[{},{}]", s(fl.name.as_str()), t));
            }
            let _ = write!(o, "{{\"n\":{},\"x\":{},\"f\":[{}]}}", s(v.name.as_str()), discrs.get(i).cloned().unwrap_or("0".into()), f.join(","));
        }
        o.push_str("]}");
        self.adts.insert(def.did(), o);
    }

    fn span(&mut self, sp: Span) -> usize {
        let mut macros = Vec::new();
        let mut cur = sp;
        while cur.from_expansion() {
            let e = cur.ctxt().outer_expn_data();
            match e.kind {
                ExpnKind::Macro(_, name) => {
                    let p = e.macro_def_id.map(|d| self.path(d)).unwrap_or_else(|| name.to_string());
                    macros.push(p);
                }
                ExpnKind::Desugaring(k) => macros.push(format!("desugar:{:?}", k)),
                _ => {}
            }
            cur = e.call_site;
        }
        let loc = self.tcx.sess.source_map().lookup_char_pos(cur.lo());
        let file = loc.file.name.prefer_local_unconditionally().to_string();
        let m: Vec<String> = macros.iter().map(|m| s(m)).collect();
        let key = (file.clone(), loc.line, m.join(","));
        if let Some(i) = self.spans.get(&key) {
            return *i;
        }
        let i = self.span_out.len();
        self.span_out.push(format!("[{},{},[{}]]", s(&file), loc.line, key.2));
        self.spans.insert(key, i);
        i
    }
}

struct B<'a, 'tcx> {
    cx: &'a mut Cx<'tcx>,
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
}

impl<'a, 'tcx> B<'a, 'tcx> {
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = self.cx.tcx.erase_and_anonymize_regions(t);
        self.cx.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t)).unwrap_or(t)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.norm(t);
        self.cx.tyid(t)
    }

    fn place(&mut self, j: &mut J, p: Place<'tcx>) {
        let _ = write!(j.0, "{{\"l\":{}", p.local.as_u32());
        if !p.projection.is_empty() {
            j.raw(",\"p\":[");
            for (i, (base, e)) in p.iter_projections().enumerate() {
                if i > 0 {
                    j.raw(",");
                }
                match e {
                    ProjectionElem::Deref => {
                        let bt = base.ty(self.body, self.cx.tcx).ty;
                        let b = if bt.is_box() { "\"box\"" } else { "0" };
                        let _ = write!(j.0, "[\"d\",{b}]");
                    }
                    ProjectionElem::Field(f, t) => {
                        let bt = base.ty(self.body, self.cx.tcx);
                        let mut owner = None;
                        let name = match bt.ty.kind() {
                            ty::Adt(def, _) => {
                                if def.did().is_local() || self.cx.tcx.crate_name(def.did().krate).as_str() == "paladin" {
                                    owner = Some(self.cx.path(def.did()));
                                }
                                let v = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                                def.variants().get(v).and_then(|v| v.fields.get(f)).map(|f| f.name.to_string())
                            }
                            _ => None,
                        };
                        let ft = self.ty(t);
                        let _ = write!(j.0, "[\"f\",{},{},{}", f.as_u32(), name.map(|n| s(&n)).unwrap_or("null".into()), ft);
                        if let Some(o) = owner {
                            let _ = write!(j.0, ",{}", s(&o));
                        }
                        j.raw("]");
                    }
                    ProjectionElem::Downcast(n, v) => {
                        let _ = write!(j.0, "[\"v\",{},{}]", v.as_u32(), n.map(|n| s(n.as_str())).unwrap_or("null".into()));
                    }
                    ProjectionElem::Index(l) => {
                        let _ = write!(j.0, "[\"i\",{}]", l.as_u32());
                    }
                    ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                        let _ = write!(j.0, "[\"ci\",{offset},{from_end}]");
                    }
                    ProjectionElem::Subslice { .. } => j.raw("[\"sub\"]"),
                    _ => j.raw("[\"o\"]"),
                }
            }
            j.raw("]");
        }
        j.raw("}");
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.cx.tcx;
        let mut o = String::new();
        let a: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let _ = write!(o, "{{\"path\":{},\"id\":{},\"crate\":{},\"a\":[{}]", s(&self.cx.path(d)), s(&self.cx.id(d)), s(tcx.crate_name(d.krate).as_str()), a.join(","));
        if let Some(n) = tcx.opt_item_name(d) {
            let _ = write!(o, ",\"name\":{}", s(n.as_str()));
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{}", s(&self.cx.path(t)));
            if let Some(st) = args.types().next() {
                let _ = write!(o, ",\"self\":{}", self.ty(st));
            }
        } else if let Some(imp) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(imp).instantiate(tcx, tcx.mk_args(&args[..tcx.generics_of(imp).count()])).skip_norm_wip();
            let _ = write!(o, ",\"self\":{}", self.ty(st));
        }
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let parent = tcx.parent(d);
            let (adt, v) = if matches!(tcx.def_kind(parent), DefKind::Variant) {
                let adt = tcx.adt_def(tcx.parent(parent));
                (adt, adt.variant_index_with_id(parent))
            } else {
                (tcx.adt_def(parent), rustc_abi::FIRST_VARIANT)
            };
            self.cx.adt(adt);
            let _ = write!(o, ",\"ctor\":[{},{},{}]", s(&self.cx.path(adt.did())), v.as_u32(), s(adt.variant(v).name.as_str()));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let eargs = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, eargs) {
                let k = format!("{:?}", inst.def);
                let k = k.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                let rd = inst.def_id();
                let _ = write!(o, ",\"r\":{{\"k\":{},\"id\":{},\"path\":{},\"crate\":{}", s(&k), s(&self.cx.id(rd)), s(&self.cx.path(rd)), s(tcx.crate_name(rd.krate).as_str()));
                if let Some(imp) = tcx.impl_of_assoc(rd) {
                    if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                        let _ = write!(o, ",\"itrait\":{}", s(&self.cx.path(tr.skip_binder().def_id)));
                    }
                }
                o.push('}');
            }
        }
        o.push('}');
        o
    }

    fn konst(&mut self, j: &mut J, c: &mir::ConstOperand<'tcx>) {
        let tcx = self.cx.tcx;
        let t = self.norm(c.const_.ty());
        let tid = self.cx.tyid(t);
        let _ = write!(j.0, "{{\"t\":{tid}");
        if let ty::FnDef(d, args) = *t.kind() {
            let cl = self.callee(d, args.no_bound_vars().unwrap_or_else(|| args.skip_binder()));
            let _ = write!(j.0, ",\"fn\":{cl}}}");
            return;
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            let _ = write!(j.0, ",\"def\":{}", s(&self.cx.path(u.def)));
            if let Some(tr) = tcx.trait_of_assoc(u.def) {
                let _ = write!(j.0, ",\"dtrait\":{}", s(&self.cx.path(tr)));
                if let Some(st) = u.args.types().next() {
                    let _ = write!(j.0, ",\"dself\":{}", self.ty(st));
                }
            }
        }
        if let Const::Ty(_, ct) = c.const_ {
            let _ = write!(j.0, ",\"pc\":{}", s(&ct.to_string()));
        }
        let has_param = {
            use rustc_middle::ty::TypeVisitableExt;
            c.const_.has_param()
        };
        let v = if has_param { None } else { c.const_.eval(tcx, self.env, c.span).ok() };
        match v {
            Some(ConstValue::Scalar(Scalar::Int(i))) => {
                let bits = i.to_bits_unchecked();
                let v = if t.is_signed() { i.to_int(i.size()).to_string() } else { bits.to_string() };
                let _ = write!(j.0, ",\"i\":{}", s(&v));
            }
            Some(ConstValue::Scalar(Scalar::Ptr(p, _))) => {
                let aid = p.provenance.alloc_id();
                match tcx.global_alloc(aid) {
                    GlobalAlloc::Static(d) => {
                        let _ = write!(j.0, ",\"static\":{}", s(&self.cx.path(d)));
                    }
                    GlobalAlloc::Function { instance } => {
                        let _ = write!(j.0, ",\"fnptr\":{}", s(&self.cx.id(instance.def_id())));
                    }
                    _ => {
                        let _ = write!(j.0, ",\"o\":{}", s(&format!("{}", c.const_)));
                    }
                }
            }
            Some(ConstValue::Slice { alloc_id, meta }) => {
                if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                    let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                    let _ = write!(j.0, ",\"str\":{}", s(&String::from_utf8_lossy(b)));
                }
            }
            Some(ConstValue::ZeroSized) => j.raw(",\"z\":1"),
            _ => {
                let p = with_no_trimmed_paths!(format!("{}", c.const_));
                let _ = write!(j.0, ",\"o\":{}", s(&p));
            }
        }
        j.raw("}");
    }

    fn operand(&mut self, j: &mut J, o: &Operand<'tcx>) {
        match o {
            Operand::Copy(p) => {
                j.raw("{\"c\":");
                self.place(j, *p);
                j.raw("}");
            }
            Operand::Move(p) => {
                j.raw("{\"m\":");
                self.place(j, *p);
                j.raw("}");
            }
            Operand::Constant(c) => {
                j.raw("{\"k\":");
                self.konst(j, c);
                j.raw("}");
            }
            _ => j.raw("{\"x\":1}"),
        }
    }

    fn rvalue(&mut self, j: &mut J, r: &Rvalue<'tcx>) {
        match r {
            Rvalue::Use(o, ..) => {
                j.raw("{\"r\":\"use\",\"o\":");
                self.operand(j, o);
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, mir::BorrowKind::Mut { .. });
                let fake = matches!(bk, mir::BorrowKind::Fake(_));
                let _ = write!(j.0, "{{\"r\":\"ref\",\"mut\":{m},\"fake\":{fake},\"p\":");
                self.place(j, *p);
            }
            Rvalue::RawPtr(k, p) => {
                let m = format!("{k:?}").contains("Mut");
                let _ = write!(j.0, "{{\"r\":\"ref\",\"mut\":{m},\"raw\":1,\"fake\":false,\"p\":");
                self.place(j, *p);
            }
            Rvalue::Reborrow(_, m, p) => {
                let _ = write!(j.0, "{{\"r\":\"reborrow\",\"mut\":{},\"p\":", m.is_mut());
                self.place(j, *p);
            }
            Rvalue::CopyForDeref(p) => {
                j.raw("{\"r\":\"use\",\"o\":{\"c\":");
                self.place(j, *p);
                j.raw("}");
            }
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{k:?}");
                let from = o.ty(self.body, self.cx.tcx);
                let (tf, tt) = (self.ty(from), self.ty(*t));
                let _ = write!(j.0, "{{\"r\":\"cast\",\"k\":{},\"from\":{tf},\"to\":{tt},\"o\":", s(&ks));
                self.operand(j, o);
            }
            Rvalue::BinaryOp(op, ab) => {
                let _ = write!(j.0, "{{\"r\":\"bin\",\"op\":\"{op:?}\",\"a\":");
                self.operand(j, &ab.0);
                j.raw(",\"b\":");
                self.operand(j, &ab.1);
            }
            Rvalue::UnaryOp(op, a) => {
                let _ = write!(j.0, "{{\"r\":\"un\",\"op\":\"{op:?}\",\"a\":");
                self.operand(j, a);
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(self.body, self.cx.tcx).ty;
                let t = self.ty(t);
                let _ = write!(j.0, "{{\"r\":\"discr\",\"t\":{t},\"p\":");
                self.place(j, *p);
            }
            Rvalue::Repeat(o, c) => {
                let _ = write!(j.0, "{{\"r\":\"repeat\",\"n\":{},\"o\":", s(&c.to_string()));
                self.operand(j, o);
            }
            Rvalue::ThreadLocalRef(d) => {
                let p = self.cx.path(*d);
                let _ = write!(j.0, "{{\"r\":\"tls\",\"d\":{}", s(&p));
            }
            Rvalue::WrapUnsafeBinder(o, _) => {
                j.raw("{\"r\":\"use\",\"o\":");
                self.operand(j, o);
            }
            Rvalue::Aggregate(k, ops) => {
                j.raw("{\"r\":\"agg\",");
                match **k {
                    AggregateKind::Array(_) => j.raw("\"k\":\"array\""),
                    AggregateKind::Tuple => j.raw("\"k\":\"tuple\""),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let def = self.cx.tcx.adt_def(d);
                        self.cx.adt(def);
                        let t = self.cx.tcx.type_of(d).instantiate(self.cx.tcx, args).skip_norm_wip();
                        let t = self.ty(t);
                        let vn = def.variant(v).name.to_string();
                        let _ = write!(j.0, "\"k\":\"adt\",\"d\":{},\"v\":{},\"vn\":{},\"t\":{t}", s(&self.cx.path(d)), v.as_u32(), s(&vn));
                        if let Some(f) = f {
                            let _ = write!(j.0, ",\"union\":{}", f.as_u32());
                        }
                    }
                    AggregateKind::Closure(d, _) => {
                        let _ = write!(j.0, "\"k\":\"closure\",\"id\":{}", s(&self.cx.id(d)));
                    }
                    AggregateKind::Coroutine(d, _) => {
                        let _ = write!(j.0, "\"k\":\"coroutine\",\"id\":{}", s(&self.cx.id(d)));
                    }
                    AggregateKind::CoroutineClosure(d, _) => {
                        let _ = write!(j.0, "\"k\":\"coroclosure\",\"id\":{}", s(&self.cx.id(d)));
                    }
                    AggregateKind::RawPtr(..) => j.raw("\"k\":\"rawptr\""),
                }
                j.raw(",\"f\":");
                let ops: Vec<_> = ops.iter().collect();
                j.list(ops, |j, o| self.operand(j, o));
            }
        }
        j.raw("}");
    }

    fn dump(&mut self, j: &mut J, def: LocalDefId) {
        let tcx = self.cx.tcx;
        let did = def.to_def_id();
        let kind = match tcx.def_kind(did) {
            DefKind::Closure => {
                if tcx.coroutine_kind(did).is_some() {
                    "coroutine"
                } else {
                    "closure"
                }
            }
            DefKind::Fn => "fn",
            DefKind::AssocFn => "assoc",
            _ => "const",
        };
        let _ = write!(j.0, "{{\"id\":{},\"path\":{},\"kind\":\"{kind}\"", s(&self.cx.id(did)), s(&self.cx.path(did)));
        if kind == "coroutine" {
            let _ = write!(j.0, ",\"ckind\":{}", s(&format!("{:?}", tcx.coroutine_kind(did).unwrap())));
        }
        let root = tcx.typeck_root_def_id(did);
        let parent = tcx.parent(did);
        let _ = write!(j.0, ",\"parent\":{},\"root\":{}", s(&self.cx.id(parent)), s(&self.cx.id(root)));
        if let Some(n) = tcx.opt_item_name(did) {
            let _ = write!(j.0, ",\"name\":{}", s(n.as_str()));
        }
        if kind == "fn" || kind == "assoc" {
            let _ = write!(j.0, ",\"vis\":{}", tcx.visibility(did).is_public());
            let _ = write!(j.0, ",\"async\":{}", tcx.asyncness(did).is_async());
        }
        if let Some(imp) = tcx.impl_of_assoc(did) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let sti = self.ty(st);
            let _ = write!(j.0, ",\"self\":{sti},\"impl\":{}", s(&self.cx.id(imp)));
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let _ = write!(j.0, ",\"trait\":{}", s(&self.cx.path(tr.skip_binder().def_id)));
            }
        } else if let Some(tr) = tcx.trait_of_assoc(did) {
            let _ = write!(j.0, ",\"dtrait\":{}", s(&self.cx.path(tr)));
        }
        let sp = self.cx.span(self.body.span);
        let _ = write!(j.0, ",\"span\":{sp},\"argc\":{}", self.body.arg_count);
        // names
        let mut names: HashMap<u32, String> = HashMap::new();
        let mut upv: HashMap<usize, String> = HashMap::new();
        for v in &self.body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_u32(), v.name.to_string());
                } else if p.local.as_u32() == 1 {
                    for e in p.projection {
                        if let ProjectionElem::Field(f, _) = e {
                            upv.entry(f.as_usize()).or_insert(v.name.to_string());
                            break;
                        }
                    }
                }
            }
        }
        j.raw(",\"upv\":{");
        for (i, (k, v)) in upv.iter().enumerate() {
            if i > 0 {
                j.raw(",");
            }
            let _ = write!(j.0, "\"{k}\":{}", s(v));
        }
        j.raw("},\"locals\":");
        let locals: Vec<_> = self.body.local_decls.iter_enumerated().map(|(l, d)| (l, d.ty)).collect();
        j.list(locals, |j, (l, t)| {
            let t = self.ty(t);
            match names.get(&l.as_u32()) {
                Some(n) => {
                    let _ = write!(j.0, "[{t},{}]", s(n));
                }
                None => {
                    let _ = write!(j.0, "[{t}]");
                }
            }
        });
        j.raw(",\"blocks\":");
        let body = self.body;
        j.list(body.basic_blocks.iter(), |j, b| {
            let _ = write!(j.0, "{{\"cl\":{},\"s\":", b.is_cleanup);
            let stmts: Vec<_> = b
                .statements
                .iter()
                .filter(|st| {
                    matches!(st.kind, StatementKind::Assign(_) | StatementKind::SetDiscriminant { .. } | StatementKind::StorageDead(_) | StatementKind::StorageLive(_))
                })
                .collect();
            j.list(stmts, |j, st| {
                match &st.kind {
                    StatementKind::Assign(pr) => {
                        let sp = self.cx.span(st.source_info.span);
                        let _ = write!(j.0, "{{\"s\":{sp},\"p\":");
                        self.place(j, pr.0);
                        j.raw(",\"v\":");
                        self.rvalue(j, &pr.1);
                        j.raw("}");
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        j.raw("{\"sd\":");
                        self.place(j, **place);
                        let _ = write!(j.0, ",\"v\":{}}}", variant_index.as_u32());
                    }
                    StatementKind::StorageDead(l) => {
                        let _ = write!(j.0, "{{\"dead\":{}}}", l.as_u32());
                    }
                    StatementKind::StorageLive(l) => {
                        let _ = write!(j.0, "{{\"live\":{}}}", l.as_u32());
                    }
                    _ => unreachable!(),
                }
            });
            let t = b.terminator();
            let sp = self.cx.span(t.source_info.span);
            let _ = write!(j.0, ",\"t\":{{\"s\":{sp},\"k\":");
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    let _ = write!(j.0, "\"goto\",\"to\":{}", target.as_u32());
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(self.body, self.cx.tcx);
                    let dt = self.ty(dt);
                    let _ = write!(j.0, "\"switch\",\"dt\":{dt},\"o\":");
                    self.operand(j, discr);
                    j.raw(",\"v\":");
                    j.list(targets.iter(), |j, (v, b)| {
                        let _ = write!(j.0, "[\"{v}\",{}]", b.as_u32());
                    });
                    let _ = write!(j.0, ",\"else\":{}", targets.otherwise().as_u32());
                }
                TerminatorKind::Return => j.raw("\"return\""),
                TerminatorKind::Unreachable => j.raw("\"unreachable\""),
                TerminatorKind::UnwindResume => j.raw("\"resume\""),
                TerminatorKind::UnwindTerminate(_) => j.raw("\"abort\""),
                TerminatorKind::CoroutineDrop => j.raw("\"codrop\""),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(self.body, self.cx.tcx).ty;
                    let needs = self.norm(pt).needs_drop(self.cx.tcx, self.env);
                    let pt = self.ty(pt);
                    let _ = write!(j.0, "\"drop\",\"ty\":{pt},\"needs\":{needs},\"to\":{},\"p\":", target.as_u32());
                    self.place(j, *place);
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, call_source, .. } => {
                    let fs = self.cx.span(*fn_span);
                    let _ = write!(j.0, "\"call\",\"fs\":{fs},\"src\":\"{call_source:?}\",\"f\":");
                    self.operand(j, func);
                    j.raw(",\"a\":");
                    let args: Vec<_> = args.iter().collect();
                    j.list(args.iter(), |j, a| self.operand(j, &a.node));
                    j.raw(",\"at\":");
                    j.list(args.iter(), |j, a| {
                        let t = a.node.ty(self.body, self.cx.tcx);
                        let t = self.ty(t);
                        j.num(t);
                    });
                    j.raw(",\"d\":");
                    self.place(j, *destination);
                    let dt = destination.ty(self.body, self.cx.tcx).ty;
                    let dt = self.ty(dt);
                    let _ = write!(j.0, ",\"dty\":{dt}");
                    if let Some(t) = target {
                        let _ = write!(j.0, ",\"to\":{}", t.as_u32());
                    }
                }
                TerminatorKind::TailCall { .. } => j.raw("\"tailcall\""),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{msg:?}");
                    let _ = write!(j.0, "\"assert\",\"exp\":{expected},\"msg\":{},\"to\":{},\"o\":", s(&m), target.as_u32());
                    self.operand(j, cond);
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    let _ = write!(j.0, "\"yield\",\"to\":{},\"o\":", resume.as_u32());
                    self.operand(j, value);
                    j.raw(",\"ra\":");
                    self.place(j, *resume_arg);
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    let _ = write!(j.0, "\"goto\",\"to\":{}", real_target.as_u32());
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    let _ = write!(j.0, "\"goto\",\"to\":{}", real_target.as_u32());
                }
                TerminatorKind::InlineAsm { .. } => j.raw("\"asm\""),
            }
            j.raw("}}");
        });
        j.raw("}");
    }
}

fn impls(cx: &mut Cx<'_>, j: &mut J) {
    let tcx = cx.tcx;
    let mut all = Vec::new();
    for d in tcx.hir_crate_items(()).definitions() {
        let did = d.to_def_id();
        if let DefKind::Impl { .. } = tcx.def_kind(did) {
            all.push(did);
        }
    }
    j.list(all, |j, did| {
        let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
        let sti = cx.tyid(st);
        let _ = write!(j.0, "{{\"id\":{},\"self\":{sti}", s(&cx.id(did)));
        if let Some(tr) = tcx.impl_opt_trait_ref(did) {
            let tr = tr.skip_binder();
            let _ = write!(j.0, ",\"trait\":{}", s(&cx.path(tr.def_id)));
            let a: Vec<String> = tr.args.types().skip(1).map(|t| cx.tyid(t).to_string()).collect();
            let _ = write!(j.0, ",\"ta\":[{}]", a.join(","));
        }
        let derived = tcx.is_builtin_derived(did);
        let sp = cx.span(tcx.def_span(did));
        let _ = write!(j.0, ",\"derived\":{derived},\"span\":{sp},\"items\":[");
        let mut first = true;
        for &it in tcx.associated_item_def_ids(did) {
            if !first {
                j.raw(",");
            }
            first = false;
            let k = format!("{:?}", tcx.def_kind(it));
            let n = tcx.opt_item_name(it).map(|n| n.to_string()).unwrap_or_default();
            let _ = write!(j.0, "{{\"n\":{},\"id\":{},\"k\":{}", s(&n), s(&cx.id(it)), s(&k));
            if k.starts_with("AssocTy") {
                let t = tcx.type_of(it).instantiate_identity().skip_norm_wip();
                let t = cx.tyid(t);
                let _ = write!(j.0, ",\"t\":{t}");
            }
            j.raw("}");
        }
        j.raw("]}");
    });
}

struct Cb;

impl Callbacks for Cb {
    fn config(&mut self, config: &mut Config) {
        config.override_queries = Some(|_, p| {
            let _ = DEFAULT_MIR_BUILT.set(p.queries.mir_built);
            p.queries.mir_built = mir_built;
        });
    }

    fn after_analysis<'tcx>(&mut self, _: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let bodies: Vec<(LocalDefId, Body<'static>)> = BODIES.with(|b| std::mem::take(&mut *b.borrow_mut()));
        let bodies: Vec<(LocalDefId, Body<'tcx>)> = unsafe { std::mem::transmute(bodies) };
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let mut cx = Cx {
            tcx,
            tys: HashMap::new(),
            ty_out: vec![],
            spans: HashMap::new(),
            span_out: vec![],
            adts: HashMap::new(),
        };
        let mut j = J(String::new());
        let _ = write!(j.0, "{{\"crate\":{},\"nbodies\":{},\"bodies\":", s(&krate), bodies.len());
        j.list(bodies.iter(), |j, (d, b)| {
            let env = TypingEnv::post_analysis(tcx, d.to_def_id());
            B { cx: &mut cx, body: b, env }.dump(j, *d);
        });
        j.raw(",\"impls\":");
        impls(&mut cx, &mut j);
        // force the local ADTs
        for d in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Struct | DefKind::Enum = tcx.def_kind(d) {
                let def = tcx.adt_def(d);
                cx.adt(def);
            }
        }
        // statics and consts
        j.raw(",\"adts\":{");
        let mut adts: Vec<_> = cx.adts.iter().map(|(d, o)| (cx.id(*d), o.clone())).collect();
        adts.sort();
        for (i, (d, o)) in adts.iter().enumerate() {
            if i > 0 {
                j.raw(",");
            }
            let _ = write!(j.0, "{}:{}", s(d), o);
        }
        j.raw("},\"tys\":[");
        j.raw(&cx.ty_out.join(",\n"));
        j.raw("],\"spans\":[");
        j.raw(&cx.span_out.join(","));
        j.raw("]}");
        let dir = std::env::var("PALADIN_FACTS_DIR").expect("PALADIN_FACTS_DIR");
        let tmp = format!("{dir}/.{krate}.{}", std::process::id());
        std::fs::write(&tmp, j.0).expect("write facts");
        std::fs::rename(&tmp, format!("{dir}/{krate}.json")).expect("rename facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // An old rustix takes any nightly for one that still has these attributes.
    if let Some(i) = args.iter().position(|a| a == "rustc_attrs") {
        if args[i - 1] == "--cfg" {
            args.drain(i - 1..=i);
        }
    }
    // RUSTC_WRAPPER: argv[1] is the real rustc.
    let real = &args[1];
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1));
    let selected = name.is_some_and(|n| SELECTED.contains(&n.as_str()))
        && !args.iter().any(|a| a == "--test")
        && std::env::var_os("PALADIN_FACTS_DIR").is_some();
    if !selected {
        let st = Command::new(real).args(&args[2..]).status().expect("rustc");
        exit(st.code().unwrap_or(101));
    }
    let mut rargs = vec![real.clone()];
    rargs.extend_from_slice(&args[2..]);
    rustc_driver::install_ice_hook("", |_| ());
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&rargs, &mut Cb));
    exit(if code == ExitCode::SUCCESS { 0 } else { 1 });
}
