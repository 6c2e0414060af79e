//! MIR extractor: a rustc driver run as RUSTC_WORKSPACE_WRAPPER.  It compiles the crate exactly as
//! cargo asked and, on the side, writes the type-checked program (MIR as built, before borrowck
//! transforms, with resolved callees, ADT layouts and impl tables) to $VDRIVER_OUT as JSON.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

extern crate rustc_infer;
extern crate rustc_trait_selection;

use rustc_hir::def::DefKind;
use rustc_hir::intravisit::{self, Visitor};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_trait_selection::infer::InferCtxtExt;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;

thread_local! {
    static BODIES: RefCell<BTreeMap<u32, (LocalDefId, Body<'static>)>> = RefCell::new(BTreeMap::new());
}

static ORIG: std::sync::OnceLock<
    for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>,
> = std::sync::OnceLock::new();
extern crate rustc_data_structures;

fn my_mir_built<'tcx>(
    tcx: TyCtxt<'tcx>,
    def: LocalDefId,
) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>> {
    let r = (ORIG.get().unwrap())(tcx, def);
    let body: Body<'tcx> = r.borrow().clone();
    // SAFETY: only used while the same tcx is alive (after_analysis of the same session).
    let body: Body<'static> = unsafe { std::mem::transmute(body) };
    BODIES.with(|b| b.borrow_mut().insert(def.local_def_index.as_u32(), (def, body)));
    r
}

// ---------------------------------------------------------------- JSON helpers
fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, String>,
    adt_seen: HashSet<DefId>,
    adt_todo: Vec<DefId>,
    env: ty::TypingEnv<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn id(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }
    fn gargs(&mut self, a: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for g in a.iter() {
            match g.kind() {
                ty::GenericArgKind::Type(t) => v.push(self.ty(t).to_string()),
                ty::GenericArgKind::Const(c) => {
                    let s = match c.try_to_target_usize(self.tcx) {
                        Some(n) => format!("[\"const\",{}]", n),
                        None => format!("[\"constx\",{}]", js(&format!("{c}"))),
                    };
                    self.types.push(s);
                    v.push((self.types.len() - 1).to_string());
                }
                ty::GenericArgKind::Lifetime(_) => {}
            }
        }
        arr(&v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.tymap.insert(t, i);
        let s = match t.kind() {
            ty::Bool => "[\"bool\"]".into(),
            ty::Char => "[\"char\"]".into(),
            ty::Str => "[\"str\"]".into(),
            ty::Never => "[\"never\"]".into(),
            ty::Int(k) => format!("[\"int\",\"{}\"]", k.name_str()),
            ty::Uint(k) => format!("[\"int\",\"{}\"]", k.name_str()),
            ty::Float(k) => format!("[\"float\",\"{}\"]", k.name_str()),
            ty::Ref(_, t, m) => format!("[\"ref\",{},{}]", self.ty(*t), m.is_mut()),
            ty::RawPtr(t, m) => format!("[\"ptr\",{},{}]", self.ty(*t), m.is_mut()),
            ty::Slice(t) => format!("[\"slice\",{}]", self.ty(*t)),
            ty::Array(t, c) => {
                let n = match c.try_to_target_usize(self.tcx) {
                    Some(n) => n.to_string(),
                    None => "null".into(),
                };
                format!("[\"array\",{},{}]", self.ty(*t), n)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("[\"tuple\",{}]", arr(&v))
            }
            ty::Adt(d, a) => {
                let did = d.did();
                if self.adt_seen.insert(did) {
                    self.adt_todo.push(did);
                }
                format!("[\"adt\",{},{}]", js(&self.path(did)), self.gargs(a))
            }
            ty::Param(p) => format!("[\"param\",{},{}]", p.index, js(p.name.as_str())),
            ty::FnDef(d, a) => {
                let f = self.fndef((*d).into(), a.skip_binder());
                format!("[\"fndef\",{}]", f)
            }
            ty::Closure(d, a) => {
                let up: Vec<String> =
                    a.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                format!("[\"closure\",{},{}]", js(&self.id((*d).into())), arr(&up))
            }
            ty::Coroutine(d, a) => {
                let up: Vec<String> =
                    a.as_coroutine().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                format!("[\"coroutine\",{},{}]", js(&self.id((*d).into())), arr(&up))
            }
            ty::Dynamic(p, _) => {
                let v: Vec<String> = p
                    .iter()
                    .filter_map(|x| match x.skip_binder() {
                        ty::ExistentialPredicate::Trait(t) => Some(js(&self.path(t.def_id.into()))),
                        ty::ExistentialPredicate::AutoTrait(d) => Some(js(&self.path(d.into()))),
                        _ => None,
                    })
                    .collect();
                format!("[\"dyn\",{}]", arr(&v))
            }
            _ => format!("[\"other\",{}]", js(&with_no_trimmed_paths!(format!("{t}")))),
        };
        self.types[i] = s;
        i
    }
    fn fndef(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let tr = match tcx.trait_of_assoc(d) {
            Some(t) => js(&self.path(t)),
            None => "null".into(),
        };
        let implself = match tcx.impl_of_assoc(d) {
            Some(i) => {
                let t = tcx.type_of(i).instantiate(tcx, a).skip_norm_wip();
                self.ty(t).to_string()
            }
            None => "null".into(),
        };
        let impltrait = match tcx.impl_of_assoc(d) {
            Some(i) => match tcx.impl_opt_trait_ref(i) {
                Some(t) => js(&self.path(t.skip_binder().def_id.into())),
                None => "null".into(),
            },
            None => "null".into(),
        };
        let is_ctor = matches!(tcx.def_kind(d), DefKind::Ctor(..));
        let mut res = "null".to_string();
        if !is_ctor {
            let ea = tcx.erase_and_anonymize_regions(a);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                ty::Instance::try_resolve(tcx, self.env, d, ea)
            }));
            if let Ok(Ok(Some(inst))) = r {
                let k = match inst.def {
                    InstanceKindAlias::Item(_) => "item",
                    InstanceKindAlias::Intrinsic(_) => "intrinsic",
                    InstanceKindAlias::Virtual(..) => "virtual",
                    _ => "shim",
                };
                let rd = inst.def_id();
                let rimplself = match tcx.impl_of_assoc(rd) {
                    Some(i) => {
                        let t = tcx.type_of(i).instantiate(tcx, inst.args).skip_norm_wip();
                        self.ty(t).to_string()
                    }
                    None => "null".into(),
                };
                res = format!(
                    "{{\"k\":\"{}\",\"id\":{},\"path\":{},\"args\":{},\"local\":{},\"iself\":{}}}",
                    k,
                    js(&self.id(rd)),
                    js(&self.path(rd)),
                    self.gargs(inst.args),
                    rd.is_local(),
                    rimplself
                );
            }
        }
        let ctor = if is_ctor {
            let parent = tcx.parent(d);
            let (adt, vi) = match tcx.def_kind(parent) {
                DefKind::Variant => {
                    let adt = tcx.parent(parent);
                    (adt, tcx.adt_def(adt).variant_index_with_id(parent).as_usize())
                }
                _ => (parent, 0),
            };
            if self.adt_seen.insert(adt) {
                self.adt_todo.push(adt);
            }
            format!("[{},{}]", js(&self.path(adt)), vi)
        } else {
            "null".into()
        };
        format!(
            "{{\"id\":{},\"path\":{},\"args\":{},\"local\":{},\"trait\":{},\"itrait\":{},\"iself\":{},\"ctor\":{},\"res\":{}}}",
            js(&self.id(d)),
            js(&self.path(d)),
            self.gargs(a),
            d.is_local(),
            tr,
            impltrait,
            implself,
            ctor,
            res
        )
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".into(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"sub\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => format!("[\"dc\",{}]", v.as_usize()),
                ProjectionElem::OpaqueCast(_) => "[\"oc\"]".into(),
                _ => "[\"x\"]".into(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), arr(&v))
    }
    fn bytes_of(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let r = AllocRange {
                    start: rustc_abi::Size::from_bytes(off),
                    size: rustc_abi::Size::from_bytes(len),
                };
                a.get_bytes_strip_provenance(&self.tcx, r).ok().map(|b| b.to_vec())
            }
            _ => None,
        }
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let ti = self.ty(t);
        let unk = format!("{{\"t\":{},\"k\":\"unk\"}}", ti);
        if depth > 6 {
            return unk;
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let sc = match v {
                    ConstValue::Scalar(Scalar::Int(i)) => Some(i),
                    ConstValue::Indirect { alloc_id, offset } => {
                        let sz = match tcx.layout_of(self.env.as_query_input(t)) {
                            Ok(l) => l.size.bytes(),
                            Err(_) => return unk,
                        };
                        return match self.bytes_of(alloc_id, offset.bytes(), sz) {
                            Some(b) => {
                                let mut x: u128 = 0;
                                for (i, c) in b.iter().enumerate() {
                                    x |= (*c as u128) << (8 * i);
                                }
                                self.scalar(x, sz, t, ti)
                            }
                            None => unk,
                        };
                    }
                    _ => None,
                };
                match sc {
                    Some(i) => {
                        let sz = i.size().bytes();
                        self.scalar(i.to_bits(i.size()), sz, t, ti)
                    }
                    None => unk,
                }
            }
            ty::FnDef(d, a) => {
                let f = self.fndef((*d).into(), a.skip_binder());
                format!("{{\"t\":{},\"k\":\"fn\",\"v\":{}}}", ti, f)
            }
            ty::Ref(_, inner, _) => {
                let inner = *inner;
                if matches!(inner.kind(), ty::Str) || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8) {
                    let b = match v {
                        ConstValue::Slice { alloc_id, meta } => self.bytes_of(alloc_id, 0, meta),
                        _ => v.try_get_slice_bytes_for_diagnostics(tcx).map(|b| b.to_vec()),
                    };
                    if let Some(b) = b {
                        let bs: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                        let k = if matches!(inner.kind(), ty::Str) { "str" } else { "bytes" };
                        return format!("{{\"t\":{},\"k\":\"{}\",\"v\":{}}}", ti, k, arr(&bs));
                    }
                    return unk;
                }
                if let ConstValue::Scalar(Scalar::Ptr(p, _)) = v {
                    let (prov, off) = p.prov_and_relative_offset();
                    let id = prov.alloc_id();
                    if let GlobalAlloc::Memory(_) = tcx.global_alloc(id) {
                        if tcx.layout_of(self.env.as_query_input(inner)).is_ok() {
                            let c = self.cval(ConstValue::Indirect { alloc_id: id, offset: off }, inner, depth + 1);
                            return format!("{{\"t\":{},\"k\":\"ref\",\"v\":{}}}", ti, c);
                        }
                    }
                }
                unk
            }
            ty::Array(..) | ty::Tuple(..) | ty::Adt(..) => {
                if matches!(v, ConstValue::ZeroSized) && !matches!(t.kind(), ty::Adt(d, _) if d.is_enum()) {
                    return format!("{{\"t\":{},\"k\":\"agg\",\"var\":0,\"v\":[]}}", ti);
                }
                if !matches!(v, ConstValue::Indirect{..} | ConstValue::Scalar(_)) {
                    return unk;
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    tcx.try_destructure_mir_constant_for_user_output(v, t)
                }));
                match r {
                    Ok(Some(d)) => {
                        let vi = d.variant.map(|v| v.as_usize()).unwrap_or(0);
                        let f: Vec<String> =
                            d.fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                        format!("{{\"t\":{},\"k\":\"agg\",\"var\":{},\"v\":{}}}", ti, vi, arr(&f))
                    }
                    _ => unk,
                }
            }
            _ => match v {
                ConstValue::ZeroSized => format!("{{\"t\":{},\"k\":\"zst\"}}", ti),
                _ => unk,
            },
        }
    }
    fn scalar(&self, x: u128, sz: u64, t: Ty<'tcx>, ti: usize) -> String {
        let s = match t.kind() {
            ty::Int(_) => {
                let sh = 128 - 8 * sz as u32;
                format!("{}", ((x << sh) as i128) >> sh)
            }
            _ => format!("{}", x),
        };
        let k = match t.kind() {
            ty::Bool => "bool",
            ty::Char => "char",
            ty::Float(_) => "float",
            _ => "int",
        };
        format!("{{\"t\":{},\"k\":\"{}\",\"v\":{}}}", ti, k, s)
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        if let ty::FnDef(d, a) = t.kind() {
            let ti = self.ty(t);
            let f = self.fndef((*d).into(), a.skip_binder());
            return format!("{{\"t\":{},\"k\":\"fn\",\"v\":{}}}", ti, f);
        }
        let tcx = self.tcx;
        let env = self.env;
        let named = match c.const_ {
            Const::Unevaluated(u, _) => Some(self.path(u.def)),
            _ => None,
        };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.const_.eval(tcx, env, c.span)));
        let mut s = match r {
            Ok(Ok(v)) => self.cval(v, t, 0),
            _ => format!("{{\"t\":{},\"k\":\"unk\"}}", self.ty(t)),
        };
        if let Some(n) = named {
            s.pop();
            let _ = write!(s, ",\"n\":{}}}", js(&n));
        }
        s
    }
    fn op(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"c\",{}]", self.konst(c)),
            _ => "[\"x\"]".into(),
        }
    }
    fn rv(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Repeat(o, c) => {
                let n = match c.try_to_target_usize(self.tcx) {
                    Some(n) => n.to_string(),
                    None => "null".into(),
                };
                format!("[\"rep\",{},{}]", self.op(o), n)
            }
            Rvalue::Ref(_, k, p) => {
                format!("[\"ref\",{},{}]", self.place(p), matches!(k, BorrowKind::Mut { .. }))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                format!("[\"cast\",{},{},{}]", js(&ks), self.op(o), self.ty(*t))
            }
            Rvalue::BinaryOp(b, ops) => {
                format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(&ops.0), self.op(&ops.1))
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(o)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                let v = arr(&v);
                match &**k {
                    AggregateKind::Array(t) => format!("[\"agg\",\"array\",{},{}]", self.ty(*t), v),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,{}]", v),
                    AggregateKind::Adt(d, vi, a, _, uf) => {
                        let did: DefId = (*d).into();
                        let t = self.tcx.type_of(did).instantiate(self.tcx, a).skip_norm_wip();
                        let ti = self.ty(t);
                        let uf = match uf {
                            Some(f) => f.as_usize().to_string(),
                            None => "null".into(),
                        };
                        format!("[\"agg\",\"adt\",[{},{},{},{}],{}]", js(&self.path(did)), vi.as_usize(), ti, uf, v)
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("[\"agg\",\"closure\",{},{}]", js(&self.id((*d).into())), v)
                    }
                    AggregateKind::Coroutine(d, _) => {
                        format!("[\"agg\",\"coroutine\",{},{}]", js(&self.id((*d).into())), v)
                    }
                    AggregateKind::CoroutineClosure(d, _) => {
                        format!("[\"agg\",\"closure\",{},{}]", js(&self.id((*d).into())), v)
                    }
                    _ => "[\"x\"]".into(),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            _ => format!("[\"x\",{}]", js(&format!("{:?}", r))),
        }
    }
    fn body(&mut self, def: LocalDefId, b: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let did = def.to_def_id();
        self.env = ty::TypingEnv::non_body_analysis(tcx, tcx.typeck_root_def_id(did));
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        let mut dbg = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                } else {
                    dbg.push(format!("[{},{}]", js(v.name.as_str()), self.place(p)));
                }
            }
        }
        let mut locals = vec![];
        for (i, l) in b.local_decls.iter_enumerated() {
            let n = match names.get(&i.as_usize()) {
                Some(n) => js(n),
                None => "null".into(),
            };
            locals.push(format!("[{},{}]", self.ty(l.ty), n));
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        st.push(format!("[\"=\",{},{},{}]", self.place(p), self.rv(r), js(&self.span(s.source_info.span))));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"setd\",{},{}]", self.place(place), variant_index.as_usize()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"sd\",{}]", l.as_usize())),
                    StatementKind::StorageLive(l) => st.push(format!("[\"sl\",{}]", l.as_usize())),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = js(&self.span(t.source_info.span));
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut v = vec![];
                    for (val, bb) in targets.iter() {
                        v.push(format!("[{},{}]", val, bb.as_usize()));
                    }
                    let dt = discr.ty(&b.local_decls, tcx);
                    format!("[\"switch\",{},{},{},{},{}]", self.op(discr), arr(&v), targets.otherwise().as_usize(), self.ty(dt), sp)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::CoroutineDrop => "[\"cdrop\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&b.local_decls, tcx).ty;
                    format!("[\"drop\",{},{},{},{}]", self.place(place), target.as_usize(), self.ty(pt), sp)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|o| self.op(&o.node)).collect();
                    let tg = match target {
                        Some(t) => t.as_usize().to_string(),
                        None => "null".into(),
                    };
                    let dt = destination.ty(&b.local_decls, tcx).ty;
                    format!("[\"call\",{},{},{},{},{},{}]", self.op(func), arr(&a), self.place(destination), tg, self.ty(dt), sp)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds".to_string(), vec![self.op(len), self.op(index)])
                        }
                        AssertKind::Overflow(o, a, b) => (format!("overflow{:?}", o), vec![self.op(a), self.op(b)]),
                        AssertKind::OverflowNeg(a) => ("overflowNeg".into(), vec![self.op(a)]),
                        AssertKind::DivisionByZero(a) => ("div0".into(), vec![self.op(a)]),
                        AssertKind::RemainderByZero(a) => ("rem0".into(), vec![self.op(a)]),
                        _ => ("other".into(), vec![]),
                    };
                    format!("[\"assert\",{},{},{},{},{},{}]", self.op(cond), expected, js(&k), arr(&ops), target.as_usize(), sp)
                }
                TerminatorKind::Yield { value, resume, resume_arg, drop } => {
                    let d = match drop {
                        Some(t) => t.as_usize().to_string(),
                        None => "null".into(),
                    };
                    format!("[\"yield\",{},{},{},{},{}]", self.op(value), resume.as_usize(), self.place(resume_arg), d, sp)
                }
                _ => "[\"x\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"c\":{}}}", arr(&st), ts, bb.is_cleanup));
        }
        let kind = format!("{:?}", tcx.def_kind(did));
        let parent = js(&self.id(tcx.parent(did)));
        let cor = tcx.coroutine_kind(did).is_some();
        let (implself, impltrait) = match tcx.impl_of_assoc(did) {
            Some(i) => {
                let t = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                let s = self.ty(t).to_string();
                let tr = match tcx.impl_opt_trait_ref(i) {
                    Some(t) => js(&self.path(t.skip_binder().def_id.into())),
                    None => "null".into(),
                };
                (s, tr)
            }
            None => ("null".into(), "null".into()),
        };
        let intrait = match tcx.trait_of_assoc(did) {
            Some(t) => js(&self.path(t)),
            None => "null".into(),
        };
        let derived = tcx.impl_of_assoc(did).map(|i| tcx.is_automatically_derived(i)).unwrap_or(false);
        let public = match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn => tcx.visibility(did).is_public(),
            _ => false,
        };
        let reach = tcx.effective_visibilities(()).is_reachable(def);
        let nm = tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default();
        let mut gen = vec![];
        let mut g = tcx.generics_of(tcx.typeck_root_def_id(did));
        loop {
            for p in &g.own_params {
                if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                    gen.push((p.index, p.name.to_string()));
                }
            }
            match g.parent {
                Some(p) => g = tcx.generics_of(p),
                None => break,
            }
        }
        gen.sort();
        let gen: Vec<String> = gen.iter().map(|(i, n)| format!("[{},{}]", i, js(n))).collect();
        format!(
            "{{\"id\":{},\"path\":{},\"name\":{},\"kind\":{},\"parent\":{},\"coroutine\":{},\"span\":{},\"argc\":{},\"locals\":{},\"dbg\":{},\"blocks\":{},\"iself\":{},\"itrait\":{},\"intrait\":{},\"pub\":{},\"reach\":{},\"derived\":{},\"generics\":{},\"test\":{}}}",
            js(&self.id(did)), js(&self.path(did)), js(&nm), js(&kind), parent, cor, js(&self.span(b.span)), b.arg_count,
            arr(&locals), arr(&dbg), arr(&blocks), implself, impltrait, intrait, public, reach, derived, arr(&gen), false
        )
    }
    fn do_adts(&mut self) {
        while let Some(d) = self.adt_todo.pop() {
            let tcx = self.tcx;
            let def = tcx.adt_def(d);
            let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
            let big = !d.is_local() && !def.is_enum() && def.all_fields().count() > 40;
            let mut vs = vec![];
            if !big {
                let discrs: Vec<(usize, String)> = if def.is_enum() {
                    def.discriminants(tcx).map(|(i, d)| (i.as_usize(), format!("{}", d))).collect()
                } else {
                    vec![]
                };
                for (vi, v) in def.variants().iter_enumerated() {
                    let fs: Vec<String> = v
                        .fields
                        .iter()
                        .map(|f| {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let ti = if d.is_local() { self.ty(t).to_string() } else { "null".into() };
                            format!("[{},{},{}]", js(f.name.as_str()), ti, f.vis.is_public())
                        })
                        .collect();
                    let dv = discrs.iter().find(|(i, _)| *i == vi.as_usize()).map(|x| x.1.clone()).unwrap_or("0".into());
                    let dv = dv.trim_end_matches(|c: char| c.is_alphabetic() || c == '_');
                    let dv: String = dv.chars().take_while(|c| c.is_ascii_digit() || *c == '-').collect();
                    let dv = if dv.is_empty() { "0".to_string() } else { dv };
                    vs.push(format!("{{\"name\":{},\"d\":{},\"f\":{}}}", js(v.name.as_str()), dv, arr(&fs)));
                }
            }
            let p = self.path(d);
            let s = format!("{{\"kind\":\"{}\",\"local\":{},\"id\":{},\"v\":{}}}", kind, d.is_local(), js(&self.id(d)), arr(&vs));
            self.adts.insert(p, s);
        }
    }
}
use rustc_middle::ty::InstanceKind as InstanceKindAlias;

struct Cb;
/// unsafe code written in this crate (expansions of other crates' macros are theirs)
struct Unsafety<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<(LocalDefId, rustc_span::Span, &'static str)>,
}

impl<'tcx> Unsafety<'tcx> {
    fn note(&mut self, id: rustc_hir::HirId, sp: rustc_span::Span, what: &'static str) {
        if !sp.in_external_macro(self.tcx.sess.source_map()) {
            self.out.push((id.owner.def_id, sp, what));
        }
    }
}

impl<'tcx> Visitor<'tcx> for Unsafety<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.note(b.hir_id, b.span, "unsafe block");
        }
        intravisit::walk_block(self, b);
    }
    fn visit_fn(
        &mut self,
        k: intravisit::FnKind<'tcx>,
        d: &'tcx rustc_hir::FnDecl<'tcx>,
        b: rustc_hir::BodyId,
        sp: rustc_span::Span,
        id: LocalDefId,
    ) {
        if k.header().map_or(false, |h| h.is_unsafe()) {
            self.note(self.tcx.local_def_id_to_hir_id(id), sp, "unsafe fn");
        }
        intravisit::walk_fn(self, k, d, b, id);
    }
    fn visit_item(&mut self, i: &'tcx rustc_hir::Item<'tcx>) {
        match &i.kind {
            rustc_hir::ItemKind::Impl(im) => {
                if im.of_trait.map_or(false, |t| matches!(t.safety, rustc_hir::Safety::Unsafe)) {
                    self.note(i.hir_id(), i.span, "unsafe impl");
                }
            }
            rustc_hir::ItemKind::ForeignMod { .. } => self.note(i.hir_id(), i.span, "foreign functions"),
            _ => {}
        }
        intravisit::walk_item(self, i);
    }
}

impl<'tcx> Cx<'tcx> {
    /// does the type implement the auto trait under the item's own bounds
    fn implements(&self, owner: DefId, t: Ty<'tcx>, tr: DefId) -> bool {
        let tcx = self.tcx;
        let env = ty::TypingEnv::post_analysis(tcx, owner);
        let (infcx, pe) = tcx.infer_ctxt().build_with_typing_env(env);
        let t = tcx.erase_and_anonymize_regions(t);
        infcx.type_implements_trait(tr, [t], pe).must_apply_modulo_regions()
    }

    fn autos(&mut self) -> (Vec<String>, Vec<String>) {
        let tcx = self.tcx;
        let send = tcx.get_diagnostic_item(rustc_span::Symbol::intern("Send"));
        let sync = tcx.lang_items().sync_trait();
        let (mut a, mut f) = (vec![], vec![]);
        let (Some(send), Some(sync)) = (send, sync) else { return (a, f) };
        for d in tcx.hir_crate_items(()).definitions() {
            let did = d.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let (x, y) = (self.implements(did, t, send), self.implements(did, t, sync));
                    a.push(format!("{}:[{},{},{}]", js(&self.path(did)), x, y, tcx.visibility(did).is_public()));
                }
                DefKind::Fn | DefKind::AssocFn => {
                    if tcx.asyncness(did).is_async() {
                        let t = tcx.liberate_late_bound_regions(did, tcx.fn_sig(did).instantiate_identity().skip_norm_wip().output());
                        let x = self.implements(did, t, send);
                        f.push(format!("[{},{},{}]", js(&self.path(did)), x, tcx.visibility(did).is_public()));
                    }
                }
                _ => {}
            }
        }
        (a, f)
    }

    fn unsafety(&mut self) -> Vec<String> {
        let mut v = Unsafety { tcx: self.tcx, out: vec![] };
        self.tcx.hir_walk_toplevel_module(&mut v);
        let o = std::mem::take(&mut v.out);
        o.into_iter()
            .map(|(d, s, w)| format!("[{},{},{}]", js(&self.path(d.to_def_id())), js(&self.span(s)), js(w)))
            .collect()
    }
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_s, p| {
            let _ = ORIG.set(p.queries.mir_built);
            p.queries.mir_built = my_mir_built;
        });
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let out = match std::env::var("VDRIVER_OUT") {
            Ok(o) => o,
            Err(_) => return rustc_driver::Compilation::Continue,
        };
        let mut cx = Cx {
            tcx,
            types: vec![],
            tymap: HashMap::new(),
            adts: BTreeMap::new(),
            adt_seen: HashSet::new(),
            adt_todo: vec![],
            env: ty::TypingEnv::fully_monomorphized(),
        };
        let bodies: Vec<(LocalDefId, Body<'static>)> =
            BODIES.with(|b| std::mem::take(&mut *b.borrow_mut())).into_values().collect();
        let mut outs = vec![];
        for (d, b) in &bodies {
            let b: &Body<'tcx> = unsafe { std::mem::transmute(b) };
            outs.push(cx.body(*d, b));
        }
        // impls of traits
        let mut impls = vec![];
        for (tr, is) in tcx.all_local_trait_impls(()).iter() {
            for i in is {
                let did = i.to_def_id();
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let ti = cx.ty(t);
                let tref = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                let targs = cx.gargs(tref.args);
                let ms: Vec<String> = tcx
                    .associated_items(did)
                    .in_definition_order()
                    .filter(|a| a.is_fn())
                    .map(|a| format!("[{},{}]", js(a.name().as_str()), js(&cx.id(a.def_id))))
                    .collect();
                impls.push(format!(
                    "{{\"trait\":{},\"self\":{},\"targs\":{},\"m\":{}}}",
                    js(&cx.path((*tr).into())),
                    ti,
                    targs,
                    arr(&ms)
                ));
            }
        }
        for d in tcx.hir_crate_items(()).definitions() {
            let did = d.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum) && cx.adt_seen.insert(did) {
                cx.adt_todo.push(did);
            }
        }
        cx.do_adts();
        let ad: Vec<String> = cx.adts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let (autos, futs) = cx.autos();
        let uns = cx.unsafety();
        let s = format!(
            "{{\"auto\":{{{}}},\"futures\":[{}],\"unsafe\":[{}],\"crate\":{},\"bodies\":[\n{}\n],\"types\":[\n{}\n],\"adts\":{{\n{}\n}},\"impls\":[\n{}\n]}}\n",
            autos.join(","),
            futs.join(","),
            uns.join(","),
            js(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str()),
            outs.join(",\n"),
            cx.types.join(",\n"),
            ad.join(",\n"),
            impls.join(",\n")
        );
        std::fs::write(&out, s).expect("write VDRIVER_OUT");
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let want = std::env::var("VDRIVER_CRATE").unwrap_or_else(|_| "async_tiff".into());
    let mut is = false;
    for i in 0..args.len() {
        if args[i] == "--crate-name" && args.get(i + 1).map(|s| s.as_str()) == Some(want.as_str()) {
            is = true;
        }
    }
    rustc_driver::install_ice_hook("vdriver", |_| ());
    if is {
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
    } else {
        struct N;
        impl rustc_driver::Callbacks for N {}
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut N))
    }
}
