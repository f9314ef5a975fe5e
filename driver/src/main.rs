//! Compiler driver: runs as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check` and, for the crate
//! named in MIRFACTS_CRATE, writes the type-checked program (MIR of every function the crate
//! contains and of every instance reachable from it, with resolved callees, types, constants and
//! item inventory) as JSON to MIRFACTS_OUT. It decides nothing itself.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;
use json::J;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LocalDefId};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut x = Ex::new(tcx);
        x.run();
        let s = x.finish();
        std::fs::write(&self.out, s).expect("writing facts");
        // the facts are complete; borrowck and codegen are the stable compiler's business
        Compilation::Stop
    }
}

fn h64(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

struct Ex<'tcx> {
    tcx: TyCtxt<'tcx>,
    built: HashMap<LocalDefId, Body<'tcx>>,
    queue: VecDeque<(Instance<'tcx>, DefId)>, // instance, env owner
    seen: HashSet<String>,
    bodies: BTreeMap<String, J>,
    types: HashMap<Ty<'tcx>, usize>,
    type_list: Vec<J>,
    adts: BTreeMap<String, J>,
    env_owner: DefId,
    budget: usize,
}

fn paths<T>(f: impl FnOnce() -> T) -> T {
    with_no_trimmed_paths!(with_no_visible_paths!(f()))
}

impl<'tcx> Ex<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Ex {
            tcx,
            built: HashMap::new(),
            queue: VecDeque::new(),
            seen: HashSet::new(),
            bodies: BTreeMap::new(),
            types: HashMap::new(),
            type_list: Vec::new(),
            adts: BTreeMap::new(),
            env_owner: rustc_span::def_id::CRATE_DEF_ID.to_def_id(),
            budget: 20000,
        }
    }

    fn path(&self, d: DefId) -> String {
        paths(|| {
            let p = self.tcx.def_path_str(d);
            if d.is_local() {
                format!("{}::{}", self.tcx.crate_name(rustc_span::def_id::LOCAL_CRATE), p).replace("rsasl::<", "<")
            } else {
                p
            }
        })
    }
    fn ty_str(&self, t: Ty<'tcx>) -> String {
        paths(|| format!("{t}"))
    }
    fn span(&self, s: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::A(vec![J::S(f), J::I(lo.line as i128)])
    }

    fn env(&self) -> TypingEnv<'tcx> {
        TypingEnv::post_analysis(self.tcx, self.env_owner)
    }

    fn key(&self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let a = paths(|| args.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(", "));
        format!("{}#{:016x}", self.path(d), h64(&a))
    }

    fn norm<T>(&self, args: GenericArgsRef<'tcx>, v: T) -> Result<T, String>
    where
        T: ty::TypeFoldable<TyCtxt<'tcx>> + Clone,
    {
        self.tcx
            .try_instantiate_and_normalize_erasing_regions(args, self.env(), EarlyBinder::bind(self.tcx, v))
            .map_err(|_| "normalization failed".to_string())
    }

    // ---- types -------------------------------------------------------------------------------
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        J::I(self.ty_id(t) as i128)
    }
    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.type_list.len();
        self.type_list.push(J::Null);
        self.types.insert(t, i);
        let mut o: Vec<(&str, J)> = vec![("s", J::S(self.ty_str(t)))];
        match t.kind() {
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Int(_) => o.push(("k", J::s("int"))),
            ty::Uint(_) => o.push(("k", J::s("uint"))),
            ty::Float(_) => o.push(("k", J::s("float"))),
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::Adt(def, args) => {
                o.push(("k", J::s("adt")));
                o.push(("path", J::S(self.path(def.did()))));
                let a: Vec<J> = args.iter().map(|g| self.garg(g)).collect();
                o.push(("args", J::A(a)));
                self.adt(def.did());
            }
            ty::Array(e, n) => {
                o.push(("k", J::s("array")));
                let e = self.ty(*e);
                o.push(("elem", e));
                let n = self.const_usize(*n);
                o.push(("len", n));
            }
            ty::Slice(e) => {
                o.push(("k", J::s("slice")));
                let e = self.ty(*e);
                o.push(("elem", e));
            }
            ty::RawPtr(e, m) => {
                o.push(("k", J::s("ptr")));
                let e = self.ty(*e);
                o.push(("to", e));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::Ref(_, e, m) => {
                o.push(("k", J::s("ref")));
                let e = self.ty(*e);
                o.push(("to", e));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::FnDef(d, args) => {
                o.push(("k", J::s("fndef")));
                let args = args.skip_binder();
                let c = self.callee(*d, args);
                o.push(("callee", c));
            }
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::Dynamic(p, _) => {
                o.push(("k", J::s("dyn")));
                if let Some(pd) = p.principal_def_id() {
                    o.push(("trait", J::S(self.path(pd))));
                }
            }
            ty::Closure(d, args) => {
                o.push(("k", J::s("closure")));
                o.push(("path", J::S(self.path(*d))));
                o.push(("key", J::S(self.key(*d, args))));
                self.enqueue(Instance::new_raw(*d, args));
                let u: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                o.push(("upvars", J::A(u)));
                o.push(("ckind", J::S(format!("{:?}", args.as_closure().kind()))));
            }
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let u: Vec<J> = ts.iter().map(|t| self.ty(t)).collect();
                o.push(("elems", J::A(u)));
            }
            ty::Param(p) => {
                o.push(("k", J::s("param")));
                o.push(("name", J::S(p.name.to_string())));
            }
            ty::Alias(..) => o.push(("k", J::s("alias"))),
            _ => o.push(("k", J::s("other"))),
        }
        self.type_list[i] = J::o(o);
        i
    }
    fn garg(&mut self, g: ty::GenericArg<'tcx>) -> J {
        match g.kind() {
            ty::GenericArgKind::Type(t) => J::o(vec![("t", self.ty(t))]),
            ty::GenericArgKind::Const(c) => J::o(vec![("c", self.const_usize(c))]),
            ty::GenericArgKind::Lifetime(_) => J::s("'"),
            #[allow(unreachable_patterns)]
            _ => J::s("?"),
        }
    }
    fn const_usize(&mut self, c: ty::Const<'tcx>) -> J {
        if let Some(n) = c.try_to_target_usize(self.tcx) {
            return J::I(n as i128);
        }
        if let Ok(c2) = self.tcx.try_normalize_erasing_regions(self.env(), ty::Unnormalized::new_wip(c)) {
            if let Some(n) = c2.try_to_target_usize(self.tcx) {
                return J::I(n as i128);
            }
        }
        J::S(paths(|| format!("{c}")))
    }
    fn adt(&mut self, d: DefId) {
        let p = self.path(d);
        if self.adts.contains_key(&p) {
            return;
        }
        self.adts.insert(p.clone(), J::Null);
        let def = self.tcx.adt_def(d);
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let mut vs = vec![];
        for (i, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() { def.discriminant_for_variant(self.tcx, i).val as i128 } else { 0 };
            let mut fs = vec![];
            for f in v.fields.iter() {
                let ft = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let t = if d.is_local() { self.ty(ft) } else { J::Null };
                fs.push(J::o(vec![
                    ("name", J::S(f.name.to_string())),
                    ("s", J::S(self.ty_str(ft))),
                    ("ty", t),
                    ("pub", J::B(f.vis.is_public())),
                ]));
            }
            vs.push(J::o(vec![
                ("name", J::S(v.name.to_string())),
                ("discr", J::I(discr)),
                ("fields", J::A(fs)),
            ]));
        }
        let repr = def.repr();
        let span = self.span(self.tcx.def_span(d));
        let j = J::o(vec![
            ("kind", J::s(kind)),
            ("transparent", J::B(repr.transparent())),
            ("local", J::B(d.is_local())),
            ("variants", J::A(vs)),
            ("span", span),
        ]);
        self.adts.insert(p, j);
    }

    // ---- callees -----------------------------------------------------------------------------
    fn enqueue(&mut self, i: Instance<'tcx>) {
        let k = self.key(i.def_id(), i.args);
        if self.seen.insert(k) {
            self.queue.push_back((i, self.env_owner));
        }
    }
    fn wanted_extern(&self, d: DefId) -> bool {
        let p = self.path(d);
        const ALLOW: &[&str] = &[
            "core::option::", "core::result::", "core::ops::control_flow", "core::ops::function", "core::convert::",
            "core::bool::", "core::cmp::", "core::mem::replace", "core::mem::take", "core::mem::swap",
            "<core::option::", "<core::result::", "<core::ops::control_flow", "core::ops::try_trait",
            "<T as core::convert::", "<U as core::convert::", "<bool", "core::iter::traits::iterator::Iterator",
            "core::iter::traits::iterator::", "core::array::", "core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last",
            "core::slice::<impl [T]>::get", "core::slice::<impl [T]>::split_at", "core::slice::<impl [T]>::contains",
        ];
        ALLOW.iter().any(|a| p.starts_with(a))
    }
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&str, J)> = vec![
            ("path", J::S(self.path(d))),
            ("name", J::S(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())),
            ("local", J::B(d.is_local())),
        ];
        let ga: Vec<J> = args.iter().map(|g| self.garg(g)).collect();
        o.push(("args", J::A(ga)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::S(self.path(tr))));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            o.push(("unsafe", J::B(!sig.safety().is_safe())));
            o.push(("diverges", J::B(sig.output().skip_binder().is_never())));
        }
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            o.push(("ctor", J::B(true)));
            let parent = tcx.parent(d);
            // variant or struct
            let (adt, var) = if matches!(tcx.def_kind(parent), DefKind::Variant) {
                let adt = tcx.parent(parent);
                let def = tcx.adt_def(adt);
                (adt, def.variant_index_with_id(parent).as_usize())
            } else {
                (parent, 0)
            };
            self.adt(adt);
            o.push(("ctor_adt", J::S(self.path(adt))));
            o.push(("ctor_variant", J::I(var as i128)));
            return J::o(o);
        }
        let k = tcx.def_kind(d);
        if matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            if let Ok(args2) = tcx.try_normalize_erasing_regions(self.env(), ty::Unnormalized::new_wip(args)) {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    Instance::try_resolve(tcx, self.env(), d, args2)
                }));
                if let Ok(Ok(Some(inst))) = r {
                    self.resolved(&mut o, inst);
                }
            }
        }
        J::o(o)
    }
    fn resolved(&mut self, o: &mut Vec<(&'static str, J)>, inst: Instance<'tcx>) {
        let tcx = self.tcx;
        match inst.def {
            InstanceKind::Item(d) => {
                o.push(("rpath", J::S(self.path(d))));
                o.push(("rlocal", J::B(d.is_local())));
                o.push(("rkey", J::S(self.key(d, inst.args))));
                let rg: Vec<J> = inst.args.iter().map(|g| self.garg(g)).collect();
                o.push(("rargs", J::A(rg)));
                if d.is_local() {
                    o.push(("body", J::B(true)));
                    self.enqueue(inst);
                } else if self.wanted_extern(d) && tcx.is_mir_available(d) {
                    o.push(("body", J::B(true)));
                    self.enqueue(inst);
                }
            }
            InstanceKind::Intrinsic(d) => {
                o.push(("rpath", J::S(self.path(d))));
                o.push(("rkind", J::s("intrinsic")));
            }
            InstanceKind::Virtual(d, _) => {
                o.push(("rpath", J::S(self.path(d))));
                o.push(("rkind", J::s("virtual")));
            }
            InstanceKind::Shim(s) => {
                o.push(("rkind", J::S(format!("shim"))));
                match s {
                    ty::ShimKind::ClosureOnce { closure, .. } => {
                        o.push(("rshim", J::s("closure_once")));
                        o.push(("rpath", J::S(self.path(closure))));
                        // args of the shim are [closure type, arg tuple]
                        if let ty::Closure(cd, ca) = inst.args.type_at(0).kind() {
                            o.push(("rkey", J::S(self.key(*cd, ca))));
                            self.enqueue(Instance::new_raw(*cd, ca));
                        }
                    }
                    ty::ShimKind::FnPtr(_, t) => {
                        o.push(("rshim", J::s("fnptr")));
                        if let ty::FnDef(fd, fa) = t.kind() {
                            let fa = fa.skip_binder();
                            let c = self.callee(*fd, fa);
                            o.push(("rfn", c));
                        }
                    }
                    ty::ShimKind::Clone(_, t) => {
                        o.push(("rshim", J::s("clone")));
                        o.push(("rty", self.ty(t)));
                    }
                    ty::ShimKind::DropGlue(..) => o.push(("rshim", J::s("drop"))),
                    _ => o.push(("rshim", J::s("other"))),
                }
            }
            _ => o.push(("rkind", J::s("llvm"))),
        }
    }

    // ---- constants ---------------------------------------------------------------------------
    fn konst(&mut self, c: &Const<'tcx>) -> J {
        let t = c.ty();
        let mut o: Vec<(&str, J)> = vec![("ty", self.ty(t))];
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.skip_binder();
            o.push(("fn", self.callee(*d, args)));
            return J::o(o);
        }
        match c {
            Const::Ty(_, k) => {
                if let ty::ConstKind::Param(p) = k.kind() {
                    o.push(("param", J::S(p.name.to_string())));
                    return J::o(o);
                }
            }
            Const::Unevaluated(u, _) => {
                o.push(("def", J::S(self.path(u.def))));
            }
            _ => {}
        }
        let has_param = {
            use rustc_middle::ty::TypeVisitableExt;
            c.has_param()
        };
        if has_param {
            if let Const::Unevaluated(..) = c {
                o.push(("uneval", J::B(true)));
                return J::o(o);
            }
        }
        let env = if has_param { self.env() } else { TypingEnv::fully_monomorphized() };
        match c.eval(self.tcx, env, rustc_span::DUMMY_SP) {
            Ok(v) => {
                let j = self.cval(v, t, 0);
                o.push(("v", j));
            }
            Err(_) => o.push(("uneval", J::B(true))),
        }
        J::o(o)
    }
    /// constant with its type attached
    fn cval_t(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let mut j = self.cval(v, t, depth);
        let ti = self.ty(t);
        if let J::O(o) = &mut j {
            if !o.iter().any(|(k, _)| *k == "ty") {
                o.push(("ty", ti));
            }
        }
        j
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 6 {
            return J::o(vec![("opaque", J::B(true))]);
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(si) = v.try_to_scalar_int() {
                    let sz = si.size();
                    let bits = si.to_bits(sz);
                    let n: i128 = if matches!(t.kind(), ty::Int(_)) { sz.sign_extend(bits) as i128 } else { bits as i128 };
                    return J::o(vec![("int", J::I(n))]);
                }
            }
            ty::Ref(_, inner, _) => {
                match inner.kind() {
                    ty::Str | ty::Slice(_) => {
                        let is_u8 = match inner.kind() {
                            ty::Slice(e) => e.is_integral() && *e == tcx.types.u8,
                            _ => true,
                        };
                        if is_u8 {
                            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                let k = if inner.is_str() { "str" } else { "bytes" };
                                return J::o(vec![(k, J::bytes(b))]);
                            }
                        } else if let (ty::Slice(e), ConstValue::Slice { alloc_id, meta }) = (inner.kind(), v) {
                            let at = Ty::new_array(tcx, *e, meta);
                            let inner_v = ConstValue::Indirect { alloc_id, offset: rustc_abi::Size::ZERO };
                            let j = self.cval_t(inner_v, at, depth + 1);
                            return J::o(vec![("ref", j)]);
                        } else if let (ty::Slice(e), ConstValue::Indirect { alloc_id, offset }) = (inner.kind(), v) {
                            // fat pointer stored in memory
                            if let interpret::GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                                let a = m.inner();
                                let o = offset.bytes() as usize;
                                let prov = a.provenance().ptrs().iter().find(|(k, _)| k.bytes() as usize == o).map(|(_, p)| *p);
                                if let (Some(p), true) = (prov, o + 16 <= a.len()) {
                                    let raw = a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + 16);
                                    let off = u64::from_le_bytes(raw[..8].try_into().unwrap());
                                    let n = u64::from_le_bytes(raw[8..].try_into().unwrap());
                                    if n <= 4096 {
                                        let at = Ty::new_array(tcx, *e, n);
                                        let inner_v = ConstValue::Indirect {
                                            alloc_id: p.alloc_id(),
                                            offset: rustc_abi::Size::from_bytes(off),
                                        };
                                        let j = self.cval_t(inner_v, at, depth + 1);
                                        return J::o(vec![("ref", j)]);
                                    }
                                }
                            }
                        }
                    }
                    _ => {
                        if let Some(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v.try_to_scalar() {
                            let (prov, off) = p.prov_and_relative_offset();
                            let id = prov.alloc_id();
                            match tcx.global_alloc(id) {
                                interpret::GlobalAlloc::Static(d) => {
                                    return J::o(vec![("static", J::S(self.path(d)))]);
                                }
                                interpret::GlobalAlloc::Memory(_) => {
                                    let inner_v = ConstValue::Indirect { alloc_id: id, offset: off };
                                    let j = self.cval_t(inner_v, *inner, depth + 1);
                                    return J::o(vec![("ref", j)]);
                                }
                                _ => {}
                            }
                        }
                    }
                }
            }
            ty::Array(e, _) if *e == tcx.types.u8 => {
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let interpret::GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                        if let Ok(l) = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)) {
                            let s = offset.bytes() as usize;
                            let e = s + l.size.bytes() as usize;
                            let a = m.inner();
                            if a.provenance().ptrs().is_empty() && e <= a.len() {
                                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(s..e);
                                return J::o(vec![("bytes", J::bytes(b))]);
                            }
                        }
                    }
                }
                if let ConstValue::ZeroSized = v {
                    return J::o(vec![("bytes", J::bytes(&[]))]);
                }
            }
            ty::RawPtr(..) | ty::FnPtr(..) => {
                if let Some(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v.try_to_scalar() {
                    let (prov, _off) = p.prov_and_relative_offset();
                    match tcx.global_alloc(prov.alloc_id()) {
                        interpret::GlobalAlloc::Static(d) => {
                            return J::o(vec![("static", J::S(self.path(d)))]);
                        }
                        interpret::GlobalAlloc::Function { instance } => {
                            let c = self.callee(instance.def_id(), instance.args);
                            return J::o(vec![("fnptr", c)]);
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
        {
            use rustc_middle::ty::TypeVisitableExt;
            if matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) && !t.has_param() && !t.has_aliases() {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    tcx.try_destructure_mir_constant_for_user_output(v, t)
                }));
                if let Ok(Some(d)) = r {
                    let fs: Vec<J> = d.fields.iter().map(|(fv, ft)| self.cval_t(*fv, *ft, depth + 1)).collect();
                    let mut o = vec![("fields", J::A(fs)), ("ty", self.ty(t))];
                    if let Some(vi) = d.variant {
                        o.push(("variant", J::I(vi.as_usize() as i128)));
                    }
                    return J::o(o);
                }
            }
        }
        if let ConstValue::ZeroSized = v {
            return J::o(vec![("zst", J::B(true))]);
        }
        J::o(vec![("opaque", J::B(true))])
    }

    // ---- bodies ------------------------------------------------------------------------------
    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let mut pr = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let cur = pt.ty;
            let npt = pt.projection_ty(self.tcx, e);
            match e {
                ProjectionElem::Deref => {
                    let t = self.ty(cur);
                    pr.push(J::o(vec![("p", J::s("deref")), ("of", t)]))
                }
                ProjectionElem::Field(f, t) => {
                    let of = self.ty(cur);
                    let t = self.ty(t);
                    pr.push(J::o(vec![("p", J::s("field")), ("i", J::I(f.as_usize() as i128)), ("ty", t), ("of", of)]))
                }
                ProjectionElem::Index(l) => pr.push(J::o(vec![("p", J::s("index")), ("l", J::I(l.as_usize() as i128))])),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => pr.push(J::o(vec![
                    ("p", J::s("cindex")),
                    ("i", J::I(offset as i128)),
                    ("min", J::I(min_length as i128)),
                    ("end", J::B(from_end)),
                ])),
                ProjectionElem::Subslice { from, to, from_end } => pr.push(J::o(vec![
                    ("p", J::s("subslice")),
                    ("from", J::I(from as i128)),
                    ("to", J::I(to as i128)),
                    ("end", J::B(from_end)),
                ])),
                ProjectionElem::Downcast(n, v) => {
                    let adt = match cur.kind() {
                        ty::Adt(a, _) => self.path(a.did()),
                        _ => String::new(),
                    };
                    pr.push(J::o(vec![
                        ("p", J::s("down")),
                        ("v", J::I(v.as_usize() as i128)),
                        ("n", J::S(n.map(|s| s.to_string()).unwrap_or_default())),
                        ("adt", J::S(adt)),
                    ]))
                }
                ProjectionElem::OpaqueCast(_) | ProjectionElem::UnwrapUnsafeBinder(_) | ProjectionElem::PhantomDeref => {
                    pr.push(J::o(vec![("p", J::s("other"))]))
                }
            }
            pt = npt;
        }
        let t = self.ty(pt.ty);
        J::o(vec![("l", J::I(p.local.as_usize() as i128)), ("pr", J::A(pr)), ("ty", t)])
    }
    fn operand(&mut self, op: &Operand<'tcx>, body: &Body<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::o(vec![("copy", self.place(p, body))]),
            Operand::Move(p) => J::o(vec![("move", self.place(p, body))]),
            Operand::Constant(c) => J::o(vec![("const", self.konst(&c.const_))]),
            #[allow(unreachable_patterns)]
            _ => J::o(vec![("other", J::B(true))]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(op, ..) => J::o(vec![("r", J::s("use")), ("op", self.operand(op, body))]),
            Rvalue::Repeat(op, n) => {
                let o = self.operand(op, body);
                let n = self.const_usize(*n);
                J::o(vec![("r", J::s("repeat")), ("op", o), ("n", n)])
            }
            Rvalue::Ref(_, bk, p) => J::o(vec![
                ("r", J::s("ref")),
                ("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("fake", J::B(matches!(bk, BorrowKind::Fake(_)))),
                ("place", self.place(p, body)),
            ]),
            Rvalue::RawPtr(k, p) => J::o(vec![
                ("r", J::s("rawptr")),
                ("mut", J::B(matches!(k, RawPtrKind::Mut))),
                ("place", self.place(p, body)),
            ]),
            Rvalue::Cast(k, op, t) => {
                let from = op.ty(&body.local_decls, tcx);
                let fid = self.ty(from);
                let o = self.operand(op, body);
                let tid = self.ty(*t);
                let mut v = vec![("r", J::s("cast")), ("ck", J::S(format!("{k:?}"))), ("op", o), ("from", fid), ("to", tid)];
                if let Some(vt) = self.vtable(from, *t) {
                    v.push(("vtable", vt));
                }
                J::o(v)
            }
            Rvalue::BinaryOp(b, ops) => {
                let a = self.operand(&ops.0, body);
                let c = self.operand(&ops.1, body);
                J::o(vec![("r", J::s("bin")), ("op", J::S(format!("{b:?}"))), ("a", a), ("b", c)])
            }
            Rvalue::UnaryOp(u, op) => {
                let a = self.operand(op, body);
                J::o(vec![("r", J::s("un")), ("op", J::S(format!("{u:?}"))), ("a", a)])
            }
            Rvalue::Discriminant(p) => J::o(vec![("r", J::s("discr")), ("place", self.place(p, body))]),
            Rvalue::Aggregate(k, ops) => {
                let fs: Vec<J> = ops.iter().map(|o| self.operand(o, body)).collect();
                let mut v = vec![("r", J::s("agg")), ("ops", J::A(fs))];
                match &**k {
                    AggregateKind::Array(_) => v.push(("k", J::s("array"))),
                    AggregateKind::Tuple => v.push(("k", J::s("tuple"))),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        v.push(("k", J::s("adt")));
                        v.push(("path", J::S(self.path(*d))));
                        v.push(("v", J::I(vi.as_usize() as i128)));
                        self.adt(*d);
                    }
                    AggregateKind::Closure(d, args) => {
                        v.push(("k", J::s("closure")));
                        v.push(("path", J::S(self.path(*d))));
                        v.push(("key", J::S(self.key(*d, args))));
                        self.enqueue(Instance::new_raw(*d, args));
                    }
                    AggregateKind::RawPtr(..) => v.push(("k", J::s("rawptr"))),
                    _ => v.push(("k", J::s("other"))),
                }
                J::o(v)
            }
            Rvalue::CopyForDeref(p) => {
                let pl = self.place(p, body);
                J::o(vec![("r", J::s("use")), ("op", J::o(vec![("copy", pl)]))])
            }
            Rvalue::Reborrow(_, m, p) => J::o(vec![
                ("r", J::s("ref")),
                ("mut", J::B(m.is_mut())),
                ("fake", J::B(false)),
                ("place", self.place(p, body)),
            ]),
            Rvalue::ThreadLocalRef(d) => J::o(vec![("r", J::s("tls")), ("def", J::S(self.path(*d)))]),
            _ => J::o(vec![("r", J::s("other")), ("dbg", J::S(format!("{r:?}")))]),
        }
    }
    /// vtable of an unsizing cast to a trait object: method name -> instance
    fn vtable(&mut self, from: Ty<'tcx>, to: Ty<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let (s, d) = self.pointee_pair(from, to)?;
        let ty::Dynamic(preds, _) = d.kind() else { return None };
        if matches!(s.kind(), ty::Dynamic(..)) {
            return None;
        }
        let principal = preds.principal()?;
        let tr = principal.with_self_ty(tcx, s);
        let tr = tcx.instantiate_bound_regions_with_erased(tr);
        let tr = tcx.try_normalize_erasing_regions(self.env(), ty::Unnormalized::new_wip(tr)).ok()?;
        let mut ms = vec![];
        for it in tcx.associated_items(tr.def_id).in_definition_order() {
            if !it.is_fn() {
                continue;
            }
            let gens = tcx.generics_of(it.def_id);
            if gens.own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) {
                continue;
            }
            let args = ty::GenericArgs::for_item(tcx, it.def_id, |p, _| {
                if (p.index as usize) < tr.args.len() {
                    tr.args[p.index as usize]
                } else {
                    tcx.lifetimes.re_erased.into()
                }
            });
            let name = it.name().to_string();
            let c = self.callee(it.def_id, args);
            ms.push(J::A(vec![J::S(name), c]));
        }
        Some(J::o(vec![("ty", self.ty(s)), ("trait", J::S(self.path(tr.def_id))), ("methods", J::A(ms))]))
    }
    fn pointee_pair(&self, a: Ty<'tcx>, b: Ty<'tcx>) -> Option<(Ty<'tcx>, Ty<'tcx>)> {
        match (a.kind(), b.kind()) {
            (ty::Ref(_, x, _) | ty::RawPtr(x, _), ty::Ref(_, y, _) | ty::RawPtr(y, _)) => Some((*x, *y)),
            (ty::Adt(da, aa), ty::Adt(db, ab)) if da.did() == db.did() && da.is_struct() => {
                // Box<T>, Arc<T>: the generic argument
                let x = aa.types().next()?;
                let y = ab.types().next()?;
                if x == y {
                    None
                } else {
                    Some((x, y))
                }
            }
            _ => None,
        }
    }
    fn body(&mut self, key: String, d: DefId, args: GenericArgsRef<'tcx>, body: Body<'tcx>, phase: &str) {
        let tcx = self.tcx;
        let mut o: Vec<(&str, J)> = vec![
            ("path", J::S(self.path(d))),
            ("local", J::B(d.is_local())),
            ("phase", J::s(phase)),
            ("argc", J::I(body.arg_count as i128)),
        ];
        let sp = self.span(body.span);
        o.push(("span", sp));
        let dk = tcx.def_kind(d);
        o.push(("kind", J::S(format!("{dk:?}"))));
        let ga: Vec<J> = args.iter().map(|g| self.garg(g)).collect();
        o.push(("args", J::A(ga)));
        {
            use rustc_middle::ty::TypeVisitableExt;
            o.push(("generic", J::B(args.has_param())));
        }
        let mut host = d;
        while matches!(tcx.def_kind(host), DefKind::Closure) {
            host = tcx.parent(host);
        }
        o.push(("host", J::S(self.path(host))));
        if matches!(dk, DefKind::AssocFn) {
            let parent = tcx.parent(d);
            o.push(("parent", J::S(self.path(parent))));
            if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
                let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                o.push(("impl_self", J::S(self.ty_str(st))));
                if let ty::Adt(a, _) = st.kind() {
                    o.push(("impl_adt", J::S(self.path(a.did()))));
                }
                if of_trait {
                    let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                    o.push(("impl_trait", J::S(self.path(tr.def_id))));
                }
            }
            o.push(("name", J::S(tcx.item_name(d).to_string())));
        } else if matches!(dk, DefKind::Fn) {
            o.push(("name", J::S(tcx.item_name(d).to_string())));
        }
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            o.push(("unsafe", J::B(!sig.safety().is_safe())));
            if let Some(ld) = d.as_local() {
                o.push(("exported", J::B(tcx.effective_visibilities(()).is_exported(ld))));
                o.push(("reachable", J::B(tcx.effective_visibilities(()).is_reachable(ld))));
                o.push(("vis", J::S(format!("{:?}", tcx.visibility(d)))));
            }
        }
        let ls: Vec<J> = body.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        o.push(("locals", J::A(ls)));
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pl = self.place(p, &body);
                names.push(J::A(vec![J::S(v.name.to_string()), pl]));
            }
        }
        o.push(("vars", J::A(names)));
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut ss = vec![];
            for s in &bb.statements {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0, &body);
                        let r = self.rvalue(&b.1, &body);
                        ss.push(J::o(vec![("s", J::s("assign")), ("p", p), ("rv", r), ("sp", sp)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, &body);
                        ss.push(J::o(vec![
                            ("s", J::s("setdiscr")),
                            ("p", p),
                            ("v", J::I(variant_index.as_usize() as i128)),
                        ]));
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(_) => {}
                        other => ss.push(J::o(vec![("s", J::s("intrinsic")), ("dbg", J::S(format!("{other:?}")))])),
                    },
                    StatementKind::StorageDead(l) => {
                        ss.push(J::o(vec![("s", J::s("dead")), ("l", J::I(l.as_usize() as i128))]))
                    }
                    StatementKind::StorageLive(l) => {
                        ss.push(J::o(vec![("s", J::s("live")), ("l", J::I(l.as_usize() as i128))]))
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let tsp = self.span(t.source_info.span);
            let b = |x: BasicBlock| J::I(x.as_usize() as i128);
            let mut tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![("t", J::s("goto")), ("target", b(*target))],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let v: Vec<J> = targets.iter().map(|(v, bb)| J::A(vec![J::I(v as i128), b(bb)])).collect();
                    vec![
                        ("t", J::s("switch")),
                        ("on", self.operand(discr, &body)),
                        ("ty", self.ty(dt)),
                        ("targets", J::A(v)),
                        ("otherwise", b(targets.otherwise())),
                    ]
                }
                TerminatorKind::Return => vec![("t", J::s("return"))],
                TerminatorKind::Unreachable => vec![("t", J::s("unreachable"))],
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) | TerminatorKind::CoroutineDrop => {
                    vec![("t", J::s("resume"))]
                }
                TerminatorKind::Drop { place, target, .. } => {
                    vec![("t", J::s("drop")), ("place", self.place(place, &body)), ("target", b(*target))]
                }
                TerminatorKind::Call { func, args, destination, target, call_source, .. } => {
                    let f = self.operand(func, &body);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, &body)).collect();
                    let ats: Vec<J> = args.iter().map(|x| { let t = x.node.ty(&body.local_decls, tcx); self.ty(t) }).collect();
                    let mut v = vec![
                        ("t", J::s("call")),
                        ("f", f),
                        ("args", J::A(a)),
                        ("atys", J::A(ats)),
                        ("dest", self.place(destination, &body)),
                        ("src", J::S(format!("{call_source:?}"))),
                    ];
                    if let Some(t) = target {
                        v.push(("target", b(*t)));
                    }
                    v
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            let l = self.operand(len, &body);
                            let i = self.operand(index, &body);
                            J::o(vec![("k", J::s("bounds")), ("len", l), ("index", i)])
                        }
                        AssertKind::Overflow(op, a, c) => {
                            let a = self.operand(a, &body);
                            let c = self.operand(c, &body);
                            J::o(vec![("k", J::s("overflow")), ("op", J::S(format!("{op:?}"))), ("a", a), ("b", c)])
                        }
                        AssertKind::OverflowNeg(_) => J::o(vec![("k", J::s("overflowneg"))]),
                        AssertKind::DivisionByZero(_) => J::o(vec![("k", J::s("div0"))]),
                        AssertKind::RemainderByZero(_) => J::o(vec![("k", J::s("rem0"))]),
                        _ => J::o(vec![("k", J::s("other"))]),
                    };
                    vec![
                        ("t", J::s("assert")),
                        ("cond", self.operand(cond, &body)),
                        ("expected", J::B(*expected)),
                        ("msg", kind),
                        ("target", b(*target)),
                    ]
                }
                TerminatorKind::FalseEdge { real_target, .. } => vec![("t", J::s("goto")), ("target", b(*real_target))],
                TerminatorKind::FalseUnwind { real_target, .. } => vec![("t", J::s("goto")), ("target", b(*real_target))],
                other => vec![("t", J::s("other")), ("dbg", J::S(format!("{other:?}")))],
            };
            tj.push(("sp", tsp));
            blocks.push(J::o(vec![("s", J::A(ss)), ("t", J::o(tj)), ("c", J::B(bb.is_cleanup))]));
        }
        o.push(("blocks", J::A(blocks)));
        self.bodies.insert(key, J::o(o));
    }

    fn run(&mut self) {
        let tcx = self.tcx;
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        // first pass: keep a copy of every freshly built body before anything steals it
        for &d in &owners {
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Static { .. } | DefKind::Const { .. }
                | DefKind::AssocConst { .. } => {
                    let st = tcx.mir_built(d);
                    if !st.is_stolen() {
                        self.built.insert(d, st.borrow().clone());
                    }
                }
                _ => {}
            }
        }
        for &d in &owners {
            let dk = tcx.def_kind(d);
            match dk {
                DefKind::Fn | DefKind::AssocFn | DefKind::Static { .. } => {
                    self.env_owner = d.to_def_id();
                    let args = ty::GenericArgs::identity_for_item(tcx, d.to_def_id());
                    let args = tcx.erase_and_anonymize_regions(args);
                    self.enqueue(Instance::new_raw(d.to_def_id(), args));
                }
                _ => {}
            }
            self.drain();
        }
    }
    fn drain(&mut self) {
        let tcx = self.tcx;
        while let Some((inst, owner)) = self.queue.pop_front() {
            if self.budget == 0 {
                panic!("instance budget exhausted");
            }
            self.budget -= 1;
            self.env_owner = owner;
            let d = inst.def_id();
            let key = self.key(d, inst.args);
            let (raw, phase) = if let Some(ld) = d.as_local() {
                if let Some(b) = self.built.get(&ld) {
                    (b.clone(), "built")
                } else if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
                    continue;
                } else if tcx.is_mir_available(d) {
                    (tcx.optimized_mir(d).clone(), "optimized")
                } else {
                    continue;
                }
            } else if tcx.is_mir_available(d) {
                (tcx.optimized_mir(d).clone(), "optimized")
            } else {
                continue;
            };
            match self.norm(inst.args, raw) {
                Ok(b) => self.body(key, d, inst.args, b, phase),
                Err(e) => {
                    self.bodies.insert(key, J::o(vec![("path", J::S(self.path(d))), ("error", J::S(e))]));
                }
            }
        }
    }

    fn finish(&mut self) -> String {
        let tcx = self.tcx;
        // item inventory
        let mut statics = vec![];
        let mut impls = vec![];
        let mut fns = vec![];
        let items: Vec<LocalDefId> = tcx.hir_crate_items(()).definitions().collect();
        for d in items {
            self.env_owner = d.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let fr = t.is_freeze(tcx, TypingEnv::fully_monomorphized());
                    let sp = self.span(tcx.def_span(d));
                    let tj = self.ty(t);
                    let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, d.to_def_id()));
                    let key = self.key(d.to_def_id(), args);
                    statics.push(J::o(vec![
                        ("path", J::S(self.path(d.to_def_id()))),
                        ("mut", J::B(mutability.is_mut())),
                        ("freeze", J::B(fr)),
                        ("tls", J::B(tcx.is_thread_local_static(d.to_def_id()))),
                        ("section", tcx.codegen_fn_attrs(d.to_def_id()).link_section.map_or(J::S(String::new()), |x| J::S(x.to_string()))),
                        ("ty", tj),
                        ("key", J::S(key)),
                        ("span", sp),
                    ]));
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let mut o = vec![("self", J::S(self.ty_str(st)))];
                    if let ty::Adt(a, _) = st.kind() {
                        o.push(("adt", J::S(self.path(a.did()))));
                    }
                    if of_trait {
                        let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        o.push(("trait", J::S(self.path(tr.def_id))));
                        o.push(("trait_str", J::S(paths(|| format!("{tr}")))));
                        o.push(("unsafe", J::B(!tcx.impl_trait_header(d).safety.is_safe())));
                        o.push(("negative", J::B(tcx.impl_polarity(d) == ty::ImplPolarity::Negative)));
                    }
                    let mut ms = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        if it.is_fn() {
                            let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, it.def_id));
                            let k = self.key(it.def_id, args);
                            ms.push(J::A(vec![J::S(it.name().to_string()), J::S(k)]));
                        } else if it.is_type() && of_trait {
                            let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                            ms.push(J::A(vec![J::S(format!("type {}", it.name())), J::S(self.ty_str(t))]));
                        }
                    }
                    o.push(("items", J::A(ms)));
                    let sp = self.span(tcx.def_span(d));
                    o.push(("span", sp));
                    impls.push(J::o(o));
                }
                DefKind::Fn | DefKind::AssocFn => {
                    let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, d.to_def_id()));
                    let k = self.key(d.to_def_id(), args);
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                    let sp = self.span(tcx.def_span(d));
                    fns.push(J::o(vec![
                        ("path", J::S(self.path(d.to_def_id()))),
                        ("key", J::S(k)),
                        ("exported", J::B(tcx.effective_visibilities(()).is_exported(d))),
                        ("reachable", J::B(tcx.effective_visibilities(()).is_reachable(d))),
                        ("unsafe", J::B(!sig.safety().is_safe())),
                        ("sig", J::S(paths(|| format!("{sig}")))),
                        ("span", sp),
                    ]));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => self.adt(d.to_def_id()),
                _ => {}
            }
        }
        self.drain();
        let mut o = vec![
            ("statics", J::A(statics)),
            ("impls", J::A(impls)),
            ("fns", J::A(fns)),
        ];
        let adts: Vec<(String, J)> = std::mem::take(&mut self.adts).into_iter().collect();
        let bodies: Vec<(String, J)> = std::mem::take(&mut self.bodies).into_iter().collect();
        o.push(("adts", J::M(adts)));
        o.push(("types", J::A(std::mem::take(&mut self.type_list))));
        o.push(("bodies", J::M(bodies)));
        let mut feats: Vec<String> = tcx
            .sess
            .config
            .iter()
            .filter_map(|(k, v)| if k.as_str() == "feature" { v.map(|s| s.to_string()) } else { None })
            .collect();
        feats.sort();
        o.push(("features", J::A(feats.into_iter().map(J::S).collect())));
        let mut s = String::new();
        J::o(o).write(&mut s);
        s
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    args.remove(0);
    let crate_name = args
        .windows(2)
        .find(|w| w[0] == "--crate-name")
        .map(|w| w[1].clone())
        .unwrap_or_default();
    let want = std::env::var("MIRFACTS_CRATE").unwrap_or_default();
    let out = std::env::var("MIRFACTS_OUT").unwrap_or_default();
    let test = args.iter().any(|a| a == "--test");
    if crate_name == want && !out.is_empty() && !test && !args.iter().any(|a| a.starts_with("--print")) {
        let mut cb = Cb { out };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        struct N;
        impl Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}
