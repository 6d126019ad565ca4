// hopfacts: a rustc driver that compiles a crate as usual and, on the side,
// writes the resolved program (MIR before drop elaboration and coroutine
// lowering, with resolved callees, evaluated constants, types, ADTs and impls)
// as JSON to $HOPFACTS_OUT/<crate>-<type>.json.  Nothing is executed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_type_ir;

mod json;
use json::J;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::{self, interpret::GlobalAlloc, interpret::Scalar, Body, ConstValue, Operand, Place};
use rustc_middle::ty::{self, GenericArgKind, Instance, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::collections::HashMap;

struct Grabbed<'tcx> {
    body: Body<'tcx>,
    promoted: Vec<Body<'tcx>>,
    late: bool,
}

struct Cb {
    out: String,
    // erased lifetime: only used inside the same tcx
    bodies: Vec<(LocalDefId, Grabbed<'static>)>,
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        // plain fns first: evaluating constants may steal const fns
        keys.sort_by_key(|k| match tcx.def_kind(*k) {
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => 1,
            _ => 0,
        });
        for k in keys {
            let dk = tcx.def_kind(k);
            let g = match dk {
                DefKind::Ctor(..) => continue,
                DefKind::AnonConst => continue,
                _ => {
                    let (b, p) = tcx.mir_promoted(k);
                    if b.is_stolen() {
                        let b = tcx.mir_drops_elaborated_and_const_checked(k);
                        if b.is_stolen() {
                            eprintln!("hopfacts: body of {:?} stolen", k);
                            continue;
                        }
                        Grabbed { body: b.borrow().clone(), promoted: vec![], late: true }
                    } else {
                        let body = b.borrow().clone();
                        let promoted = if p.is_stolen() { vec![] } else { p.borrow().iter().cloned().collect() };
                        Grabbed { body, promoted, late: false }
                    }
                }
            };
            let g: Grabbed<'static> = unsafe { std::mem::transmute(g) };
            self.bodies.push((k, g));
        }
        Compilation::Continue
    }

    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let bodies = std::mem::take(&mut self.bodies);
        let mut d = Dump { tcx, types: HashMap::new(), type_list: vec![], adts: HashMap::new(), adt_list: vec![], cur: None };
        let mut fns = vec![];
        for (k, g) in &bodies {
            let g: &Grabbed<'tcx> = unsafe { std::mem::transmute(g) };
            fns.push(d.dump_fn(*k, g));
        }
        let impls = d.dump_impls();
        let traits = d.dump_traits();
        let unsafes = d.dump_unsafe();
        // every local ADT
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                d.adt(id.to_def_id());
            }
        }
        let types = std::mem::take(&mut d.type_list);
        let adts = std::mem::take(&mut d.adt_list);
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let kind = format!("{:?}", tcx.crate_types()[0]).to_lowercase();
        let j = J::obj(vec![
            ("crate", J::s(&name)),
            ("kind", J::s(&kind)),
            ("types", J::Arr(types)),
            ("adts", J::Arr(adts)),
            ("fns", J::Arr(fns)),
            ("impls", impls),
            ("traits", traits),
            ("unsafe", unsafes),
        ]);
        let mut s = String::new();
        j.write(&mut s);
        let path = format!("{}/{}-{}.json", self.out, name, kind);
        let tmp = format!("{}.tmp{}", path, std::process::id());
        std::fs::write(&tmp, s).expect("write facts");
        std::fs::rename(&tmp, &path).expect("rename facts");
        Compilation::Continue
    }
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_list: Vec<J>,
    adts: HashMap<DefId, usize>,
    adt_list: Vec<J>,
    cur: Option<(DefId, bool)>,
}

impl<'tcx> Dump<'tcx> {
    fn key(&self, id: DefId) -> String {
        let tcx = self.tcx;
        format!("{}{}", tcx.crate_name(id.krate), tcx.def_path(id).to_string_no_crate_verbose())
    }
    fn name(&self, id: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_crate_prefix!(self.tcx.def_path_str(id)))
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_else(|| format!("{:?}", r)),
            o => format!("{:?}", o),
        };
        J::s(&format!("{}:{}", f, lo.line))
    }
    fn line(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        J::n(self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line as i128)
    }
    fn from_macro(&self, sp: Span) -> Option<String> {
        if sp.from_expansion() {
            let d = sp.ctxt().outer_expn_data();
            Some(format!("{}", d.kind.descr()))
        } else {
            None
        }
    }
    fn args(&mut self, a: &[ty::GenericArg<'tcx>]) -> J {
        let mut v = vec![];
        for x in a {
            match x.kind() {
                GenericArgKind::Type(t) => v.push(J::n(self.ty(t) as i128)),
                GenericArgKind::Const(c) => v.push(self.tyconst(c)),
                GenericArgKind::Lifetime(_) => {}
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        J::Arr(v)
    }
    fn tyconst(&mut self, c: ty::Const<'tcx>) -> J {
        if let Some(n) = c.try_to_target_usize(self.tcx) {
            return J::obj(vec![("c", J::n(n as i128))]);
        }
        J::obj(vec![("c", J::s(&format!("{:?}", c)))])
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let idx = self.type_list.len();
        self.type_list.push(J::Null);
        self.types.insert(t, idx);
        use rustc_type_ir::TyKind::*;
        let mut o: Vec<(&'static str, J)> = vec![];
        let tcx = self.tcx;
        match *t.kind() {
            Bool => o.push(("k", J::s("bool"))),
            Char => o.push(("k", J::s("char"))),
            Int(_) | Uint(_) | Float(_) => {
                o.push(("k", J::s("prim")));
                o.push(("n", J::s(&format!("{}", t))));
            }
            Adt(def, args) => {
                let id = self.adt(def.did());
                o.push(("k", J::s("adt")));
                o.push(("d", J::s(&self.key(def.did()))));
                o.push(("i", J::n(id as i128)));
                o.push(("a", self.args(args)));
            }
            Str => o.push(("k", J::s("str"))),
            Array(e, n) => {
                o.push(("k", J::s("array")));
                o.push(("t", J::n(self.ty(e) as i128)));
                o.push(("len", self.tyconst(n)));
            }
            Slice(e) => {
                o.push(("k", J::s("slice")));
                o.push(("t", J::n(self.ty(e) as i128)));
            }
            RawPtr(e, m) => {
                o.push(("k", J::s("ptr")));
                o.push(("t", J::n(self.ty(e) as i128)));
                o.push(("m", J::B(m.is_mut())));
            }
            Ref(_, e, m) => {
                o.push(("k", J::s("ref")));
                o.push(("t", J::n(self.ty(e) as i128)));
                o.push(("m", J::B(m.is_mut())));
            }
            FnDef(id, args) => {
                o.push(("k", J::s("fndef")));
                let id: DefId = id.into();
                let args = args.skip_binder();
                o.push(("f", self.callee(id, args)));
            }
            FnPtr(..) => o.push(("k", J::s("fnptr"))),
            Dynamic(preds, _) => {
                o.push(("k", J::s("dyn")));
                if let Some(p) = preds.principal_def_id() {
                    o.push(("d", J::s(&self.key(p))));
                }
            }
            Closure(id, args) => {
                o.push(("k", J::s("closure")));
                o.push(("d", J::s(&self.key(id.into()))));
                o.push(("a", self.args(args)));
            }
            Coroutine(id, args) => {
                o.push(("k", J::s("coroutine")));
                o.push(("d", J::s(&self.key(id.into()))));
                o.push(("a", self.args(args)));
            }
            CoroutineClosure(id, args) => {
                o.push(("k", J::s("coroclosure")));
                o.push(("d", J::s(&self.key(id.into()))));
                o.push(("a", self.args(args)));
            }
            Never => o.push(("k", J::s("never"))),
            Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let v = ts.iter().map(|t| J::n(self.ty(t) as i128)).collect();
                o.push(("a", J::Arr(v)));
            }
            Alias(_, a) => {
                o.push(("k", J::s("alias")));
                o.push(("n", J::s(&format!("{:?}", t))));
                let _ = a;
            }
            Param(p) => {
                o.push(("k", J::s("param")));
                o.push(("n", J::s(p.name.as_str())));
                o.push(("idx", J::n(p.index as i128)));
            }
            _ => {
                o.push(("k", J::s("other")));
            }
        }
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t));
        o.push(("s", J::s(&s)));
        let _ = tcx;
        self.type_list[idx] = J::obj(o);
        idx
    }
    fn adt(&mut self, id: DefId) -> usize {
        if let Some(i) = self.adts.get(&id) {
            return *i;
        }
        let idx = self.adt_list.len();
        self.adt_list.push(J::Null);
        self.adts.insert(id, idx);
        let tcx = self.tcx;
        let def = tcx.adt_def(id);
        let local_ws = id.is_local();
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() {
                def.discriminant_for_variant(tcx, vi).val as i128
            } else {
                0
            };
            let mut fs = vec![];
            for f in v.fields.iter() {
                let fty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let t = if local_ws || def.is_enum() || true { self.ty(fty) as i128 } else { -1 };
                fs.push(J::Arr(vec![J::s(f.name.as_str()), J::n(t)]));
            }
            vs.push(J::obj(vec![("n", J::s(v.name.as_str())), ("d", J::n(discr)), ("f", J::Arr(fs))]));
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let gens = tcx.generics_of(id);
        let mut gn = vec![];
        for p in &gens.own_params {
            if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                gn.push(J::s(p.name.as_str()));
            }
        }
        let span = if local_ws { self.span(tcx.def_span(id)) } else { J::Null };
        self.adt_list[idx] = J::obj(vec![
            ("d", J::s(&self.key(id))),
            ("n", J::s(&self.name(id))),
            ("k", J::s(kind)),
            ("g", J::Arr(gn)),
            ("v", J::Arr(vs)),
            ("box", J::B(def.is_box())),
            ("span", span),
        ]);
        idx
    }
    fn generics(&self, id: DefId) -> J {
        let mut v = vec![];
        let mut stack = vec![];
        let mut g = self.tcx.generics_of(id);
        loop {
            stack.push(g);
            match g.parent {
                Some(p) => g = self.tcx.generics_of(p),
                None => break,
            }
        }
        for g in stack.iter().rev() {
            for p in &g.own_params {
                if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                    v.push(J::s(p.name.as_str()));
                }
            }
        }
        J::Arr(v)
    }
    fn typing_env(&self) -> ty::TypingEnv<'tcx> {
        match self.cur {
            Some((id, _)) => ty::TypingEnv::post_analysis(self.tcx, id),
            None => ty::TypingEnv::fully_monomorphized(),
        }
    }
    fn callee(&mut self, id: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("k", J::s(&self.key(id))), ("n", J::s(&self.name(id)))];
        let kind = tcx.def_kind(id);
        if let DefKind::Ctor(of, _) = kind {
            let p = tcx.parent(id);
            let (adt, vi) = match of {
                rustc_hir::def::CtorOf::Variant => {
                    let e = tcx.parent(p);
                    (e, tcx.adt_def(e).variant_index_with_ctor_id(id).as_usize())
                }
                rustc_hir::def::CtorOf::Struct => (p, 0),
            };
            self.adt(adt);
            o.push(("ctor", J::Arr(vec![J::s(&self.key(adt)), J::n(vi as i128)])));
        }
        o.push(("a", self.args(args)));
        if let Some(tr) = tcx.trait_of_assoc(id) {
            o.push(("trait", J::s(&self.key(tr))));
            o.push(("m", J::s(tcx.item_name(id).as_str())));
        } else if let Some(im) = tcx.impl_of_assoc(id) {
            // inherent (or already impl) method: self type
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            o.push(("self", J::n(self.ty(st) as i128)));
            o.push(("m", J::s(tcx.item_name(id).as_str())));
        }
        if tcx.trait_of_assoc(id).is_some() && !args.has_escaping_bound_vars() {
            let env = self.typing_env();
            let eargs = tcx.erase_and_anonymize_regions(args);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(tcx, env, id, eargs)));
            if let Ok(Ok(Some(inst))) = r {
                let rid = inst.def_id();
                if let ty::InstanceKind::Item(_) = inst.def {
                    if rid != id {
                        o.push(("rk", J::s(&self.key(rid))));
                        o.push(("rn", J::s(&self.name(rid))));
                        o.push(("ra", self.args(inst.args)));
                    } else {
                        o.push(("rdefault", J::B(true)));
                    }
                } else {
                    o.push(("rshim", J::s(&format!("{:?}", inst.def).split('(').next().unwrap_or("").to_string())));
                }
            }
        }
        if tcx.is_intrinsic(id, rustc_span::Symbol::intern("")) {
            o.push(("intr", J::B(true)));
        }
        o.push(("local", J::B(id.is_local())));
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let safe = tcx.fn_sig(id).skip_binder().safety().is_safe();
            if !safe {
                o.push(("unsafe", J::B(true)));
            }
        }
        J::obj(o)
    }
    fn alloc_bytes(&self, aid: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(aid)? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let end = (off + len) as usize;
                if end > a.len() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..end).to_vec())
            }
            _ => None,
        }
    }
    fn bytes_j(b: &[u8]) -> J {
        J::Arr(b.iter().map(|x| J::n(*x as i128)).collect())
    }
    fn size_of(&self, t: Ty<'tcx>) -> Option<u64> {
        self.tcx
            .layout_of(ty::TypingEnv::fully_monomorphized().as_query_input(t))
            .ok()
            .map(|l| l.size.bytes())
    }
    /// the elements of a constant slice whose fat pointer lies at `off`
    fn const_slice(&mut self, aid: rustc_middle::mir::interpret::AllocId, off: u64, el: Ty<'tcx>) -> Option<Vec<J>> {
        let size = self.size_of(el)?;
        let lenb = self.alloc_bytes(aid, off + 8, 8)?;
        let offb = self.alloc_bytes(aid, off, 8)?;
        let n = u64::from_le_bytes(lenb.try_into().ok()?);
        let base = u64::from_le_bytes(offb.try_into().ok()?);
        if n > 4096 {
            return None;
        }
        let target = match self.tcx.try_get_global_alloc(aid)? {
            GlobalAlloc::Memory(a) => a
                .inner()
                .provenance()
                .ptrs()
                .get(&rustc_abi::Size::from_bytes(off))?
                .alloc_id(),
            _ => return None,
        };
        let mut out = vec![];
        for i in 0..n {
            let v = ConstValue::Indirect { alloc_id: target, offset: rustc_abi::Size::from_bytes(base + i * size) };
            out.push(self.const_val(v, el));
        }
        Some(out)
    }
    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        use rustc_type_ir::TyKind::*;
        let ti = self.ty(t) as i128;
        match v {
            ConstValue::ZeroSized => {
                let mut o = vec![("k", J::s("zst")), ("t", J::n(ti))];
                if let FnDef(id, args) = *t.kind() {
                    let id: DefId = id.into();
                    o.push(("f", self.callee(id, args.skip_binder())));
                }
                J::obj(o)
            }
            ConstValue::Scalar(Scalar::Int(i)) => match t.kind() {
                Int(_) => J::obj(vec![("k", J::s("int")), ("v", J::n(i.to_int(i.size()))), ("t", J::n(ti))]),
                Float(_) => J::obj(vec![("k", J::s("float")), ("bits", J::n(i.to_uint(i.size()) as i128)), ("t", J::n(ti))]),
                _ => J::obj(vec![("k", J::s("int")), ("v", J::n(i.to_uint(i.size()) as i128)), ("t", J::n(ti))]),
            },
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let aid = prov.alloc_id();
                if let Ref(_, inner, _) = t.kind() {
                    if let Array(e, n) = inner.kind() {
                        if let (true, Some(n)) = (*e == self.tcx.types.u8, n.try_to_target_usize(self.tcx)) {
                            if let Some(b) = self.alloc_bytes(aid, off.bytes(), n) {
                                return J::obj(vec![("k", J::s("refarr")), ("b", Self::bytes_j(&b)), ("t", J::n(ti))]);
                            }
                        }
                    }
                }
                if let Some(GlobalAlloc::Function { instance }) = self.tcx.try_get_global_alloc(aid) {
                    return J::obj(vec![("k", J::s("fnptr")), ("d", J::s(&self.key(instance.def_id()))), ("t", J::n(ti))]);
                }
                if let Some(GlobalAlloc::Static(id)) = self.tcx.try_get_global_alloc(aid) {
                    return J::obj(vec![("k", J::s("static")), ("d", J::s(&self.key(id))), ("t", J::n(ti))]);
                }
                J::obj(vec![("k", J::s("opaque")), ("s", J::s("ptr")), ("t", J::n(ti))])
            }
            ConstValue::Slice { alloc_id, meta } => {
                let is_str = matches!(t.kind(), Ref(_, i, _) if matches!(i.kind(), Str));
                if let Some(b) = self.alloc_bytes(alloc_id, 0, meta) {
                    if is_str {
                        return J::obj(vec![("k", J::s("str")), ("s", J::s(&String::from_utf8_lossy(&b))), ("t", J::n(ti))]);
                    }
                    return J::obj(vec![("k", J::s("bytes")), ("b", Self::bytes_j(&b)), ("t", J::n(ti))]);
                }
                J::obj(vec![("k", J::s("opaque")), ("s", J::s("slice")), ("t", J::n(ti))])
            }
            ConstValue::Indirect { .. } if matches!(t.kind(), Ref(_, i, _) if matches!(i.kind(), Str) || matches!(i.kind(), Slice(e) if *e == self.tcx.types.u8)) => {
                let is_str = matches!(t.kind(), Ref(_, i, _) if matches!(i.kind(), Str));
                match v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                    Some(b) if is_str => J::obj(vec![("k", J::s("str")), ("s", J::s(&String::from_utf8_lossy(b))), ("t", J::n(ti))]),
                    Some(b) => J::obj(vec![("k", J::s("bytes")), ("b", Self::bytes_j(b)), ("t", J::n(ti))]),
                    None => J::obj(vec![("k", J::s("opaque")), ("s", J::s("indirect")), ("t", J::n(ti))]),
                }
            }
            ConstValue::Indirect { alloc_id, offset } if matches!(t.kind(), Ref(_, i, _) if matches!(i.kind(), Slice(_))) => {
                let el = match t.kind() {
                    Ref(_, i, _) => match i.kind() {
                        Slice(e) => *e,
                        _ => unreachable!(),
                    },
                    _ => unreachable!(),
                };
                match self.const_slice(alloc_id, offset.bytes(), el) {
                    Some(fs) => J::obj(vec![("k", J::s("agg")), ("variant", J::n(0)), ("f", J::Arr(fs)), ("t", J::n(ti))]),
                    None => J::obj(vec![("k", J::s("opaque")), ("s", J::s("indirect")), ("t", J::n(ti))]),
                }
            }
            ConstValue::Indirect { alloc_id, offset } if matches!(t.kind(), Int(_) | Uint(_) | Bool | Char) => {
                let n = match self.size_of(t) {
                    Some(n) => n,
                    None => return J::obj(vec![("k", J::s("opaque")), ("s", J::s("indirect")), ("t", J::n(ti))]),
                };
                match self.alloc_bytes(alloc_id, offset.bytes(), n) {
                    Some(b) => {
                        let mut v: i128 = 0;
                        for (i, x) in b.iter().enumerate().take(16) {
                            v |= (*x as i128) << (8 * i);
                        }
                        if matches!(t.kind(), Int(_)) && n < 16 && (v >> (8 * n - 1)) & 1 == 1 {
                            v -= 1i128 << (8 * n);
                        }
                        J::obj(vec![("k", J::s("int")), ("v", J::n(v)), ("t", J::n(ti))])
                    }
                    None => J::obj(vec![("k", J::s("opaque")), ("s", J::s("indirect")), ("t", J::n(ti))]),
                }
            }
            ConstValue::Indirect { .. } if !matches!(t.kind(), Adt(..) | Tuple(..) | Array(..)) => {
                J::obj(vec![("k", J::s("opaque")), ("s", J::s("indirect")), ("t", J::n(ti))])
            }
            ConstValue::Indirect { .. } => {
                // try to destructure (ADTs, tuples, refs)
                if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let mut fs = vec![];
                    for (fv, ft) in d.fields.iter() {
                        fs.push(self.const_val(*fv, *ft));
                    }
                    return J::obj(vec![
                        ("k", J::s("agg")),
                        ("variant", J::n(d.variant.map(|x| x.as_usize() as i128).unwrap_or(0))),
                        ("f", J::Arr(fs)),
                        ("t", J::n(ti)),
                    ]);
                }
                J::obj(vec![("k", J::s("opaque")), ("s", J::s("indirect")), ("t", J::n(ti))])
            }
        }
    }
    fn constant(&mut self, c: &mir::Const<'tcx>, sp: Span) -> J {
        let tcx = self.tcx;
        match *c {
            mir::Const::Val(v, t) => self.const_val(v, t),
            mir::Const::Ty(t, c) => {
                let ti = self.ty(t) as i128;
                if let Some(n) = c.try_to_target_usize(tcx) {
                    return J::obj(vec![("k", J::s("int")), ("v", J::n(n as i128)), ("t", J::n(ti))]);
                }
                // numbers, truths and characters in patterns
                if t.is_primitive() {
                    let env = self.typing_env();
                    let m = mir::Const::Ty(t, c);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.eval(tcx, env, sp)));
                    if let Ok(Ok(v)) = r {
                        return self.const_val(v, t);
                    }
                }
                J::obj(vec![("k", J::s("opaque")), ("s", J::s(&format!("{:?}", c))), ("t", J::n(ti))])
            }
            mir::Const::Unevaluated(u, t) => {
                let ti = self.ty(t) as i128;
                let mut o = vec![("k", J::s("uneval")), ("d", J::s(&self.key(u.def))), ("n", J::s(&self.name(u.def))), ("t", J::n(ti))];
                if let Some(p) = u.promoted {
                    o.push(("p", J::n(p.as_usize() as i128)));
                    // promoteds share the generics of their body
                } else {
                    o.push(("a", self.args(u.args)));
                    if !u.has_non_region_param() {
                        let env = self.typing_env();
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.eval(tcx, env, sp)));
                        if let Ok(Ok(v)) = r {
                            let vj = self.const_val(v, t);
                            o.push(("v", vj));
                        }
                    }
                }
                J::obj(o)
            }
        }
    }
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![J::n(p.local.as_usize() as i128)];
        for e in p.projection.iter() {
            use mir::ProjectionElem::*;
            v.push(match e {
                Deref => J::s("*"),
                Field(f, t) => J::Arr(vec![J::s("f"), J::n(f.as_usize() as i128), J::n(self.ty(t) as i128)]),
                Index(l) => J::Arr(vec![J::s("i"), J::n(l.as_usize() as i128)]),
                ConstantIndex { offset, min_length, from_end } => {
                    J::Arr(vec![J::s("c"), J::n(offset as i128), J::B(from_end), J::n(min_length as i128)])
                }
                Subslice { from, to, from_end } => J::Arr(vec![J::s("s"), J::n(from as i128), J::n(to as i128), J::B(from_end)]),
                Downcast(_, vi) => J::Arr(vec![J::s("v"), J::n(vi.as_usize() as i128)]),
                _ => J::s("?"),
            });
        }
        J::Arr(v)
    }
    fn operand(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::Arr(vec![J::s("c"), self.place(p)]),
            Operand::Move(p) => J::Arr(vec![J::s("m"), self.place(p)]),
            Operand::Constant(c) => J::Arr(vec![J::s("k"), self.constant(&c.const_, c.span)]),
            _ => J::Arr(vec![J::s("rt")]),
        }
    }
    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>) -> J {
        use mir::Rvalue::*;
        let s = J::s;
        match r {
            Use(o, ..) => J::Arr(vec![s("use"), self.operand(o)]),
            Repeat(o, n) => J::Arr(vec![s("repeat"), self.operand(o), self.tyconst(*n)]),
            Ref(_, bk, p) => J::Arr(vec![s("ref"), s(match bk {
                mir::BorrowKind::Mut { .. } => "mut",
                mir::BorrowKind::Shared => "shared",
                _ => "fake",
            }), self.place(p)]),
            ThreadLocalRef(_) => J::Arr(vec![s("tls")]),
            RawPtr(k, p) => J::Arr(vec![s("raw"), s(&format!("{:?}", k)), self.place(p)]),
            Cast(k, o, t) => {
                let ks = match k {
                    mir::CastKind::PointerCoercion(c, _) => format!("coerce:{:?}", c),
                    o => format!("{:?}", o),
                };
                J::Arr(vec![s("cast"), s(&ks), self.operand(o), J::n(self.ty(*t) as i128)])
            }
            BinaryOp(op, ab) => J::Arr(vec![s("bin"), s(&format!("{:?}", op)), self.operand(&ab.0), self.operand(&ab.1)]),
            UnaryOp(op, a) => J::Arr(vec![s("un"), s(&format!("{:?}", op)), self.operand(a)]),
            Discriminant(p) => J::Arr(vec![s("discr"), self.place(p)]),
            Aggregate(k, ops) => {
                let kind = match &**k {
                    mir::AggregateKind::Array(_) => J::Arr(vec![s("array")]),
                    mir::AggregateKind::Tuple => J::Arr(vec![s("tuple")]),
                    mir::AggregateKind::Adt(id, vi, args, _, _) => {
                        self.adt(*id);
                        J::Arr(vec![s("adt"), s(&self.key(*id)), J::n(vi.as_usize() as i128), self.args(args)])
                    }
                    mir::AggregateKind::Closure(id, args) => J::Arr(vec![s("closure"), s(&self.key(*id)), J::Null, self.args(args)]),
                    mir::AggregateKind::Coroutine(id, args) => J::Arr(vec![s("coroutine"), s(&self.key(*id)), J::Null, self.args(args)]),
                    mir::AggregateKind::CoroutineClosure(id, args) => J::Arr(vec![s("coroclosure"), s(&self.key(*id)), J::Null, self.args(args)]),
                    mir::AggregateKind::RawPtr(..) => J::Arr(vec![s("rawptr")]),
                };
                let v = ops.iter().map(|o| self.operand(o)).collect();
                J::Arr(vec![s("agg"), kind, J::Arr(v)])
            }
            CopyForDeref(p) => J::Arr(vec![s("use"), J::Arr(vec![s("c"), self.place(p)])]),
            Reborrow(_, m, p) => J::Arr(vec![s("ref"), s(if m.is_mut() { "mut" } else { "shared" }), self.place(p)]),
            _ => J::Arr(vec![s("?")]),
        }
    }
    fn body(&mut self, b: &Body<'tcx>) -> J {
        let s = J::s;
        let mut locals = vec![];
        for l in b.local_decls.iter() {
            locals.push(J::n(self.ty(l.ty) as i128));
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                names.push(J::Arr(vec![s(v.name.as_str()), self.place(p)]));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                use mir::StatementKind::*;
                let ln = self.line(x.source_info.span);
                match &x.kind {
                    Assign(pr) => {
                        let p = self.place(&pr.0);
                        let r = self.rvalue(&pr.1);
                        st.push(J::Arr(vec![s("="), p, r, ln]));
                    }
                    SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::Arr(vec![s("sd"), p, J::n(variant_index.as_usize() as i128), ln]));
                    }
                    StorageDead(l) => st.push(J::Arr(vec![s("dead"), J::n(l.as_usize() as i128)])),
                    StorageLive(l) => st.push(J::Arr(vec![s("live"), J::n(l.as_usize() as i128)])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            use mir::TerminatorKind::*;
            let bbn = |b: &mir::BasicBlock| J::n(b.as_usize() as i128);
            let tj = match &t.kind {
                Goto { target, .. } => vec![s("goto"), bbn(target)],
                SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let dty = discr.ty(&b.local_decls, self.tcx);
                    let mut v = vec![];
                    for (val, bb) in targets.iter() {
                        // sign-extend for signed types
                        let mut val = val as i128;
                        if let rustc_type_ir::TyKind::Int(it) = dty.kind() {
                            let bits = it.bit_width().unwrap_or(64);
                            if bits < 128 && (val >> (bits - 1)) & 1 == 1 {
                                val -= 1i128 << bits;
                            }
                        }
                        v.push(J::Arr(vec![J::n(val), bbn(&bb)]));
                    }
                    vec![s("switch"), d, J::Arr(v), bbn(&targets.otherwise()), J::n(self.ty(dty) as i128)]
                }
                Return => vec![s("ret")],
                Unreachable => vec![s("unreachable")],
                UnwindResume => vec![s("resume")],
                UnwindTerminate(_) => vec![s("abort")],
                Drop { place, target, .. } => {
                    let pty = place.ty(&b.local_decls, self.tcx).ty;
                    let pt = self.ty(pty);
                    vec![s("drop"), self.place(place), bbn(target), J::n(pt as i128)]
                }
                Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.operand(func);
                    let a = args.iter().map(|x| self.operand(&x.node)).collect();
                    let d = self.place(destination);
                    let dt = destination.ty(&b.local_decls, self.tcx).ty;
                    let dti = self.ty(dt);
                    let ats = args.iter().map(|x| {
                        let t = x.node.ty(&b.local_decls, self.tcx);
                        J::n(self.ty(t) as i128)
                    }).collect();
                    let mac = self.from_macro(*fn_span).map(|m| s(&m)).unwrap_or(J::Null);
                    vec![s("call"), f, J::Arr(a), d, target.as_ref().map(|t| bbn(t)).unwrap_or(J::Null), J::n(dti as i128), J::Arr(ats), self.line(*fn_span), mac]
                }
                TailCall { .. } => vec![s("tailcall")],
                Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    use mir::AssertKind::*;
                    let m = match &**msg {
                        BoundsCheck { len, index } => J::Arr(vec![s("bounds"), self.operand(len), self.operand(index)]),
                        Overflow(op, a, b2) => J::Arr(vec![s("overflow"), s(&format!("{:?}", op)), self.operand(a), self.operand(b2)]),
                        OverflowNeg(a) => J::Arr(vec![s("overflowneg"), self.operand(a)]),
                        DivisionByZero(a) => J::Arr(vec![s("div0"), self.operand(a)]),
                        RemainderByZero(a) => J::Arr(vec![s("rem0"), self.operand(a)]),
                        _ => J::Arr(vec![s("other")]),
                    };
                    vec![s("assert"), c, J::B(*expected), m, bbn(target)]
                }
                Yield { value, resume, resume_arg, drop } => vec![s("yield"), self.operand(value), bbn(resume), self.place(resume_arg), drop.as_ref().map(|t| bbn(t)).unwrap_or(J::Null)],
                CoroutineDrop => vec![s("corodrop")],
                FalseEdge { real_target, .. } => vec![s("goto"), bbn(real_target)],
                FalseUnwind { real_target, .. } => vec![s("goto"), bbn(real_target)],
                InlineAsm { .. } => vec![s("asm")],
            };
            blocks.push(J::obj(vec![("s", J::Arr(st)), ("t", J::Arr(tj)), ("l", ln), ("u", J::B(bb.is_cleanup))]));
        }
        J::obj(vec![
            ("argc", J::n(b.arg_count as i128)),
            ("spread", b.spread_arg.map(|l| J::n(l.as_usize() as i128)).unwrap_or(J::Null)),
            ("locals", J::Arr(locals)),
            ("names", J::Arr(names)),
            ("blocks", J::Arr(blocks)),
        ])
    }
    fn dump_fn(&mut self, k: LocalDefId, g: &Grabbed<'tcx>) -> J {
        let tcx = self.tcx;
        let id = k.to_def_id();
        self.cur = Some((id, true));
        let kind = tcx.def_kind(id);
        let mut o = vec![
            ("k", J::s(&self.key(id))),
            ("n", J::s(&self.name(id))),
            ("kind", J::s(&format!("{:?}", kind))),
            ("span", self.span(tcx.def_span(id))),
            ("g", self.generics(id)),
            ("late", J::B(g.late)),
        ];
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let vis = tcx.visibility(id);
            o.push(("pub", J::B(vis.is_public())));
            o.push(("reach", J::B(tcx.effective_visibilities(()).is_reachable(k))));
            o.push(("async", J::B(tcx.asyncness(id).is_async())));
            o.push(("m", J::s(tcx.item_name(id).as_str())));
            if let Some(im) = tcx.impl_of_assoc(id) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                o.push(("self", J::n(self.ty(st) as i128)));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("trait", J::s(&self.key(tr.def_id))));
                    o.push(("targs", self.args(tr.args)));
                }
            }
            if let Some(tr) = tcx.trait_of_assoc(id) {
                o.push(("intrait", J::s(&self.key(tr))));
            }
            let sig = tcx.fn_sig(id).instantiate_identity().skip_norm_wip().skip_binder();
            o.push(("unsafe", J::B(!sig.safety().is_safe())));
        }
        if let Some(ck) = tcx.coroutine_kind(id) {
            o.push(("coro", J::s(&format!("{:?}", ck))));
        }
        let mut derived = false;
        let mut cur = Some(id);
        while let Some(c) = cur {
            if let Some(im) = tcx.impl_of_assoc(c) {
                if tcx.is_automatically_derived(im) {
                    derived = true;
                }
            }
            cur = tcx.opt_parent(c).filter(|p| p.is_local() && !p.is_crate_root());
        }
        o.push(("derived", J::B(derived)));
        let b = self.body(&g.body);
        o.push(("body", b));
        let mut ps = vec![];
        for p in &g.promoted {
            ps.push(self.body(p));
        }
        o.push(("promoted", J::Arr(ps)));
        self.cur = None;
        J::obj(o)
    }
    fn dump_impls(&mut self) -> J {
        let tcx = self.tcx;
        let mut out = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if !matches!(tcx.def_kind(id), DefKind::Impl { .. }) {
                continue;
            }
            let id = id.to_def_id();
            self.cur = Some((id, true));
            let st = tcx.type_of(id).instantiate_identity().skip_norm_wip();
            let mut o = vec![("k", J::s(&self.key(id))), ("self", J::n(self.ty(st) as i128)), ("g", self.generics(id)), ("derived", J::B(tcx.is_automatically_derived(id)))];
            if let Some(tr) = tcx.impl_opt_trait_ref(id) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("trait", J::s(&self.key(tr.def_id))));
                o.push(("targs", self.args(tr.args)));
            }
            let mut items = vec![];
            for it in tcx.associated_items(id).in_definition_order() {
                let nm = it.opt_name().map(|n| n.to_string()).unwrap_or_default();
                let mut io = vec![("n", J::s(&nm)), ("k", J::s(&self.key(it.def_id)))];
                match it.kind {
                    ty::AssocKind::Type { .. } => {
                        let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                        io.push(("ty", J::n(self.ty(t) as i128)));
                    }
                    ty::AssocKind::Const { .. } => io.push(("const", J::B(true))),
                    ty::AssocKind::Fn { .. } => io.push(("fn", J::B(true))),
                }
                items.push(J::obj(io));
            }
            o.push(("items", J::Arr(items)));
            self.cur = None;
            out.push(J::obj(o));
        }
        J::Arr(out)
    }
    fn dump_traits(&mut self) -> J {
        let tcx = self.tcx;
        let mut out = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if !matches!(tcx.def_kind(id), DefKind::Trait { .. }) {
                continue;
            }
            let id = id.to_def_id();
            let mut items = vec![];
            for it in tcx.associated_items(id).in_definition_order() {
                let nm = it.opt_name().map(|n| n.to_string()).unwrap_or_default();
                items.push(J::obj(vec![("n", J::s(&nm)), ("k", J::s(&self.key(it.def_id))), ("default", J::B(it.defaultness(tcx).has_value()))]));
            }
            out.push(J::obj(vec![("k", J::s(&self.key(id))), ("n", J::s(&self.name(id))), ("g", self.generics(id)), ("items", J::Arr(items))]));
        }
        J::Arr(out)
    }
    fn dump_unsafe(&mut self) -> J {
        use rustc_hir::intravisit::{self, Visitor};
        struct V<'a, 'tcx> {
            d: &'a Dump<'tcx>,
            out: Vec<J>,
            owner: Vec<LocalDefId>,
        }
        impl<'a, 'tcx> Visitor<'tcx> for V<'a, 'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::All;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
                self.d.tcx
            }
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                    let owner = self.d.tcx.hir_enclosing_body_owner(b.hir_id);
                    self.out.push(J::obj(vec![
                        ("fn", J::s(&self.d.key(owner.to_def_id()))),
                        ("span", self.d.span(b.span)),
                        ("mac", J::B(b.span.from_expansion())),
                    ]));
                }
                intravisit::walk_block(self, b);
            }
        }
        let tcx = self.tcx;
        let mut v = V { d: self, out: vec![], owner: vec![] };
        tcx.hir_walk_toplevel_module(&mut v);
        let _ = &v.owner;
        let out = std::mem::take(&mut v.out);
        // unsafe impls and unsafe fns are reported through fns/impls
        J::Arr(out)
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    if args.len() > 1 && std::path::Path::new(&args[1]).file_stem().map(|s| s == "rustc").unwrap_or(false) {
        args.remove(1);
    }
    let out = std::env::var("HOPFACTS_OUT").ok();
    let is_build_script = args.windows(2).any(|w| w[0] == "--crate-name" && w[1].starts_with("build_script"));
    let probing = args.iter().any(|a| a == "-vV" || a == "--print" || a.starts_with("--print=")) || !args.iter().any(|a| a == "--crate-name") || args.iter().any(|a| a == "___");
    rustc_driver::catch_with_exit_code(move || match out {
        Some(out) if !probing && !is_build_script => {
            let mut cb = Cb { out, bodies: vec![] };
            rustc_driver::compiler_entrypoint(&args, &mut cb);
        }
        _ => rustc_driver::compiler_entrypoint(&args, &mut Plain),
    })
}
