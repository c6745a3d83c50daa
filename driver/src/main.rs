//! Dumps the resolved, monomorphised MIR of one crate as JSON.
//!
//! Usage: mirdump OUT.json -- <rustc arguments>
//!
//! Every function of the local crate that can be instantiated with
//! `&'static [u8]` for its type parameters is a root; everything reachable
//! from the roots is dumped, except library functions outside the list in
//! `descend`, which are recorded as opaque callees.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_abi::{FieldIdx, Size, VariantIdx, Variants};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, GlobalId, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArg, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn i(x: impl TryInto<i128>) -> J {
    J::I(x.try_into().ok().unwrap_or(0))
}
impl J {
    fn put(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(n) => {
                let _ = write!(o, "{n}");
            }
            J::S(t) => put_str(t, o),
            J::A(v) => {
                o.push('[');
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    x.put(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (k, (n, x)) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    put_str(n, o);
                    o.push(':');
                    x.put(o);
                }
                o.push('}');
            }
        }
    }
}
fn put_str(t: &str, o: &mut String) {
    o.push('"');
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    tyq: Vec<J>,
    queue: VecDeque<(Instance<'tcx>, String)>,
    seen: HashMap<Instance<'tcx>, String>,
    keys: HashMap<String, usize>,
    extra: Vec<(String, J)>,
    extra_seen: HashMap<String, ()>,
}

/// Library functions whose bodies are dumped too (small generic glue).
fn descend(path: &str) -> bool {
    const OK: &[&str] = &[
        "std::option::", "core::option::", "std::result::", "core::result::",
        "<std::option::", "<std::result::", "<core::option::", "<core::result::",
        "std::ops::", "core::ops::", "std::cmp::", "core::cmp::",
        "std::convert::", "core::convert::", "std::mem::take", "std::mem::replace",
        "std::mem::swap", "core::mem::take", "core::mem::replace",
        "std::bool::", "core::bool::", "std::default::", "std::clone::",
        "std::char::methods::", "core::char::methods::", "std::char::convert",
        "std::array::equality", "std::tuple::", "std::any::",
    ];
    OK.iter().any(|p| path.starts_with(p))
}

fn descend_instance<'tcx>(tcx: TyCtxt<'tcx>, inst: Instance<'tcx>) -> bool {
    let did = inst.def_id();
    if did.is_local() {
        return true;
    }
    if !matches!(inst.def, ty::InstanceKind::Item(_)) {
        return false;
    }
    let cn = tcx.crate_name(did.krate);
    let cn = cn.as_str();
    if cn != "core" && cn != "alloc" && cn != "std" {
        return false;
    }
    // the module that defines the item, whatever impl it sits in
    let full = with_no_trimmed_paths!(tcx.def_path(did).to_string_no_crate_verbose());
    if full.starts_with("::iter::range") {
        return false;
    }
    const MODS: &[&str] = &[
        "::iter::adapters", "::iter::traits::iterator", "::iter::traits::collect::IntoIterator",
        "::iter::traits::double_ended",
        "::option", "::result", "::ops", "::cmp", "::convert", "::bool", "::default", "::clone",
        "::tuple", "::mem",
    ];
    if MODS.iter().any(|m| full.starts_with(m)) {
        return !full.contains("::num");
    }
    if full.starts_with("::char::methods") {
        return true;
    }
    descend(&with_no_trimmed_paths!(tcx.def_path_str(did)))
}

impl<'tcx> Cx<'tcx> {
    fn loc(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let p = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = format!("{}", p.file.name.prefer_local_unconditionally());
        J::A(vec![s(f), i(p.line as i128), i(p.col.0 as i128 + 1)])
    }
    fn line(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let p = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        i(p.line as i128)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        i(self.ty_id(t) as i128)
    }
    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&n) = self.tys.get(&t) {
            return n;
        }
        let n = self.tyq.len();
        self.tys.insert(t, n);
        self.tyq.push(J::N);
        let name = with_no_trimmed_paths!(format!("{t}"));
        let mut o = vec![("s", s(name))];
        let tcx = self.tcx;
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(it) => {
                o.push(("k", s("int")));
                o.push(("bits", i(it.bit_width().unwrap_or(64) as i128)));
                o.push(("sg", J::B(true)));
            }
            ty::Uint(it) => {
                o.push(("k", s("int")));
                o.push(("bits", i(it.bit_width().unwrap_or(64) as i128)));
                o.push(("sg", J::B(false)));
            }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Ref(_, u, m) => {
                o.push(("k", s("ref")));
                let u = self.ty(*u);
                o.push(("to", u));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::RawPtr(u, m) => {
                o.push(("k", s("ptr")));
                let u = self.ty(*u);
                o.push(("to", u));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::Slice(u) => {
                o.push(("k", s("slice")));
                let u = self.ty(*u);
                o.push(("to", u));
            }
            ty::Array(u, n) => {
                o.push(("k", s("array")));
                let u = self.ty(*u);
                o.push(("to", u));
                if let Some(n) = n.try_to_target_usize(tcx) {
                    o.push(("n", i(n as i128)));
                }
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|u| self.ty(u)).collect();
                o.push(("f", J::A(v)));
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(with_no_trimmed_paths!(tcx.def_path_str(def.did())))));
                o.push(("local", J::B(def.did().is_local())));
                o.push(("enum", J::B(def.is_enum())));
                o.push(("union", J::B(def.is_union())));
                o.push(("box", J::B(t.is_box())));
                let a: Vec<J> = args.types().map(|u| self.ty(u)).collect();
                o.push(("args", J::A(a)));
                let pathn = with_no_trimmed_paths!(tcx.def_path_str(def.did()));
                let transparent = def.did().is_local()
                    || def.is_enum()
                    || pathn.starts_with("std::iter::")
                    || pathn.starts_with("std::ops::Range")
                    || pathn.starts_with("std::ops::Bound")
                    || pathn == "std::cmp::Reverse"
                    || pathn.starts_with("core::ops::Range");
                if transparent {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args);
                            let ft = tcx.normalize_erasing_regions(
                                TypingEnv::fully_monomorphized(),
                                ft,
                            );
                            let ft = self.ty(ft);
                            fs.push(J::A(vec![s(f.name.to_string()), ft]));
                        }
                        let d = if def.is_enum() {
                            def.discriminant_for_variant(tcx, vi).val as i128
                        } else {
                            0
                        };
                        vs.push(J::O(vec![
                            ("n", s(v.name.to_string())),
                            ("d", i(d)),
                            ("f", J::A(fs)),
                        ]));
                    }
                    o.push(("v", J::A(vs)));
                }
            }
            ty::Closure(did, args) => {
                o.push(("k", s("closure")));
                o.push(("path", s(with_no_trimmed_paths!(tcx.def_path_str(*did)))));
                let v = args.as_closure().upvar_tys().iter().map(|u| self.ty(u)).collect();
                o.push(("f", J::A(v)));
                let kind = args.as_closure().kind();
                let inst = Instance::resolve_closure(tcx, *did, args, kind);
                let k = self.enqueue(inst);
                o.push(("inst", k));
                o.push(("ck", s(format!("{kind:?}"))));
            }
            ty::FnDef(did, args) => {
                o.push(("k", s("fndef")));
                let args = args.no_bound_vars().unwrap();
                let c = self.callee(*did, args);
                o.push(("fn", c));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            _ => o.push(("k", s("other"))),
        }
        self.tyq[n] = J::O(o);
        n
    }

    fn enqueue(&mut self, inst: Instance<'tcx>) -> J {
        if let Some(k) = self.seen.get(&inst) {
            return s(k.clone());
        }
        if !descend_instance(self.tcx, inst) {
            return J::N;
        }
        let tcx = self.tcx;
        let did = inst.def_id();
        if matches!(inst.def, ty::InstanceKind::Item(_)) && !tcx.is_mir_available(did) {
            return J::N;
        }
        match inst.def {
            ty::InstanceKind::Item(_) => {}
            _ => {
                if !did.is_local() {
                    return J::N;
                }
            }
        }
        let mut k = with_no_trimmed_paths!(tcx.def_path_str_with_args(did, inst.args));
        match inst.def {
            ty::InstanceKind::Item(_) => {}
            _ => k = format!("{k} [{:?}]", std::mem::discriminant(&inst.def)),
        }
        let e = self.keys.entry(k.clone()).or_insert(0);
        *e += 1;
        if *e > 1 {
            k = format!("{k} #{e}");
        }
        self.seen.insert(inst, k.clone());
        self.queue.push_back((inst, k.clone()));
        s(k)
    }

    fn callee(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![];
        let decl = with_no_trimmed_paths!(tcx.def_path_str(did));
        o.push(("decl", s(decl)));
        o.push(("dfull", s(with_no_trimmed_paths!(tcx.def_path_str_with_args(did, args)))));
        o.push(("trait", J::B(tcx.trait_of_assoc(did).is_some())));
        let targs: Vec<J> = args.types().map(|t| self.ty(t)).collect();
        o.push(("targs", J::A(targs)));
        if !tcx.fn_sig(did).skip_binder().safety().is_safe() {
            o.push(("unsafe", J::B(true)));
        }
        if tcx.is_intrinsic(did, rustc_span::sym::transmute) {
            o.push(("intr", J::B(true)));
        }
        // Overrides of these provided methods only differ in speed: use the
        // default body, which is written in terms of `next`.
        const DEFAULTS: &[&str] = &[
            "any", "all", "find", "find_map", "position", "try_fold", "fold", "for_each",
            "try_for_each", "count", "last", "rposition", "rfind", "try_rfold", "rfold",
        ];
        let mut resolved =
            Instance::try_resolve(tcx, TypingEnv::fully_monomorphized(), did, args);
        if let Some(tr) = tcx.trait_of_assoc(did) {
            let tn = with_no_trimmed_paths!(tcx.def_path_str(tr));
            let mn = tcx.item_name(did);
            if matches!(
                tn.as_str(),
                "std::iter::Iterator" | "std::iter::DoubleEndedIterator"
                    | "core::iter::Iterator" | "core::iter::DoubleEndedIterator"
            ) && DEFAULTS.contains(&mn.as_str())
                && tcx.is_mir_available(did)
                && matches!(&resolved, Ok(Some(_)))
            {
                if let Ok(Some(r)) = &resolved {
                    if !r.def_id().is_local() {
                        resolved = Ok(Some(Instance::new_raw(did, args)));
                    }
                }
            }
        }
        match resolved {
            Ok(Some(inst)) => {
                let rd = inst.def_id();
                o.push(("path", s(with_no_trimmed_paths!(tcx.def_path_str(rd)))));
                o.push(("local", J::B(rd.is_local())));
                o.push(("kind", s(match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                })));
                let k = self.enqueue(inst);
                o.push(("key", k));
            }
            _ => o.push(("kind", s("unresolved"))),
        }
        J::O(o)
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let mut v = vec![i(p.local.as_u32())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![s("f"), i(f.as_u32()), t])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.as_u32())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("c"), i(offset), i(min_length), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("s"), i(from), i(to), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("v"), i(v.as_u32())]),
                ProjectionElem::OpaqueCast(_) => continue,
                _ => J::A(vec![s("other")]),
            });
        }
        let _ = body;
        J::A(v)
    }

    fn scalar_ptr(&mut self, sc: Scalar) -> Option<(rustc_middle::mir::interpret::AllocId, Size)> {
        match sc {
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                Some((prov.alloc_id(), off))
            }
            _ => None,
        }
    }

    fn read(&mut self, aid: rustc_middle::mir::interpret::AllocId, off: Size, t: Ty<'tcx>, depth: u32) -> J {
        let tcx = self.tcx;
        if depth > 8 {
            return J::N;
        }
        let alloc = match tcx.try_get_global_alloc(aid) {
            Some(GlobalAlloc::Memory(a)) => a,
            _ => return J::N,
        };
        let te = TypingEnv::fully_monomorphized();
        let layout = match tcx.layout_of(te.as_query_input(t)) {
            Ok(l) => l,
            Err(_) => return J::N,
        };
        let rd = |o: Size, sz: Size, prov: bool| {
            alloc.inner().read_scalar(&tcx, AllocRange { start: o, size: sz }, prov).ok()
        };
        match t.kind() {
            ty::Bool | ty::Char | ty::Uint(_) | ty::Int(_) => {
                match rd(off, layout.size, false).and_then(|x| x.try_to_scalar_int().ok()) {
                    Some(v) => {
                        let b = v.to_bits(layout.size);
                        let n = if t.is_signed() { layout.size.sign_extend(b) } else { b as i128 };
                        J::A(vec![s("int"), i(n)])
                    }
                    None => J::N,
                }
            }
            ty::Ref(_, u, _) => {
                let ps = tcx.data_layout.pointer_size();
                let p = match rd(off, ps, true) {
                    Some(p) => p,
                    None => return J::N,
                };
                let (aid2, off2) = match self.scalar_ptr(p) {
                    Some(x) => x,
                    None => return J::N,
                };
                let meta = if matches!(u.kind(), ty::Str | ty::Slice(_)) {
                    match rd(off + ps, ps, false).and_then(|x| x.try_to_scalar_int().ok()) {
                        Some(m) => m.to_bits(ps) as u64,
                        None => return J::N,
                    }
                } else {
                    0
                };
                self.read_ref(aid2, off2, *u, meta, depth + 1)
            }
            ty::Array(u, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                if n > 512 {
                    return J::N;
                }
                let ul = match tcx.layout_of(te.as_query_input(*u)) {
                    Ok(l) => l,
                    Err(_) => return J::N,
                };
                let v = (0..n).map(|k| self.read(aid, off + ul.size * k, *u, depth + 1)).collect();
                J::A(vec![s("arr"), J::A(v)])
            }
            ty::Tuple(ts) => {
                let v = ts
                    .iter()
                    .enumerate()
                    .map(|(k, u)| self.read(aid, off + layout.fields.offset(k), u, depth + 1))
                    .collect();
                J::A(vec![s("agg"), i(0), J::A(v)])
            }
            ty::Adt(def, args) if def.is_struct() => {
                let fs: Vec<_> = def.non_enum_variant().fields.iter().collect();
                let v = fs
                    .iter()
                    .enumerate()
                    .map(|(k, f)| {
                        let ft = tcx.normalize_erasing_regions(te, f.ty(tcx, args));
                        self.read(aid, off + layout.fields.offset(k), ft, depth + 1)
                    })
                    .collect();
                J::A(vec![s("agg"), i(0), J::A(v)])
            }
            ty::Adt(def, args) if def.is_enum() => {
                let vi: Option<VariantIdx> = match &layout.variants {
                    Variants::Single { index } => Some(*index),
                    Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let to = off + layout.fields.offset(tag_field.as_usize());
                        let ts = tag.size(&tcx);
                        match rd(to, ts, false).and_then(|x| x.try_to_scalar_int().ok()) {
                            Some(v) => {
                                let b = v.to_bits(ts);
                                match tag_encoding {
                                    rustc_abi::TagEncoding::Direct => def
                                        .discriminants(tcx)
                                        .find(|(_, d)| ts.truncate(d.val) == b)
                                        .map(|x| x.0),
                                    rustc_abi::TagEncoding::Niche {
                                        untagged_variant,
                                        niche_variants,
                                        niche_start,
                                    } => {
                                        let rel = ts.truncate(b.wrapping_sub(*niche_start));
                                        let n = (niche_variants.last.as_u32()
                                            - niche_variants.start.as_u32())
                                            as u128;
                                        if rel <= n {
                                            Some(VariantIdx::from_u32(
                                                niche_variants.start.as_u32() + rel as u32,
                                            ))
                                        } else {
                                            Some(*untagged_variant)
                                        }
                                    }
                                }
                            }
                            None => None,
                        }
                    }
                    _ => None,
                };
                let vi = match vi {
                    Some(v) => v,
                    None => return J::N,
                };
                let cx = ty::layout::LayoutCx::new(tcx, te);
                let vl = layout.for_variant(&cx, vi);
                let fs: Vec<_> = def.variant(vi).fields.iter().collect();
                let v = fs
                    .iter()
                    .enumerate()
                    .map(|(k, f)| {
                        let ft = tcx.normalize_erasing_regions(te, f.ty(tcx, args));
                        self.read(aid, off + vl.fields.offset(k), ft, depth + 1)
                    })
                    .collect();
                J::A(vec![s("agg"), i(vi.as_u32()), J::A(v)])
            }
            ty::FnDef(..) => J::A(vec![s("agg"), i(0), J::A(vec![])]),
            _ => J::N,
        }
    }

    fn read_ref(&mut self, aid: rustc_middle::mir::interpret::AllocId, off: Size, u: Ty<'tcx>, meta: u64, depth: u32) -> J {
        let tcx = self.tcx;
        let alloc = match tcx.try_get_global_alloc(aid) {
            Some(GlobalAlloc::Memory(a)) => a,
            Some(GlobalAlloc::Static(d)) => {
                return J::A(vec![s("static"), s(with_no_trimmed_paths!(tcx.def_path_str(d)))])
            }
            _ => return J::N,
        };
        match u.kind() {
            ty::Str => {
                let a = off.bytes() as usize;
                let b = a + meta as usize;
                let bytes = alloc.inner().inspect_with_uninit_and_ptr_outside_interpreter(a..b);
                J::A(vec![s("str"), s(String::from_utf8_lossy(bytes).into_owned())])
            }
            ty::Slice(e) => {
                if meta > 512 {
                    return J::N;
                }
                let l = match tcx
                    .layout_of(TypingEnv::fully_monomorphized().as_query_input(*e))
                {
                    Ok(l) => l,
                    Err(_) => return J::N,
                };
                let v = (0..meta).map(|k| self.read(aid, off + l.size * k, *e, depth)).collect();
                J::A(vec![s("ref"), J::A(vec![s("arr"), J::A(v)])])
            }
            _ => J::A(vec![s("ref"), self.read(aid, off, u, depth)]),
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, inst: Instance<'tcx>, key: &str) -> J {
        let tcx = self.tcx;
        let te = TypingEnv::fully_monomorphized();
        let t = c.const_.ty();
        let tj = self.ty(t);
        let mut o = vec![("t", tj)];
        if let ty::FnDef(..) | ty::Closure(..) = t.kind() {
            return J::A(vec![s("k"), J::O(o)]);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let k = format!("{key}::promoted[{}]", p.as_u32());
                if self.extra_seen.insert(k.clone(), ()).is_none() {
                    let did = u.def;
                    let bodies = tcx.promoted_mir(did);
                    let b = bodies[p].clone();
                    let b = inst.instantiate_mir_and_normalize_erasing_regions(
                        tcx,
                        te,
                        ty::EarlyBinder::bind(tcx, b),
                    );
                    let j = self.body(&b, inst, &k);
                    self.extra.push((k.clone(), j));
                }
                o.push(("prom", s(k)));
            } else {
                o.push(("name", s(with_no_trimmed_paths!(tcx.def_path_str(u.def)))));
            }
        }
        // A promoted constant belongs to the body it is in: resolving it like a
        // call could end up at the implementation that overrides that body.
        let value = match c.const_ {
            Const::Unevaluated(u, _) if u.promoted.is_some() => tcx.const_eval_global_id(
                te,
                GlobalId {
                    instance: Instance::new_raw(u.def, u.args),
                    promoted: u.promoted,
                },
                c.span,
            ),
            k => k.eval(tcx, te, c.span),
        };
        if let Ok(v) = value {
            let r = match v {
                ConstValue::Scalar(sc) => match sc {
                    Scalar::Int(n) => {
                        if t.is_integral() || t.is_bool() || t.is_char() {
                            let b = n.to_bits(n.size());
                            let n = if t.is_signed() {
                                n.size().sign_extend(b)
                            } else {
                                b as i128
                            };
                            J::A(vec![s("int"), i(n)])
                        } else if let ty::Adt(def, _) = t.kind() {
                            if def.is_enum() {
                                let b = n.to_bits(n.size());
                                match def.discriminants(tcx).find(|(vi, d)| {
                                    n.size().truncate(d.val) == b
                                        && def.variant(*vi).fields.is_empty()
                                }) {
                                    Some((vi, _)) => J::A(vec![
                                        s("agg"),
                                        i(vi.as_u32()),
                                        J::A(vec![]),
                                    ]),
                                    None => J::N,
                                }
                            } else {
                                J::N
                            }
                        } else {
                            J::N
                        }
                    }
                    Scalar::Ptr(..) => {
                        if let (ty::Ref(_, u, _), Some((a, off))) =
                            (t.kind(), self.scalar_ptr(sc))
                        {
                            self.read_ref(a, off, *u, 0, 0)
                        } else {
                            J::N
                        }
                    }
                },
                ConstValue::ZeroSized => J::A(vec![s("zst")]),
                ConstValue::Slice { alloc_id, meta } => match t.kind() {
                    ty::Ref(_, u, _) => self.read_ref(alloc_id, Size::ZERO, *u, meta, 0),
                    _ => J::N,
                },
                ConstValue::Indirect { alloc_id, offset } => self.read(alloc_id, offset, t, 0),
            };
            o.push(("v", r));
        }
        J::A(vec![s("k"), J::O(o)])
    }

    fn operand(&mut self, op: &Operand<'tcx>, body: &Body<'tcx>, inst: Instance<'tcx>, key: &str) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p, body)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p, body)]),
            Operand::Constant(c) => self.constant(c, inst, key),
            Operand::RuntimeChecks(r) => {
                let b = matches!(r, RuntimeChecks::OverflowChecks);
                let t = self.ty(self.tcx.types.bool);
                J::A(vec![
                    s("k"),
                    J::O(vec![("t", t), ("v", J::A(vec![s("int"), i(b as i128)]))]),
                ])
            }
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, inst: Instance<'tcx>, key: &str) -> J {
        macro_rules! op {
            ($o:expr) => {
                self.operand($o, body, inst, key)
            };
        }
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), op!(o)]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx);
                J::A(vec![s("rep"), op!(o), n.map_or(J::N, |n| i(n))])
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                J::A(vec![s("ref"), self.place(p, body), J::B(m)])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), self.place(p, body), J::B(true)]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), self.place(p, body), J::B(m.is_mut())]),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{k:?}");
                let from = o.ty(&body.local_decls, self.tcx);
                let from = self.ty(from);
                let t = self.ty(*t);
                J::A(vec![s("cast"), s(ks), op!(o), t, from])
            }
            Rvalue::BinaryOp(b, ab) => {
                let t = ab.0.ty(&body.local_decls, self.tcx);
                let t = self.ty(t);
                J::A(vec![s("bin"), s(format!("{b:?}")), op!(&ab.0), op!(&ab.1), t])
            }
            Rvalue::UnaryOp(u, o) => {
                let t = o.ty(&body.local_decls, self.tcx);
                let t = self.ty(t);
                J::A(vec![s("un"), s(format!("{u:?}")), op!(o), t])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let t = self.ty(t);
                J::A(vec![s("disc"), self.place(p, body), t])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p, body)])]),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<J> = ops.iter().map(|x| op!(x)).collect();
                let t = r.ty(&body.local_decls, self.tcx);
                let t = self.ty(t);
                let (kind, vi) = match &**k {
                    AggregateKind::Array(_) => ("arr", 0),
                    AggregateKind::Tuple => ("agg", 0),
                    AggregateKind::Adt(_, v, _, _, _) => ("agg", v.as_u32()),
                    AggregateKind::Closure(..) => ("agg", 0),
                    AggregateKind::RawPtr(..) => ("rawptr", 0),
                    _ => ("other", 0),
                };
                J::A(vec![s("agg"), s(kind), i(vi), J::A(o), t])
            }
            _ => J::A(vec![s("other"), s(format!("{r:?}"))]),
        }
    }

    fn body(&mut self, b: &Body<'tcx>, inst: Instance<'tcx>, key: &str) -> J {
        let tcx = self.tcx;
        let mut locals = vec![];
        for l in b.local_decls.iter() {
            let t = self.ty(l.ty);
            locals.push(t);
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let pl = self.place(&p, b);
                names.push(J::A(vec![s(v.name.to_string()), pl]));
            }
        }
        let mut blocks = vec![];
        for (_bb, d) in b.basic_blocks.iter_enumerated() {
            if d.is_cleanup {
                blocks.push(J::N);
                continue;
            }
            let mut st = vec![];
            for x in &d.statements {
                let ln = self.line(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(pr) => {
                        let p = self.place(&pr.0, b);
                        let r = self.rvalue(&pr.1, b, inst, key);
                        st.push(J::A(vec![s("="), p, r, ln]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, b);
                        st.push(J::A(vec![s("sd"), p, i(variant_index.as_u32()), ln]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![s("dead"), i(l.as_u32())]))
                    }
                    StatementKind::StorageLive(l) => {
                        st.push(J::A(vec![s("live"), i(l.as_u32())]))
                    }
                    _ => {}
                }
            }
            let t = d.terminator();
            let ln = self.line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), i(target.as_u32()), ln]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&b.local_decls, tcx);
                    let signed = ty.is_signed();
                    let bits = match ty.kind() {
                        ty::Int(k) => k.bit_width().unwrap_or(64),
                        _ => 0,
                    };
                    let dj = self.operand(discr, b, inst, key);
                    let tid = self.ty(ty);
                    let ts = targets
                        .iter()
                        .map(|(v, bb)| {
                            let n = if signed && bits < 128 {
                                Size::from_bits(bits).sign_extend(v)
                            } else {
                                v as i128
                            };
                            J::A(vec![i(n), i(bb.as_u32())])
                        })
                        .collect();
                    J::A(vec![s("switch"), dj, J::A(ts), i(targets.otherwise().as_u32()), tid, ln])
                }
                TerminatorKind::Return => J::A(vec![s("ret"), ln]),
                TerminatorKind::Unreachable => J::A(vec![s("unreach"), ln]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&b.local_decls, tcx).ty;
                    let pt = self.ty(pt);
                    let p = self.place(place, b);
                    J::A(vec![s("drop"), p, i(target.as_u32()), pt, ln])
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let ft = func.ty(&b.local_decls, tcx);
                    let f = match ft.kind() {
                        ty::FnDef(d, a) => self.callee(*d, a.no_bound_vars().unwrap()),
                        _ => J::O(vec![("ptr", self.operand(func, b, inst, key))]),
                    };
                    let a = args.iter().map(|x| self.operand(&x.node, b, inst, key)).collect();
                    let dest = self.place(destination, b);
                    let sp = self.loc(*fn_span);
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        dest,
                        target.map_or(J::N, |t| i(t.as_u32())),
                        sp,
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, b, inst, key);
                    let (m, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => (
                            "bounds".into(),
                            vec![self.operand(len, b, inst, key), self.operand(index, b, inst, key)],
                        ),
                        AssertKind::Overflow(o, l, r) => (
                            format!("overflow {o:?}"),
                            vec![self.operand(l, b, inst, key), self.operand(r, b, inst, key)],
                        ),
                        AssertKind::OverflowNeg(_) => ("overflow Neg".into(), vec![]),
                        AssertKind::DivisionByZero(_) => ("div0".into(), vec![]),
                        AssertKind::RemainderByZero(_) => ("rem0".into(), vec![]),
                        AssertKind::InvalidEnumConstruction(_)
                        | AssertKind::NullPointerDereference
                        | AssertKind::NullReferenceConstructed
                        | AssertKind::MisalignedPointerDereference { .. } => ("ub".into(), vec![]),
                        _ => ("other".into(), vec![]),
                    };
                    J::A(vec![
                        s("assert"),
                        c,
                        J::B(*expected),
                        s(m),
                        i(target.as_u32()),
                        ln,
                        J::A(ops),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), i(real_target.as_u32()), ln])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), i(real_target.as_u32()), ln])
                }
                k => J::A(vec![s("other"), s(format!("{k:?}"))]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj)]));
        }
        let did = inst.def_id();
        let sp = self.loc(tcx.def_span(did));
        let vis = did.is_local()
            && matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn)
            && tcx
                .effective_visibilities(())
                .is_reachable(did.expect_local());
        J::O(vec![
            ("key", s(key)),
            ("path", s(with_no_trimmed_paths!(tcx.def_path_str(did)))),
            ("local", J::B(did.is_local())),
            ("pub", J::B(vis)),
            ("sp", sp),
            ("argc", i(b.arg_count as i128)),
            ("spread", b.spread_arg.map_or(J::N, |l| i(l.as_u32()))),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ])
    }
}

struct UnsafeVisitor<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<(String, Span)>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeVisitor<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) =
            b.rules
        {
            self.found.push(("unsafe block".into(), b.span));
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut cx = Cx {
        tcx,
        tys: HashMap::new(),
        tyq: vec![],
        queue: VecDeque::new(),
        seen: HashMap::new(),
        keys: HashMap::new(),
        extra: vec![],
        extra_seen: HashMap::new(),
    };
    let u8s = Ty::new_imm_ref(
        tcx,
        tcx.lifetimes.re_erased,
        Ty::new_slice(tcx, tcx.types.u8),
    );
    let mut roots = vec![];
    let mut skipped = vec![];
    let mut items = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let did = ld.to_def_id();
        let k = tcx.def_kind(did);
        match k {
            DefKind::Static { .. } => {
                items.push(J::A(vec![
                    s(if matches!(k, DefKind::Static { mutability: rustc_hir::Mutability::Mut, .. }) {
                        "static mut"
                    } else {
                        "static"
                    }),
                    s(with_no_trimmed_paths!(tcx.def_path_str(did))),
                    cx.loc(tcx.def_span(did)),
                ]));
            }
            DefKind::ForeignMod => {
                items.push(J::A(vec![s("foreign"), s(""), cx.loc(tcx.def_span(did))]));
            }
            DefKind::Impl { of_trait: true } => {
                let tr = tcx.impl_trait_ref(did);
                items.push(J::A(vec![
                    s("impl"),
                    s(with_no_trimmed_paths!(format!("{:?}", tr.instantiate_identity().skip_norm_wip()))),
                    cx.loc(tcx.def_span(did)),
                ]));
            }
            _ => {}
        }
        if !matches!(k, DefKind::Fn | DefKind::AssocFn) || !tcx.is_mir_available(did) {
            continue;
        }
        let name = with_no_trimmed_paths!(tcx.def_path_str(did));
        // Functions with const parameters are reached through their callers.
        let mut g = Some(tcx.generics_of(did));
        let mut consts = false;
        while let Some(x) = g {
            consts |= x
                .own_params
                .iter()
                .any(|p| matches!(p.kind, ty::GenericParamDefKind::Const { .. }));
            g = x.parent.map(|p| tcx.generics_of(p));
        }
        if consts {
            skipped.push(s(name));
            continue;
        }
        let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            ty::GenericParamDefKind::Type { .. } => GenericArg::from(u8s),
            ty::GenericParamDefKind::Const { .. } => unreachable!(),
        });
        if tcx.instantiate_and_check_impossible_clauses((did, args)) {
            skipped.push(s(name));
            continue;
        }
        let inst = match Instance::try_resolve(tcx, TypingEnv::fully_monomorphized(), did, args) {
            Ok(Some(x)) => x,
            _ => {
                skipped.push(s(name));
                continue;
            }
        };
        let k = cx.enqueue(inst);
        roots.push(k);
    }
    let mut bodies = String::from("{");
    let mut first = true;
    let mut n = 0;
    while let Some((inst, key)) = cx.queue.pop_front() {
        let b = tcx.instance_mir(inst.def);
        let b = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            TypingEnv::fully_monomorphized(),
            ty::EarlyBinder::bind(tcx, b.clone()),
        );
        let j = cx.body(&b, inst, &key);
        let mut all = vec![(key, j)];
        all.append(&mut cx.extra);
        for (k, j) in all {
            if !first {
                bodies.push(',');
            }
            first = false;
            bodies.push('\n');
            put_str(&k, &mut bodies);
            bodies.push(':');
            j.put(&mut bodies);
            n += 1;
        }
    }
    bodies.push('}');
    let mut uv = UnsafeVisitor { tcx, found: vec![] };
    tcx.hir_visit_all_item_likes_in_crate(&mut uv);
    for (w, sp) in uv.found {
        let l = cx.loc(sp);
        items.push(J::A(vec![s("unsafe"), s(w), l]));
    }
    let mut o = String::new();
    o.push_str("{\"crate\":");
    put_str(tcx.crate_name(LOCAL_CRATE).as_str(), &mut o);
    o.push_str(",\"roots\":");
    J::A(roots).put(&mut o);
    o.push_str(",\"skipped\":");
    J::A(skipped).put(&mut o);
    o.push_str(",\"items\":");
    J::A(items).put(&mut o);
    o.push_str(",\"types\":[");
    for (k, t) in cx.tyq.iter().enumerate() {
        if k > 0 {
            o.push(',');
        }
        o.push('\n');
        t.put(&mut o);
    }
    o.push_str("],\"bodies\":");
    o.push_str(&bodies);
    o.push_str("}\n");
    std::fs::write(out, o).expect("write dump");
    eprintln!("mirdump: {n} bodies, {} types", cx.tyq.len());
    let _ = FieldIdx::from_u32(0);
}

struct Cb {
    out: String,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        dump(tcx, &self.out);
        rustc_driver::Compilation::Stop
    }
}

fn main() -> std::process::ExitCode {
    let mut a: Vec<String> = std::env::args().collect();
    let out = a.remove(1);
    let sep = a.iter().position(|x| x == "--").expect("usage: mirdump OUT -- ARGS");
    a.remove(sep);
    rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&a, &mut Cb { out });
    })
}
