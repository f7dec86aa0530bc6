// MIR extractor: a rustc driver used as RUSTC_WRAPPER.  For every crate whose
// name is listed in SVCHK_CRATES it writes, to SVCHK_OUT/<crate>.json, the
// type-checked program: every function body as drop-elaborated MIR (no MIR
// optimisations), with every call site resolved through the trait system, plus
// every (generic) instance reachable from those bodies, the types they mention,
// evaluated constants, and impl / unsafe inventories.  It decides nothing; the
// analyses in ../sa decide.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{
    self, AggregateKind, Body, CastKind, Const, ConstValue, Operand, Place, ProjectionElem, Rvalue,
    StatementKind, TerminatorKind,
};
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;

// ---------------------------------------------------------------- JSON
enum J {
    Null,
    B(bool),
    I(i128),
    U(u128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    R(String), // raw
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn u(x: usize) -> J {
    J::U(x as u128)
}
fn esc(out: &mut String, x: &str) {
    out.push('"');
    for c in x.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
impl J {
    fn w(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(out, "{}", i);
            }
            J::U(i) => {
                let _ = write!(out, "{}", i);
            }
            J::S(x) => esc(out, x),
            J::R(x) => out.push_str(x),
            J::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.w(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    esc(out, k);
                    out.push(':');
                    x.w(out);
                }
                out.push('}');
            }
        }
    }
}

// ---------------------------------------------------------------- dumper
struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_q: VecDeque<(Ty<'tcx>, TypingEnv<'tcx>)>,
    ty_out: Vec<J>,
    insts: HashMap<(Instance<'tcx>, TypingEnv<'tcx>), usize>,
    inst_q: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>, usize)>,
    proms: Vec<(usize, J)>,
    prom_ids: HashMap<(DefId, ty::GenericArgsRef<'tcx>, TypingEnv<'tcx>, usize), usize>,
    next_id: usize,
    /// how many closures handed to unknown code lie between a root and the instance being dumped
    depth: usize,
    depths: HashMap<usize, usize>,
    local_names: Vec<String>,
    /// also instantiate the methods unknown code may call on the local types it is given
    callbacks: bool,
}

const ITER_DRIVERS: &[&str] = &["try_for_each", "for_each", "try_fold", "fold", "all", "any", "find"];

const DESCEND_STD: &[&str] = &[
    "core::option::",
    "core::result::",
    "core::convert::",
    "core::ops::try_trait",
    "core::ops::control_flow",
    "core::ops::function",
    "core::ops::deref",
    "core::mem::replace",
    "core::mem::take",
    "core::mem::swap",
    "core::cmp::",
    "core::borrow::",
    "core::clone::",
    "core::default::",
    "core::bool::",
    "core::str::traits",
    "alloc::borrow::",
    "alloc::boxed::",
    "std::option::",
    "std::result::",
    "std::convert::",
    "std::ops::",
    "std::mem::replace",
    "std::mem::take",
    "std::mem::swap",
    "std::cmp::",
    "std::borrow::",
    "std::clone::",
    "std::default::",
    "std::bool::",
];

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn tstr(&self, t: Ty<'tcx>) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t))
    }
    fn krate(&self, d: DefId) -> String {
        self.tcx.crate_name(d.krate).to_string()
    }
    fn is_ws(&self, d: DefId) -> bool {
        let k = self.krate(d);
        self.local_names.iter().any(|x| *x == k)
    }
    fn span(&self, sp: Span) -> (String, usize) {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        (f, lo.line)
    }

    fn norm(&self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Ty<'tcx> {
        let e = self.tcx.erase_and_anonymize_regions(t);
        self.tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(e)).unwrap_or(e)
    }

    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let t = self.norm(t, env);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.ty_out.push(J::Null);
        self.tys.insert(t, i);
        self.ty_q.push_back((t, env));
        i
    }

    fn drain_tys(&mut self) {
        while let Some((t, env)) = self.ty_q.pop_front() {
            let i = self.tys[&t];
            let j = self.ty_json(t, env);
            self.ty_out[i] = j;
        }
    }

    fn ty_json(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", s(self.tstr(t)))];
        let k = |o: &mut Vec<(&'static str, J)>, x: &str| o.push(("k", s(x)));
        match *t.kind() {
            ty::Bool => k(&mut o, "bool"),
            ty::Char => k(&mut o, "char"),
            ty::Int(it) => {
                k(&mut o, "int");
                o.push(("bits", u(it.bit_width().unwrap_or(64) as usize)));
            }
            ty::Uint(it) => {
                k(&mut o, "uint");
                o.push(("bits", u(it.bit_width().unwrap_or(64) as usize)));
            }
            ty::Float(ft) => {
                k(&mut o, "float");
                o.push(("bits", u(ft.bit_width() as usize)));
            }
            ty::Str => k(&mut o, "str"),
            ty::Never => k(&mut o, "never"),
            ty::Adt(def, args) => {
                k(&mut o, "adt");
                let p = self.path(def.did());
                o.push(("crate", s(self.krate(def.did()))));
                o.push((
                    "adt",
                    s(if def.is_enum() {
                        "enum"
                    } else if def.is_union() {
                        "union"
                    } else {
                        "struct"
                    }),
                ));
                let big = self.tstr(t).len() > 600;
                let expand = !big
                    && (self.is_ws(def.did())
                        || def.is_enum()
                        || p.ends_with("::Wrapping")
                        || p.contains("ops::range")
                        || p.contains("::ops::Range"));
                o.push(("path", s(p)));
                let targs: Vec<J> = args.types().map(|a| u(self.ty(a, env))).collect();
                o.push(("args", J::A(targs)));
                o.push(("transparent", J::B(def.repr().transparent())));
                if expand {
                    let mut vs = Vec::new();
                    for (vi, v) in def.variants().iter_enumerated() {
                        let d = if def.is_enum() {
                            let d = def.discriminant_for_variant(tcx, vi);
                            // sign extend
                            if d.ty.is_signed() {
                                let bits = match d.ty.kind() {
                                    ty::Int(i) => i.bit_width().unwrap_or(64),
                                    _ => 128,
                                };
                                let sh = 128 - bits as u32;
                                J::I(((d.val << sh) as i128) >> sh)
                            } else {
                                J::U(d.val)
                            }
                        } else {
                            J::U(0)
                        };
                        let mut fs = Vec::new();
                        for f in v.fields.iter() {
                            let fty = f.ty(tcx, args);
                            let fty = fty.skip_norm_wip();
                            let fid = self.ty(fty, env);
                            let raw = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let bor = raw.has_type_flags(ty::TypeFlags::HAS_RE_PARAM);
                            fs.push(J::A(vec![s(f.name.to_string()), u(fid), J::B(bor)]));
                        }
                        vs.push(J::O(vec![
                            ("name", s(v.name.to_string())),
                            ("discr", d),
                            ("fields", J::A(fs)),
                        ]));
                    }
                    o.push(("variants", J::A(vs)));
                }
            }
            ty::Array(e, n) => {
                k(&mut o, "array");
                let e = self.ty(e, env);
                o.push(("elem", u(e)));
                o.push(("len", match n.try_to_target_usize(tcx) {
                    Some(n) => u(n as usize),
                    None => J::Null,
                }));
            }
            ty::Slice(e) => {
                k(&mut o, "slice");
                let e = self.ty(e, env);
                o.push(("elem", u(e)));
            }
            ty::RawPtr(e, m) => {
                k(&mut o, "ptr");
                let e = self.ty(e, env);
                o.push(("to", u(e)));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::Ref(_, e, m) => {
                k(&mut o, "ref");
                let e = self.ty(e, env);
                o.push(("to", u(e)));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::FnDef(d, _) => {
                k(&mut o, "fndef");
                o.push(("path", s(self.path(d))));
            }
            ty::FnPtr(..) => k(&mut o, "fnptr"),
            ty::Dynamic(preds, _) => {
                k(&mut o, "dyn");
                if let Some(p) = preds.principal_def_id() {
                    o.push(("path", s(self.path(p))));
                }
            }
            ty::Closure(d, args) => {
                k(&mut o, "closure");
                o.push(("path", s(self.path(d))));
                let ups: Vec<J> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|t| u(self.ty(t, env)))
                    .collect();
                o.push(("elems", J::A(ups)));
            }
            ty::Tuple(ts) => {
                k(&mut o, "tuple");
                let v: Vec<J> = ts.iter().map(|t| u(self.ty(t, env))).collect();
                o.push(("elems", J::A(v)));
            }
            ty::Param(p) => {
                k(&mut o, "param");
                o.push(("name", s(p.name.to_string())));
            }
            ty::Alias(..) => k(&mut o, "alias"),
            _ => k(&mut o, "other"),
        }
        J::O(o)
    }

    // ---- constants
    fn decode_alloc(&mut self, id: AllocId, off: usize, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 {
            return J::O(vec![("opaque", s("depth"))]);
        }
        let alloc = match tcx.try_get_global_alloc(id) {
            Some(GlobalAlloc::Memory(a)) => a,
            Some(GlobalAlloc::Static(d)) => match tcx.eval_static_initializer(d) {
                Ok(a) => a,
                Err(_) => return J::O(vec![("opaque", s("static"))]),
            },
            Some(GlobalAlloc::Function { instance }) => {
                return J::O(vec![("fnptr", s(self.path(instance.def_id())))]);
            }
            _ => return J::O(vec![("opaque", s("alloc"))]),
        };
        let a = alloc.inner();
        let len = a.len();
        let read_uint = |o: usize, n: usize| -> Option<u128> {
            if o + n > len {
                return None;
            }
            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
            let mut v = 0u128;
            for (i, x) in b.iter().enumerate() {
                v |= (*x as u128) << (8 * i);
            }
            Some(v)
        };
        let Ok(layout) = tcx.layout_of(env.as_query_input(t)) else {
            return J::O(vec![("opaque", s("layout"))]);
        };
        let size = layout.size.bytes() as usize;
        match *t.kind() {
            ty::Bool => J::O(vec![("bool", J::B(read_uint(off, 1) == Some(1)))]),
            ty::Char => J::O(vec![("int", J::U(read_uint(off, 4).unwrap_or(0)))]),
            ty::Uint(_) => J::O(vec![("int", J::U(read_uint(off, size).unwrap_or(0)))]),
            ty::Int(_) => {
                let v = read_uint(off, size).unwrap_or(0);
                let sh = 128 - (size as u32) * 8;
                J::O(vec![("int", J::I(((v << sh) as i128) >> sh))])
            }
            ty::Float(_) => J::O(vec![
                ("float", s(format!("{}", read_uint(off, size).unwrap_or(0)))),
                ("bits", u(size * 8)),
            ]),
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let prov = a.provenance().get_ptr(rustc_abi::Size::from_bytes(off as u64));
                let Some(p) = prov else {
                    return J::O(vec![("int", J::U(read_uint(off, 8).unwrap_or(0)))]);
                };
                let po = read_uint(off, 8).unwrap_or(0) as usize;
                let meta = if size == 16 { read_uint(off + 8, 8).map(|x| x as usize) } else { None };
                self.decode_ptr(p.alloc_id(), po, meta, inner, env, depth + 1)
            }
            ty::Adt(def, args) => {
                use rustc_abi::{FieldsShape, TagEncoding, Variants};
                if def.is_union() {
                    return J::O(vec![("opaque", s("union"))]);
                }
                let vi = match &layout.variants {
                    Variants::Single { index } => *index,
                    Variants::Empty => return J::O(vec![("opaque", s("empty"))]),
                    Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let toff = layout.fields.offset(tag_field.as_usize()).bytes() as usize;
                        let tsz = tag.size(&tcx).bytes() as usize;
                        let is_ptr = a
                            .provenance()
                            .get_ptr(rustc_abi::Size::from_bytes((off + toff) as u64))
                            .is_some();
                        let raw = read_uint(off + toff, tsz).unwrap_or(0);
                        match tag_encoding {
                            TagEncoding::Direct => {
                                let mut found = None;
                                for (vi, d) in def.discriminants(tcx) {
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    if d.val & mask == raw {
                                        found = Some(vi);
                                    }
                                }
                                match found {
                                    Some(v) => v,
                                    None => return J::O(vec![("opaque", s("tag"))]),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if is_ptr {
                                    *untagged_variant
                                } else {
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    let rel = raw.wrapping_sub(*niche_start) & mask;
                                    let start = niche_variants.start.as_u32() as u128;
                                    let last = niche_variants.last.as_u32() as u128;
                                    if rel <= last - start {
                                        rustc_abi::VariantIdx::from_u32((rel + start) as u32)
                                    } else {
                                        *untagged_variant
                                    }
                                }
                            }
                        }
                    }
                };
                let vl = match &layout.variants {
                    Variants::Multiple { .. } => {
                        let cx = ty::layout::LayoutCx::new(tcx, env);
                        layout.for_variant(&cx, vi)
                    }
                    _ => layout,
                };
                let mut fs = Vec::new();
                let v = def.variant(vi);
                for (fi, f) in v.fields.iter().enumerate() {
                    let fty = self.norm(f.ty(tcx, args).skip_norm_wip(), env);
                    let fo = match &vl.fields {
                        FieldsShape::Arbitrary { .. } => vl.fields.offset(fi).bytes() as usize,
                        _ => 0,
                    };
                    fs.push(self.decode_alloc(id, off + fo, fty, env, depth + 1));
                }
                J::O(vec![("variant", u(vi.as_usize())), ("fields", J::A(fs))])
            }
            ty::Tuple(ts) => {
                let mut fs = Vec::new();
                for (fi, f) in ts.iter().enumerate() {
                    let fo = layout.fields.offset(fi).bytes() as usize;
                    fs.push(self.decode_alloc(id, off + fo, f, env, depth + 1));
                }
                J::O(vec![("tuple", J::A(fs))])
            }
            ty::Array(e, n) => {
                let Some(n) = n.try_to_target_usize(tcx) else {
                    return J::O(vec![("opaque", s("array"))]);
                };
                let Ok(el) = tcx.layout_of(env.as_query_input(e)) else {
                    return J::O(vec![("opaque", s("layout"))]);
                };
                let es = el.size.bytes() as usize;
                if n > 1024 {
                    return J::O(vec![("opaque", s("bigarray"))]);
                }
                let mut fs = Vec::new();
                for i in 0..n as usize {
                    fs.push(self.decode_alloc(id, off + i * es, e, env, depth + 1));
                }
                J::O(vec![("array", J::A(fs))])
            }
            ty::FnDef(d, _) => J::O(vec![("fn", s(self.path(d)))]),
            _ => J::O(vec![("opaque", s("kind"))]),
        }
    }

    fn decode_ptr(
        &mut self,
        id: AllocId,
        off: usize,
        meta: Option<usize>,
        inner: Ty<'tcx>,
        env: TypingEnv<'tcx>,
        depth: usize,
    ) -> J {
        let tcx = self.tcx;
        match *inner.kind() {
            ty::Str => {
                if let (Some(n), Some(GlobalAlloc::Memory(a))) = (meta, tcx.try_get_global_alloc(id)) {
                    let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(off..off + n);
                    return J::O(vec![("str", s(String::from_utf8_lossy(b).to_string()))]);
                }
                J::O(vec![("opaque", s("str"))])
            }
            ty::Slice(e) => {
                if let Some(n) = meta {
                    if n <= 1024 {
                        if let Ok(el) = tcx.layout_of(env.as_query_input(e)) {
                            let es = el.size.bytes() as usize;
                            let mut fs = Vec::new();
                            for i in 0..n {
                                fs.push(self.decode_alloc(id, off + i * es, e, env, depth + 1));
                            }
                            return J::O(vec![("slice", J::A(fs))]);
                        }
                    }
                }
                J::O(vec![("opaque", s("slice"))])
            }
            _ => {
                let st = match tcx.try_get_global_alloc(id) {
                    Some(GlobalAlloc::Static(d)) => s(self.path(d)),
                    _ => J::Null,
                };
                let v = self.decode_alloc(id, off, inner, env, depth + 1);
                J::O(vec![("ref", v), ("static", st)])
            }
        }
    }

    fn decode_cv(&mut self, cv: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> J {
        match cv {
            ConstValue::Scalar(Scalar::Int(i)) => match *t.kind() {
                ty::Bool => J::O(vec![("bool", J::B(i.to_bits(i.size()) != 0))]),
                ty::Int(_) => J::O(vec![("int", J::I(i.to_int(i.size())))]),
                ty::Float(_) => J::O(vec![
                    ("float", s(format!("{}", i.to_bits(i.size())))),
                    ("bits", u(i.size().bytes() as usize * 8)),
                ]),
                ty::Adt(def, args) => {
                    // scalar-layout adt: single-field struct or fieldless enum
                    if def.is_enum() {
                        for (vi, d) in def.discriminants(self.tcx) {
                            let sz = i.size().bits();
                            let mask = if sz >= 128 { u128::MAX } else { (1u128 << sz) - 1 };
                            if d.val & mask == i.to_bits(i.size())
                                && def.variants().iter().all(|v| v.fields.is_empty())
                            {
                                return J::O(vec![("variant", u(vi.as_usize())), ("fields", J::A(vec![]))]);
                            }
                        }
                        // enum with niche/scalar layout and fields (e.g. Option<bool>)
                        return self.decode_scalar_enum(i.to_bits(i.size()), t, env);
                    }
                    let mut fs = Vec::new();
                    for f in def.non_enum_variant().fields.iter() {
                        let fty = self.norm(f.ty(self.tcx, args).skip_norm_wip(), env);
                        let zst = self
                            .tcx
                            .layout_of(env.as_query_input(fty))
                            .map(|l| l.is_zst())
                            .unwrap_or(false);
                        fs.push(if zst {
                            J::O(vec![("zst", u(1))])
                        } else {
                            self.decode_cv(cv, fty, env)
                        });
                    }
                    J::O(vec![("variant", u(0)), ("fields", J::A(fs))])
                }
                _ => J::O(vec![("int", J::U(i.to_bits(i.size())))]),
            },
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                match *t.kind() {
                    ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                        self.decode_ptr(prov.alloc_id(), off.bytes() as usize, None, inner, env, 0)
                    }
                    ty::FnPtr(..) => match self.tcx.try_get_global_alloc(prov.alloc_id()) {
                        Some(GlobalAlloc::Function { instance }) => {
                            J::O(vec![("fnptr", s(self.path(instance.def_id())))])
                        }
                        _ => J::O(vec![("opaque", s("fnptr"))]),
                    },
                    _ => J::O(vec![("opaque", s("ptr"))]),
                }
            }
            ConstValue::ZeroSized => match *t.kind() {
                ty::FnDef(d, _) => J::O(vec![("fn", s(self.path(d)))]),
                ty::Tuple(_) => J::O(vec![("tuple", J::A(vec![]))]),
                _ => J::O(vec![("zst", u(1))]),
            },
            ConstValue::Slice { alloc_id, meta } => match *t.kind() {
                ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                    self.decode_ptr(alloc_id, 0, Some(meta as usize), inner, env, 0)
                }
                _ => J::O(vec![("opaque", s("slice"))]),
            },
            ConstValue::Indirect { alloc_id, offset } => {
                self.decode_alloc(alloc_id, offset.bytes() as usize, t, env, 0)
            }
        }
    }

    fn decode_scalar_enum(&mut self, bits: u128, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> J {
        use rustc_abi::{TagEncoding, Variants};
        let tcx = self.tcx;
        let ty::Adt(def, args) = *t.kind() else { return J::O(vec![("opaque", s("enum"))]) };
        let Ok(layout) = tcx.layout_of(env.as_query_input(t)) else {
            return J::O(vec![("opaque", s("layout"))]);
        };
        let vi = match &layout.variants {
            Variants::Single { index } => *index,
            Variants::Multiple { tag, tag_encoding: TagEncoding::Niche { untagged_variant, niche_variants, niche_start }, .. } => {
                let tsz = tag.size(&tcx).bytes() as usize;
                let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                let rel = bits.wrapping_sub(*niche_start) & mask;
                let start = niche_variants.start.as_u32() as u128;
                let last = niche_variants.last.as_u32() as u128;
                if rel <= last - start {
                    rustc_abi::VariantIdx::from_u32((rel + start) as u32)
                } else {
                    *untagged_variant
                }
            }
            _ => return J::O(vec![("opaque", s("enum"))]),
        };
        let v = def.variant(vi);
        let mut fs = Vec::new();
        for f in v.fields.iter() {
            let fty = self.norm(f.ty(tcx, args).skip_norm_wip(), env);
            match fty.kind() {
                ty::Bool => fs.push(J::O(vec![("bool", J::B(bits & 1 == 1))])),
                ty::Uint(_) | ty::Char => fs.push(J::O(vec![("int", J::U(bits))])),
                _ => fs.push(J::O(vec![("opaque", s("field"))])),
            }
        }
        J::O(vec![("variant", u(vi.as_usize())), ("fields", J::A(fs))])
    }

    fn konst(&mut self, c: &Const<'tcx>, span: Span, env: TypingEnv<'tcx>) -> J {
        let t = self.norm(c.ty(), env);
        let tid = self.ty(t, env);
        if let ty::FnDef(d, _) = *t.kind() {
            return J::O(vec![("ty", u(tid)), ("v", J::O(vec![("fn", s(self.path(d)))]))]);
        }
        let mut name = J::Null;
        let v = match c {
            Const::Unevaluated(uv, _) => {
                name = s(self.path(uv.def));
                if let Some(p) = uv.promoted {
                    // evaluate if possible, else dump promoted body
                    match c.eval(self.tcx, env, span) {
                        Ok(cv) if !uv.args.has_non_region_param() => self.decode_cv(cv, t, env),
                        _ => {
                            let pid = self.promoted(uv.def, uv.args, env, p.as_usize());
                            J::O(vec![("promoted", u(pid))])
                        }
                    }
                } else {
                    match c.eval(self.tcx, env, span) {
                        Ok(cv) => self.decode_cv(cv, t, env),
                        Err(_) => {
                            // generic (associated) constant: dump as pseudo call
                            J::O(vec![("uneval", s(self.path(uv.def)))])
                        }
                    }
                }
            }
            Const::Val(cv, _) => self.decode_cv(*cv, t, env),
            Const::Ty(_, ct) => match c.eval(self.tcx, env, span) {
                Ok(cv) => self.decode_cv(cv, t, env),
                Err(_) => J::O(vec![("cparam", s(format!("{}", ct)))]),
            },
        };
        J::O(vec![("ty", u(tid)), ("name", name), ("v", v)])
    }

    fn promoted(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>, p: usize) -> usize {
        let key = (d, args, env, p);
        if let Some(i) = self.prom_ids.get(&key) {
            return *i;
        }
        let id = self.next_id;
        self.next_id += 1;
        self.prom_ids.insert(key, id);
        let bodies = self.tcx.promoted_mir(d);
        let body = bodies[mir::Promoted::from_usize(p)].clone();
        let e = self.tcx.erase_and_anonymize_regions(body);
        let body = self
            .tcx
            .try_instantiate_and_normalize_erasing_regions(args, env, ty::EarlyBinder::bind(self.tcx, e.clone()))
            .unwrap_or(e);
        let j = self.body_json(&body, env);
        let mut o = vec![("id", u(id)), ("path", s(format!("{}::promoted[{}]", self.path(d), p))), ("promoted", J::B(true))];
        o.extend(j);
        self.proms.push((id, J::O(o)));
        id
    }

    // ---- places / operands
    fn place(&mut self, p: &Place<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut v = vec![u(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::PhantomDeref => s("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t, env);
                    J::A(vec![s("f"), u(f.as_usize()), u(t)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), u(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("ci"),
                    u(offset as usize),
                    u(min_length as usize),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("sub"), u(from as usize), u(to as usize), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, vi) => J::A(vec![s("d"), u(vi.as_usize())]),
                _ => s("?"),
            });
        }
        J::A(v)
    }

    fn op(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p, env)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p, env)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(&c.const_, c.span, env)]),
            #[allow(unreachable_patterns)]
            _ => J::A(vec![s("k"), J::O(vec![("ty", J::Null), ("v", J::O(vec![("bool", J::B(false))]))])]),
        }
    }

    fn want_descend(&self, inst: &Instance<'tcx>) -> bool {
        let d = inst.def_id();
        if format!("{:?}", inst.args).len() > 150000 {
            return false;
        }
        match inst.def {
            InstanceKind::Item(d) => {
                if self.is_ws(d) {
                    return self.tcx.is_mir_available(d) || matches!(self.tcx.def_kind(d), DefKind::Ctor(..));
                }
                if matches!(self.tcx.def_kind(d), DefKind::Ctor(..)) {
                    return true;
                }
                let p = self.path(d);
                let q = p.trim_start_matches('<');
                let k = self.krate(d);
                if k != "core" && k != "alloc" && k != "std" {
                    return false;
                }
                // trait-impl methods print as <T as Trait>::m: use def_path for the module
                let dp = format!("{}{}", k, self.tcx.def_path(d).to_string_no_crate_verbose());
                let _ = q;
                DESCEND_STD.iter().any(|m| dp.starts_with(m)) && self.tcx.is_mir_available(d)
            }
            InstanceKind::Shim(ShimKind::FnPtr(..)) | InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => true,
            _ => {
                let _ = d;
                false
            }
        }
    }

    fn inst_id(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let key = (inst, env);
        if let Some(i) = self.insts.get(&key) {
            return *i;
        }
        let id = self.next_id;
        self.next_id += 1;
        self.insts.insert(key, id);
        self.depths.insert(id, self.depth);
        self.inst_q.push_back((inst, env, id));
        id
    }

    /// a generic argument of local type with a trait bound: unknown code may call any method of that trait on it
    fn callback_methods(&mut self, f: &Operand<'tcx>, env: TypingEnv<'tcx>, body: &Body<'tcx>) -> Vec<J> {
        let tcx = self.tcx;
        let t = self.norm(f.ty(&body.local_decls, tcx), env);
        let ty::FnDef(d, args) = *t.kind() else { return Vec::new() };
        let args = tcx.erase_and_anonymize_regions(args.skip_binder());
        let d: DefId = d.into();
        let mut out = Vec::new();
        for (c, _) in tcx.clauses_of(d).instantiate(tcx, args) {
            let c = c.skip_norm_wip();
            let Some(tp) = c.as_trait_clause() else { continue };
            let tr = tcx.erase_and_anonymize_regions(tp.skip_binder().trait_ref);
            let ty::Adt(def, _) = *tr.self_ty().kind() else { continue };
            if !def.did().is_local() || !self.is_ws(tr.def_id) {
                continue;
            }
            let mut ms = Vec::new();
            for m in tcx.associated_items(tr.def_id).in_definition_order() {
                if !matches!(m.kind, ty::AssocKind::Fn { .. }) {
                    continue;
                }
                if tcx.generics_of(m.def_id).own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) {
                    continue;
                }
                let margs = ty::GenericArgs::for_item(tcx, m.def_id, |p, _| match tr.args.get(p.index as usize) {
                    Some(a) => *a,
                    None => tcx.lifetimes.re_erased.into(),
                });
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, m.def_id, margs) {
                    if self.want_descend(&inst) {
                        self.depth += 1;
                        let id = self.inst_id(inst, env);
                        self.depth -= 1;
                        ms.push(J::A(vec![s(m.name().to_string()), u(id)]));
                    }
                }
            }
            let st = self.ty(tr.self_ty(), env);
            out.push(J::O(vec![("trait", s(self.path(tr.def_id))), ("ty", u(st)), ("methods", J::A(ms))]));
        }
        out
    }

    fn callee(&mut self, f: &Operand<'tcx>, env: TypingEnv<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let t = self.norm(f.ty(&body.local_decls, tcx), env);
        let ty::FnDef(d, args) = *t.kind() else {
            return J::O(vec![("dyn", self.op(f, env))]);
        };
        let args = args.skip_binder();
        let args = tcx.erase_and_anonymize_regions(args);
        let d: DefId = d.into();
        let mut o: Vec<(&'static str, J)> = vec![("path", s(self.path(d))), ("crate", s(self.krate(d)))];
        let targs: Vec<J> = args.types().map(|a| u(self.ty(a, env))).collect();
        o.push(("targs", J::A(targs)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
            o.push(("method", s(tcx.item_name(d).to_string())));
            let st = self.ty(args.type_at(0), env);
            o.push(("self_ty", u(st)));
        } else if let Some(n) = tcx.opt_item_name(d) {
            o.push(("method", s(n.to_string())));
        }
        if let Some(intr) = tcx.intrinsic(d) {
            o.push(("intrinsic", s(intr.name.to_string())));
        }
        // formatting into a writer: also resolve the writer's write_str
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let nm = tcx.item_name(d).to_string();
            if (nm == "write_fmt" || nm == "write_char") && self.path(tr).ends_with("fmt::Write") {
                if let Some(ws) = tcx
                    .associated_items(tr)
                    .in_definition_order()
                    .find(|i| i.name().as_str() == "write_str")
                {
                    let wargs = tcx.mk_args(&args[..1]);
                    if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, ws.def_id, wargs) {
                        if self.want_descend(&inst) {
                            let id = self.inst_id(inst, env);
                            o.push(("wstr", u(id)));
                        }
                    }
                }
            }
        }
        let can = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..));
        if can {
            match Instance::try_resolve(tcx, env, d, args) {
                Ok(Some(inst)) => {
                    match inst.def {
                        InstanceKind::Virtual(..) => o.push(("virtual", J::B(true))),
                        _ => {}
                    }
                    if matches!(inst.def, InstanceKind::Item(x) if tcx.is_closure_like(x)) {
                        o.push(("closure", J::B(true)));
                    }
                    if self.want_descend(&inst) {
                        let id = self.inst_id(inst, env);
                        o.push(("inst", u(id)));
                    }
                    if inst.def_id() != d {
                        o.push(("rpath", s(self.path(inst.def_id()))));
                    }
                }
                Ok(None) => o.push(("abs", J::B(true))),
                Err(_) => o.push(("abs", J::B(true))),
            }
        }
        J::O(o)
    }

    fn body_json(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let mut locals = Vec::new();
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty, env);
            locals.push(J::A(vec![
                u(t),
                names.get(&l.as_usize()).map(|x| s(x.clone())).unwrap_or(J::Null),
            ]));
        }
        let mut blocks = Vec::new();
        for (_bb, b) in body.basic_blocks.iter_enumerated() {
            if b.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut st = Vec::new();
            for x in &b.statements {
                match &x.kind {
                    StatementKind::Assign(bx) => {
                        let (p, r) = &**bx;
                        let pj = self.place(p, env);
                        let rj = self.rvalue(r, env, body);
                        st.push(J::A(vec![s("="), pj, rj]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(place, env);
                        st.push(J::A(vec![s("sd"), pj, u(variant_index.as_usize())]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), u(l.as_usize())])),
                    StatementKind::StorageLive(l) => st.push(J::A(vec![s("live"), u(l.as_usize())])),
                    StatementKind::Intrinsic(i) => {
                        st.push(J::A(vec![s("intr"), s(format!("{:?}", i))]));
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let (_, line) = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), u(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dty = self.ty(dt, env);
                    let ts: Vec<J> = targets
                        .iter()
                        .map(|(v, t)| J::A(vec![J::U(v), u(t.as_usize())]))
                        .collect();
                    J::A(vec![
                        s("switch"),
                        self.op(discr, env),
                        J::A(ts),
                        u(targets.otherwise().as_usize()),
                        u(dty),
                    ])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let pty = self.ty(pt, env);
                    let pj = self.place(place, env);
                    J::A(vec![s("drop"), pj, u(target.as_usize()), u(pty)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let mut c = self.callee(func, env, body);
                    // closures handed to unknown code: their bodies, a few levels deep
                    if let J::O(o) = &mut c {
                        // iterator methods that only drive a closure are analysed as the loop they are
                        let drives = o.iter().any(|x| x.0 == "trait" && matches!(&x.1, J::S(p) if p.ends_with("iter::Iterator") || p.ends_with("iterator::Iterator")))
                            && o.iter().any(|x| x.0 == "method" && matches!(&x.1, J::S(m) if ITER_DRIVERS.contains(&&**m)));
                        if drives {
                            let mut clos = Vec::new();
                            for (i, x) in args.iter().enumerate() {
                                let t = self.norm(x.node.ty(&body.local_decls, tcx), env);
                                if let ty::Closure(d, cargs) = t.kind() {
                                    if i > 0 && tcx.is_mir_available(*d) {
                                        let id = self.inst_id(Instance::new_raw(*d, cargs), env);
                                        clos.push(J::A(vec![u(i), u(id)]));
                                    }
                                }
                            }
                            if !clos.is_empty() {
                                o.push(("clos", J::A(clos)));
                            }
                        } else if self.depth < 2 && o.iter().any(|x| x.0 == "abs") {
                            let mut clos = Vec::new();
                            for (i, x) in args.iter().enumerate() {
                                let t = self.norm(x.node.ty(&body.local_decls, tcx), env);
                                if let ty::Closure(d, cargs) = t.kind() {
                                    if i > 0 && tcx.is_mir_available(*d) {
                                        self.depth += 1;
                                        let id = self.inst_id(Instance::new_raw(*d, cargs), env);
                                        self.depth -= 1;
                                        clos.push(J::A(vec![u(i), u(id)]));
                                    }
                                }
                            }
                            if !clos.is_empty() {
                                o.push(("clos", J::A(clos)));
                            }
                            if self.callbacks {
                                let cb = self.callback_methods(func, env, body);
                                if !cb.is_empty() {
                                    o.push(("cb", J::A(cb)));
                                }
                            }
                        }
                    }
                    let a: Vec<J> = args.iter().map(|x| self.op(&x.node, env)).collect();
                    let d = self.place(destination, env);
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dty = self.ty(dt, env);
                    J::A(vec![
                        s("call"),
                        c,
                        J::A(a),
                        d,
                        target.map(|t| u(t.as_usize())).unwrap_or(J::Null),
                        u(dty),
                    ])
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    let c = self.callee(func, env, body);
                    let a: Vec<J> = args.iter().map(|x| self.op(&x.node, env)).collect();
                    J::A(vec![s("tailcall"), c, J::A(a)])
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let k = format!("{:?}", msg);
                    let k = k.split(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap_or("").to_string();
                    J::A(vec![s("assert"), self.op(cond, env), J::B(*expected), u(target.as_usize()), s(k)])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), u(real_target.as_usize())]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), u(real_target.as_usize())]),
                _ => J::A(vec![s("unreachable")]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("l", u(line))]));
        }
        vec![
            ("nargs", u(body.arg_count)),
            ("spread", body.spread_arg.map(|l| u(l.as_usize())).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ]
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.op(o, env)]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(tcx).map(|n| u(n as usize)).unwrap_or(J::Null);
                J::A(vec![s("repeat"), self.op(o, env), n])
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, mir::BorrowKind::Mut { .. });
                J::A(vec![s("ref"), self.place(p, env), J::B(m)])
            }
            Rvalue::RawPtr(k, p) => {
                J::A(vec![s("ref"), self.place(p, env), J::B(format!("{:?}", k).contains("Mut")), J::B(true)])
            }
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(c, _) => format!("Coerce:{:?}", c),
                    k => format!("{:?}", k),
                };
                let from = o.ty(&body.local_decls, tcx);
                let ft = self.ty(from, env);
                let tt = self.ty(*t, env);
                J::A(vec![s("cast"), s(ks), self.op(o, env), u(tt), u(ft)])
            }
            Rvalue::BinaryOp(op, b) => {
                let (x, y) = &**b;
                let xt = x.ty(&body.local_decls, tcx);
                let xt = self.ty(xt, env);
                J::A(vec![s("bin"), s(format!("{:?}", op)), self.op(x, env), self.op(y, env), u(xt)])
            }
            Rvalue::UnaryOp(op, x) => {
                let xt = x.ty(&body.local_decls, tcx);
                let xt = self.ty(xt, env);
                J::A(vec![s("un"), s(format!("{:?}", op)), self.op(x, env), u(xt)])
            }
            Rvalue::Discriminant(p) => {
                let pt = p.ty(&body.local_decls, tcx).ty;
                let pt = self.ty(pt, env);
                J::A(vec![s("discr"), self.place(p, env), u(pt)])
            }
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<J> = ops.iter().map(|x| self.op(x, env)).collect();
                let rt = r.ty(&body.local_decls, tcx);
                let rt = self.ty(rt, env);
                let kj = match &**k {
                    AggregateKind::Array(_) => s("array"),
                    AggregateKind::Tuple => s("tuple"),
                    AggregateKind::Adt(_, vi, _, _, af) => J::A(vec![
                        s("adt"),
                        u(vi.as_usize()),
                        af.map(|f| u(f.as_usize())).unwrap_or(J::Null),
                    ]),
                    AggregateKind::Closure(..) => s("closure"),
                    AggregateKind::RawPtr(..) => s("rawptr"),
                    _ => s("other"),
                };
                J::A(vec![s("agg"), kj, J::A(o), u(rt)])
            }
            Rvalue::CopyForDeref(p) => {
                let pj = self.place(p, env);
                J::A(vec![s("use"), J::A(vec![s("c"), pj])])
            }
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), self.place(p, env), J::B(m.is_mut())]),
            _ => J::A(vec![s("opaque"), s(format!("{:?}", r))]),
        }
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str, names: Vec<String>) {
    let kn = tcx.crate_name(LOCAL_CRATE).to_string();
    let mut cx = Cx {
        tcx,
        tys: HashMap::new(),
        ty_q: VecDeque::new(),
        ty_out: Vec::new(),
        insts: HashMap::new(),
        inst_q: VecDeque::new(),
        proms: Vec::new(),
        prom_ids: HashMap::new(),
        next_id: 0,
        depth: 0,
        depths: HashMap::new(),
        local_names: names,
        callbacks: kn == "sval_flatten",
    };
    let mut roots = Vec::new();
    let mut root_ids = Vec::new();
    for d in tcx.hir_body_owners() {
        let did = d.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn => {}
            _ => continue,
        }
        let env = TypingEnv::post_analysis(tcx, did);
        let args = ty::GenericArgs::identity_for_item(tcx, did);
        let args = tcx.erase_and_anonymize_regions(args);
        let inst = Instance::new_raw(did, args);
        let id = cx.inst_id(inst, env);
        root_ids.push(id);
        roots.push(did);
    }
    // provided trait methods an impl does not override: instantiated for that impl
    let mut inherited: HashMap<usize, (String, String, usize)> = HashMap::new();
    for item in tcx.hir_crate_items(()).definitions() {
        let did = item.to_def_id();
        if !matches!(tcx.def_kind(did), DefKind::Impl { of_trait: true }) {
            continue;
        }
        let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
        if !cx.is_ws(tr.def_id) || tcx.item_name(tr.def_id).as_str() == "Value" {
            continue;
        }
        let have: Vec<String> = tcx
            .associated_items(did)
            .in_definition_order()
            .map(|i| i.name().to_string())
            .collect();
        let env = TypingEnv::post_analysis(tcx, did);
        let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
        let sst = cx.tstr(tcx.erase_and_anonymize_regions(st));
        let stid = cx.ty(st, env);
        let trp = cx.path(tr.def_id);
        let trargs = tr.args;
        for i in tcx.associated_items(tr.def_id).in_definition_order() {
            if !matches!(i.kind, ty::AssocKind::Fn { .. }) || !i.defaultness(tcx).has_value() {
                continue;
            }
            if have.contains(&i.name().to_string()) || !tcx.is_mir_available(i.def_id) {
                continue;
            }
            let g = tcx.generics_of(i.def_id);
            if g.own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) {
                continue;
            }
            let args = ty::GenericArgs::for_item(tcx, i.def_id, |p, _| {
                if (p.index as usize) < trargs.len() {
                    trargs[p.index as usize]
                } else {
                    tcx.lifetimes.re_erased.into()
                }
            });
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance::new_raw(i.def_id, args);
            let id = cx.inst_id(inst, env);
            root_ids.push(id);
            inherited.insert(id, (sst.clone(), trp.clone(), stid));
        }
    }
    let rootset: std::collections::HashSet<usize> = root_ids.iter().cloned().collect();
    let mut fns: Vec<J> = Vec::new();
    let limit = 60000usize;
    while let Some((inst, env, id)) = cx.inst_q.pop_front() {
        if fns.len() > limit {
            fns.push(J::O(vec![("id", u(id)), ("truncated", J::B(true))]));
            continue;
        }
        let d = inst.def_id();
        cx.depth = cx.depths.get(&id).cloned().unwrap_or(0);
        let body = tcx.instance_mir(inst.def).clone();
        let eb = tcx.erase_and_anonymize_regions(body);
        let body = inst
            .try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, eb.clone()))
            .unwrap_or(eb);
        let (file, line) = cx.span(tcx.def_span(d));
        let mut o: Vec<(&'static str, J)> = vec![
            ("id", u(id)),
            ("root", J::B(rootset.contains(&id))),
            ("path", s(cx.path(d))),
            ("crate", s(cx.krate(d))),
            ("file", s(file)),
            ("line", u(line)),
            ("shim", J::B(matches!(inst.def, InstanceKind::Shim(_)))),
            ("closure", J::B(tcx.is_closure_like(d))),
        ];
        if let Some(n) = tcx.opt_item_name(d) {
            o.push(("name", s(n.to_string())));
        }
        if let Some((a, b, c)) = inherited.get(&id) {
            o.push(("inh_self", s(a.clone())));
            o.push(("inh_trait", s(b.clone())));
            o.push(("inh_self_ty", u(*c)));
        }
        {
            let av: Vec<J> = inst.args.types().map(|a| u(cx.ty(a, env))).collect();
            o.push(("targs", J::A(av)));
            o.push(("env", s(format!("{:?}", env.param_env))));
        }
        if tcx.is_closure_like(d) {
            o.push(("parent", s(cx.path(tcx.typeck_root_def_id(d)))));
        } else if matches!(tcx.def_kind(d), DefKind::AssocFn) {
            let p = tcx.parent(d);
            match tcx.def_kind(p) {
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    let sst = cx.tstr(tcx.erase_and_anonymize_regions(st));
                    o.push(("impl_self", s(sst)));
                    let stid = cx.ty(st, TypingEnv::post_analysis(tcx, p));
                    o.push(("impl_self_ty", u(stid)));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                        o.push(("impl_trait", s(cx.path(tr.def_id))));
                        o.push(("impl_trait_full", s(rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", tr)))));
                    }
                }
                DefKind::Trait => {
                    o.push(("trait_default", s(cx.path(p))));
                }
                _ => {}
            }
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            o.push(("unsafe_fn", J::B(!sig.skip_binder().safety().is_safe())));
            o.push(("vis", s(format!("{:?}", tcx.visibility(d)))));
        }
        let bj = cx.body_json(&body, env);
        o.extend(bj);
        fns.push(J::O(o));
    }
    while let Some((_, j)) = cx.proms.pop() {
        fns.push(j);
        // promoteds may enqueue instances (rare)
        while let Some((inst, env, id)) = cx.inst_q.pop_front() {
            let body = tcx.instance_mir(inst.def).clone();
            let eb = tcx.erase_and_anonymize_regions(body);
            let body = inst
                .try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, eb.clone()))
                .unwrap_or(eb);
            let mut o: Vec<(&'static str, J)> = vec![
                ("id", u(id)),
                ("root", J::B(false)),
                ("path", s(cx.path(inst.def_id()))),
                ("crate", s(cx.krate(inst.def_id()))),
                ("closure", J::B(false)),
                ("shim", J::B(false)),
            ];
            o.extend(cx.body_json(&body, env));
            fns.push(J::O(o));
        }
    }

    // ---- impl inventory
    let mut impls = Vec::new();
    for item in tcx.hir_crate_items(()).definitions() {
        let did = item.to_def_id();
        if let DefKind::Impl { of_trait: true } = tcx.def_kind(did) {
            let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
            let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let sst = cx.tstr(tcx.erase_and_anonymize_regions(st));
            let stid = cx.ty(st, TypingEnv::post_analysis(tcx, did));
            let items: Vec<J> = tcx
                .associated_items(did)
                .in_definition_order()
                .map(|i| s(i.name().to_string()))
                .collect();
            let (f, l) = cx.span(tcx.def_span(did));
            impls.push(J::O(vec![
                ("trait", s(cx.path(tr.def_id))),
                ("self", s(sst)),
                ("self_ty", u(stid)),
                ("items", J::A(items)),
                ("derived", J::B(tcx.is_automatically_derived(did))),
                ("file", s(f)),
                ("line", u(l)),
            ]));
        }
    }
    // ---- traits: methods with/without default
    let mut traits = Vec::new();
    for item in tcx.hir_crate_items(()).definitions() {
        let did = item.to_def_id();
        if let DefKind::Trait = tcx.def_kind(did) {
            let items: Vec<J> = tcx
                .associated_items(did)
                .in_definition_order()
                .filter(|i| matches!(i.kind, ty::AssocKind::Fn { .. }))
                .map(|i| {
                    J::A(vec![
                        s(i.name().to_string()),
                        J::B(i.defaultness(tcx).has_value()),
                        u(tcx.fn_sig(i.def_id).instantiate_identity().skip_norm_wip().skip_binder().inputs().len()),
                    ])
                })
                .collect();
            traits.push(J::O(vec![("path", s(cx.path(did))), ("methods", J::A(items))]));
        }
    }
    // ---- unsafe blocks
    let mut uv = UnsafeV { tcx, found: Vec::new() };
    for d in tcx.hir_body_owners() {
        let body = tcx.hir_body_owned_by(d);
        rustc_hir::intravisit::Visitor::visit_body(&mut uv, body);
    }
    let mut unsafes = Vec::new();
    for (owner, sp) in std::mem::take(&mut uv.found) {
        let (f, l) = cx.span(sp);
        unsafes.push(J::O(vec![("fn", s(cx.path(owner))), ("file", s(f)), ("line", u(l))]));
    }
    // ---- consts and statics
    let mut consts = Vec::new();
    for item in tcx.hir_crate_items(()).definitions() {
        let did = item.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Static { .. } => {
                let env = TypingEnv::post_analysis(tcx, did);
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let t = cx.norm(t, env);
                let tid = cx.ty(t, env);
                let v = match tcx.eval_static_initializer(did) {
                    Ok(a) => {
                        let id = tcx.reserve_and_set_memory_alloc(a);
                        cx.decode_alloc(id, 0, t, env, 0)
                    }
                    Err(_) => J::Null,
                };
                consts.push(J::O(vec![("path", s(cx.path(did))), ("kind", s("static")), ("ty", u(tid)), ("v", v)]));
            }
            DefKind::Const | DefKind::AssocConst => {
                if tcx.generics_of(did).requires_monomorphization(tcx) {
                    continue;
                }
                let env = TypingEnv::post_analysis(tcx, did);
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let t = cx.norm(t, env);
                let tid = cx.ty(t, env);
                let v = match tcx.const_eval_poly(did) {
                    Ok(cv) => cx.decode_cv(cv, t, env),
                    Err(_) => J::Null,
                };
                consts.push(J::O(vec![("path", s(cx.path(did))), ("kind", s("const")), ("ty", u(tid)), ("v", v)]));
            }
            _ => {}
        }
    }
    cx.drain_tys();
    let mut txt = String::new();
    J::O(vec![
        ("crate", s(kn.clone())),
        ("fns", J::A(fns)),
        ("tys", J::A(std::mem::take(&mut cx.ty_out))),
        ("impls", J::A(impls)),
        ("traits", J::A(traits)),
        ("unsafes", J::A(unsafes)),
        ("consts", J::A(consts)),
    ])
    .w(&mut txt);
    let _ = J::R(String::new());
    std::fs::write(format!("{}/{}.json", out, kn), txt).expect("write dump");
}

struct UnsafeV<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<(DefId, Span)>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeV<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
            let owner = b.hir_id.owner.def_id.to_def_id();
            if !self.found.iter().any(|(o, s)| *o == owner && *s == b.span) {
                self.found.push((owner, b.span));
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Cb {
    out: String,
    names: Vec<String>,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let kn = tcx.crate_name(LOCAL_CRATE).to_string();
        if self.names.iter().any(|x| *x == kn) && tcx.dcx().has_errors().is_none() {
            dump(tcx, &self.out, self.names.clone());
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    // invoked by cargo as: driver <rustc> <args...>
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("SVCHK_OUT").unwrap_or_default();
    let names: Vec<String> = std::env::var("SVCHK_CRATES")
        .unwrap_or_default()
        .split(',')
        .filter(|x| !x.is_empty())
        .map(|x| x.to_string())
        .collect();
    let mut cb = Cb { out, names };
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut cb))
}
