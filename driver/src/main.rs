// zkpfacts: a rustc wrapper that type-checks the crate as usual and then writes the
// monomorphised MIR (with evaluated constants and resolved callees) of every function of the
// crate, and of everything it reaches, to $ZKPFACTS_OUT/<crate>.json.  Nothing is executed.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_session;
extern crate rustc_span;

use rustc_middle::ty as ity;
use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, VariantsShape, TagEncoding};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal::{internal, stable};
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, DefId};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty, usize>,
    tyjson: Vec<String>,
    adts: BTreeMap<String, String>,
    queue: VecDeque<(Instance, usize)>,
    seen: HashSet<Instance>,
    bodies: Vec<String>,
    ws: HashSet<String>,
    skipped: Vec<String>,
}

fn is_ws(cx: &Cx, krate: &str) -> bool { cx.ws.contains(krate) }

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) { return *i; }
        let idx = self.tyjson.len();
        self.tys.insert(t, idx);
        self.tyjson.push(String::new());
        let disp = q(&format!("{}", DispTy(t)));
        let j = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => r#"{"k":"bool"}"#.into(),
                RigidTy::Char => r#"{"k":"char"}"#.into(),
                RigidTy::Int(i) => format!(r#"{{"k":"int","b":{},"sz":{}}}"#, i.num_bytes() * 8, matches!(i, IntTy::Isize)),
                RigidTy::Uint(i) => format!(r#"{{"k":"uint","b":{},"sz":{}}}"#, i.num_bytes() * 8, matches!(i, UintTy::Usize)),
                RigidTy::Float(_) => r#"{"k":"float"}"#.into(),
                RigidTy::Adt(d, args) => {
                    self.adt(d);
                    let a = self.gargs(&args);
                    // field types for structs, variants for enums
                    let tcx = self.tcx;
                    let mut fts = String::from("[");
                    for (vi, v) in d.variants().into_iter().enumerate() {
                        if vi > 0 { fts.push(','); }
                        fts.push('[');
                        for (fi, f) in v.fields().into_iter().enumerate() {
                            if fi > 0 { fts.push(','); }
                            let ft = f.ty_with_args(&args);
                            // normalise projections
                            let ift = internal(tcx, ft);
                            let n = tcx.try_normalize_erasing_regions(ity::TypingEnv::fully_monomorphized(), ity::Unnormalized::new_wip(ift));
                            let ft = match n { Ok(x) => stable(x), Err(_) => ft };
                            let _ = write!(fts, "{}", self.ty(ft));
                        }
                        fts.push(']');
                    }
                    fts.push(']');
                    format!(r#"{{"k":"adt","n":{},"a":{},"f":{}}}"#, q(&dname(d.def_id())), a, fts)
                }
                RigidTy::Str => r#"{"k":"str"}"#.into(),
                RigidTy::Array(e, n) => {
                    let l = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                    format!(r#"{{"k":"array","e":{},"l":{}}}"#, self.ty(e), l)
                }
                RigidTy::Slice(e) => format!(r#"{{"k":"slice","e":{}}}"#, self.ty(e)),
                RigidTy::RawPtr(e, m) => format!(r#"{{"k":"ptr","e":{},"m":{}}}"#, self.ty(e), m == Mutability::Mut),
                RigidTy::Ref(_, e, m) => format!(r#"{{"k":"ref","e":{},"m":{}}}"#, self.ty(e), m == Mutability::Mut),
                RigidTy::FnDef(d, args) => {
                    let f = self.fnref(d, &args, 0);
                    format!(r#"{{"k":"fndef","fn":{}}}"#, f)
                }
                RigidTy::Closure(d, args) => {
                    let inst = Instance::resolve_closure(d, &args, ClosureKind::FnOnce).ok();
                    // resolve with the closure's own kind to get the body itself
                    let inst2 = self.closure_inst(d, &args).or(inst);
                    let nm = match inst2 { Some(i) => { self.enqueue(i, 0); q(&iname(&i)) }, None => "null".into() };
                    let ups = self.upvars(&args);
                    format!(r#"{{"k":"closure","n":{},"inst":{},"u":[{}]}}"#, q(&dname(d.def_id())), nm, ups)
                }
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!(r#"{{"k":"tuple","e":[{}]}}"#, v.join(","))
                }
                RigidTy::FnPtr(_) => r#"{"k":"fnptr"}"#.into(),
                RigidTy::Dynamic(..) => r#"{"k":"dyn"}"#.into(),
                RigidTy::Never => r#"{"k":"never"}"#.into(),
                _ => r#"{"k":"other"}"#.into(),
            },
            _ => r#"{"k":"other"}"#.into(),
        };
        let j = format!("{},\"s\":{}}}", &j[..j.len() - 1], disp);
        self.tyjson[idx] = j;
        idx
    }

    fn closure_inst(&self, d: ClosureDef, args: &GenericArgs) -> Option<Instance> {
        let tcx = self.tcx;
        let did = internal(tcx, d.def_id());
        let iargs = internal(tcx, args);
        let i = ity::Instance::new_raw(did, iargs);
        Some(stable(i))
    }

    fn upvars(&mut self, args: &GenericArgs) -> String {
        let tcx = self.tcx;
        let iargs = internal(tcx, args);
        let c = iargs.as_closure();
        let v: Vec<String> = c.upvar_tys().iter().map(|t| { let s = stable(t); self.ty(s).to_string() }).collect();
        v.join(",")
    }

    fn gargs(&mut self, args: &GenericArgs) -> String {
        let mut v = vec![];
        for a in &args.0 {
            match a {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(format!("{{\"c\":{}}}", c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()))),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        format!("[{}]", v.join(","))
    }

    fn adt(&mut self, d: AdtDef) {
        let n = dname(d.def_id());
        if self.adts.contains_key(&n.to_string()) { return; }
        let kind = match d.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" };
        let mut vs = vec![];
        for v in d.variants() {
            let fs: Vec<String> = v.fields().iter().map(|f| q(&f.name.to_string())).collect();
            let discr = if d.kind() == AdtKind::Enum { d.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
            vs.push(format!(r#"{{"n":{},"d":{},"f":[{}]}}"#, q(&v.name()), q(&discr), fs.join(",")));
        }
        let krate = d.krate().name.to_string();
        self.adts.insert(n.to_string(), format!(r#"{{"kind":"{}","crate":{},"v":[{}]}}"#, kind, q(&krate), vs.join(",")));
    }

    fn enqueue(&mut self, i: Instance, depth: usize) {
        if self.seen.insert(i) { self.queue.push_back((i, depth)); }
    }

    fn trait_item(&self, did: DefId) -> Option<String> {
        let tcx = self.tcx;
        let d = internal(tcx, did);
        if let Some(t) = tcx.trait_item_of(d) { return Some(stable_name(tcx, t)); }
        if tcx.trait_of_assoc(d).is_some() { return Some(stable_name(tcx, d)); }
        None
    }

    /// reference to a function with arguments: path, trait item, args, resolved instance
    fn fnref(&mut self, d: FnDef, args: &GenericArgs, depth: usize) -> String {
        let inst = Instance::resolve(d, args).ok();
        let tr = self.trait_item(d.def_id());
        let mut is = "null".to_string();
        let mut kind = "none";
        if let Some(i) = inst {
            is = q(&iname(&i));
            kind = match i.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::LlvmIntrinsic => "llvm", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim" };
            if i.kind != InstanceKind::Intrinsic { self.enqueue(i, depth + 1); }
        }
        let a = self.gargs(args);
        let krate = inst.map(|i| i.def.krate().name.to_string()).unwrap_or_default();
        let ipath = inst.map(|i| dname(i.def.def_id())).unwrap_or_default();
        let us = matches!(d.fn_sig().skip_binder().safety, Safety::Unsafe);
        format!(r#"{{"p":{},"us":{},"t":{},"a":{},"i":{},"ik":"{}","ic":{},"ip":{}}}"#, q(&dname(d.def_id())), us, tr.map(|t| q(&t)).unwrap_or("null".into()), a, is, kind, q(&krate), q(&ipath))
    }

    fn cval(&mut self, al: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        if depth > 12 { return "null".into(); }
        let lay = match t.layout() { Ok(l) => l.shape(), Err(_) => return "null".into() };
        let size = lay.size.bytes();
        let rd = |o: usize, n: usize| -> Option<u128> {
            let mut r = 0u128;
            for k in 0..n { r |= (al.bytes.get(o + k).copied().flatten()? as u128) << (8 * k); }
            Some(r)
        };
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => rd(off, size).map(|v| format!(r#"{{"u":"{}"}}"#, v)).unwrap_or("null".into()),
                RigidTy::Int(_) => rd(off, size).map(|v| {
                    let bits = size * 8;
                    let sv = if bits < 128 && v >> (bits - 1) & 1 == 1 { (v as i128) - (1i128 << bits) } else { v as i128 };
                    format!(r#"{{"u":"{}"}}"#, sv)
                }).unwrap_or("null".into()),
                RigidTy::Float(_) => rd(off, size).map(|v| format!(r#"{{"f":"{}"}}"#, v)).unwrap_or("null".into()),
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().unwrap_or(0) as usize;
                    if n > 4096 { return "null".into(); }
                    let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    let v: Vec<String> = (0..n).map(|k| self.cval(al, off + k * es, e, depth + 1)).collect();
                    format!(r#"{{"arr":[{}]}}"#, v.join(","))
                }
                RigidTy::Tuple(ts) => {
                    if let FieldsShape::Arbitrary { offsets } = &lay.fields {
                        let v: Vec<String> = ts.iter().enumerate().map(|(k, t)| self.cval(al, off + offsets[k].bytes(), *t, depth + 1)).collect();
                        format!(r#"{{"tup":[{}]}}"#, v.join(","))
                    } else { r#"{"tup":[]}"#.into() }
                }
                RigidTy::Adt(d, args) => {
                    self.ty(t);
                    let (vi, offs): (usize, Vec<usize>) = match (&lay.variants, &lay.fields) {
                        (VariantsShape::Single { index }, FieldsShape::Arbitrary { offsets }) => (rustc_public_vidx(index), offsets.iter().map(|o| o.bytes()).collect()),
                        (VariantsShape::Single { index }, _) => (rustc_public_vidx(index), vec![]),
                        (VariantsShape::Multiple { tag, tag_encoding, tag_field, variants }, FieldsShape::Arbitrary { offsets }) => {
                            let to = offsets[*tag_field].bytes();
                            let tsz = scalar_size(tag);
                            let tv = match rd(off + to, tsz) { Some(v) => v, None => return "null".into() };
                            // pointer-niche: treat provenance as untagged
                            let has_prov = al.provenance.ptrs.iter().any(|(o, _)| *o == off + to);
                            let vi = match tag_encoding {
                                TagEncoding::Direct => {
                                    let mut r = 0;
                                    for v in d.variants() { let dv = d.discriminant_for_variant(v.idx()).val; let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 }; if dv & mask == tv { r = rustc_public_vidx(&v.idx()); } }
                                    r
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    let rel = tv.wrapping_sub(*niche_start) & mask;
                                    let s = rustc_public_vidx(niche_variants.start()) as u128;
                                    let e = rustc_public_vidx(niche_variants.end()) as u128;
                                    if !has_prov && rel <= e - s { (s + rel) as usize } else { rustc_public_vidx(untagged_variant) }
                                }
                            };
                            (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                        }
                        _ => return "null".into(),
                    };
                    let tcx = self.tcx;
                    let vars = d.variants();
                    let mut v = vec![];
                    if d.kind() == AdtKind::Union || vi >= vars.len() { return "null".into(); }
                    for (k, f) in vars[vi].fields().iter().enumerate() {
                        let ft = f.ty_with_args(&args);
                        let n = tcx.try_normalize_erasing_regions(ity::TypingEnv::fully_monomorphized(), ity::Unnormalized::new_wip(internal(tcx, ft)));
                        let ft = match n { Ok(x) => stable(x), Err(_) => ft };
                        let o = offs.get(k).copied().unwrap_or(0);
                        v.push(self.cval(al, off + o, ft, depth + 1));
                    }
                    format!(r#"{{"adt":{},"ty":{},"f":[{}]}}"#, vi, self.ty(t), v.join(","))
                }
                RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                    let prov = al.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                    let inner = rd(off, 8).unwrap_or(0) as usize;
                    let Some(p) = prov else { return format!(r#"{{"addr":"{}"}}"#, inner) };
                    match GlobalAlloc::from(p) {
                        GlobalAlloc::Memory(a2) => match e.kind() {
                            TyKind::RigidTy(RigidTy::Str) => {
                                let n = rd(off + 8, 8).unwrap_or(0) as usize;
                                let b: Vec<u8> = a2.bytes[inner..inner + n].iter().map(|x| x.unwrap_or(0)).collect();
                                format!(r#"{{"str":{}}}"#, q(&String::from_utf8_lossy(&b)))
                            }
                            TyKind::RigidTy(RigidTy::Slice(el)) => {
                                let n = rd(off + 8, 8).unwrap_or(0) as usize;
                                if n > 2048 { return "null".into(); }
                                let es = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                                let v: Vec<String> = (0..n).map(|k| self.cval(&a2, inner + k * es, el, depth + 1)).collect();
                                format!(r#"{{"ref":{{"arr":[{}]}}}}"#, v.join(","))
                            }
                            _ => format!(r#"{{"ref":{}}}"#, self.cval(&a2, inner, e, depth + 1)),
                        },
                        GlobalAlloc::Static(s) => format!(r#"{{"static":{}}}"#, q(&dname(s.def_id()))),
                        GlobalAlloc::Function(i) => format!(r#"{{"fnptr":{}}}"#, q(&iname(&i))),
                        _ => "null".into(),
                    }
                }
                RigidTy::FnPtr(_) => {
                    let prov = al.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                    match prov.map(GlobalAlloc::from) {
                        Some(GlobalAlloc::Function(i)) => { self.enqueue(i, 0); format!(r#"{{"fnptr":{}}}"#, q(&iname(&i))) }
                        _ => "null".into(),
                    }
                }
                RigidTy::FnDef(..) | RigidTy::Closure(..) => { let ti = self.ty(t); format!(r#"{{"zst":{}}}"#, ti) }
                _ => "null".into(),
            },
            _ => "null".into(),
        }
    }

    fn konst(&mut self, c: &ConstOperand, depth: usize) -> String {
        let t = c.const_.ty();
        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = t.kind() {
            return format!(r#"["fn",{}]"#, self.fnref(d, &a, depth));
        }
        let v = match c.const_.kind() {
            ConstantKind::Allocated(a) => self.cval(a, 0, t, 0),
            ConstantKind::ZeroSized => {
                if let TyKind::RigidTy(RigidTy::Adt(..)) | TyKind::RigidTy(RigidTy::Tuple(..)) = t.kind() {
                    let a = Allocation { bytes: vec![], provenance: ProvenanceMap { ptrs: vec![] }, align: 1, mutability: Mutability::Not };
                    self.cval(&a, 0, t, 0)
                } else { format!(r#"{{"zst":{}}}"#, self.ty(t)) }
            }
            ConstantKind::Ty(tc) => tc.eval_target_usize().map(|x| format!(r#"{{"u":"{}"}}"#, x)).unwrap_or("null".into()),
            k => format!(r#"{{"opaque":{}}}"#, q(&format!("{:?}", k).chars().take(80).collect::<String>())),
        };
        format!(r#"["k",{},{}]"#, self.ty(t), v)
    }

    fn place(&mut self, p: &Place) -> String {
        if p.projection.is_empty() { return format!("[{}]", p.local); }
        let mut v = vec![p.local.to_string()];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".into(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", rustc_public_vidx(v)),
                ProjectionElem::OpaqueCast(_) => "\"oc\"".into(),
            });
        }
        format!("[{}]", v.join(","))
    }

    fn operand(&mut self, o: &Operand, depth: usize) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(c, depth),
            Operand::RuntimeChecks(_) => "[\"rc\"]".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue, depth: usize) -> String {
        match r {
            Rvalue::AddressOf(k, p) => format!("[\"addr\",{},{}]", matches!(k, RawPtrKind::Mut), self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o, depth)).collect();
                let ks = match k {
                    AggregateKind::Array(t) => format!("[\"arr\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tup\"]".into(),
                    AggregateKind::Adt(d, v, a, _, f) => { let t = d.ty_with_args(a); format!("[\"adt\",{},{},{}]", self.ty(t), rustc_public_vidx(v), f.map(|x| x.to_string()).unwrap_or("null".into())) }
                    AggregateKind::Closure(d, a) => { let t = Ty::new_closure(*d, a.clone()); format!("[\"closure\",{}]", self.ty(t)) }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},[{}]]", ks, os.join(","))
            }
            Rvalue::BinaryOp(op, a, b) => format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(a, depth), self.operand(b, depth)),
            Rvalue::CheckedBinaryOp(op, a, b) => format!("[\"cbin\",\"{:?}\",{},{}]", op, self.operand(a, depth), self.operand(b, depth)),
            Rvalue::Cast(k, o, t) => {
                let ks = match k { CastKind::PointerCoercion(p) => format!("{:?}", p).split('(').next().unwrap().to_string(), k => format!("{:?}", k) };
                format!("[\"cast\",\"{}\",{},{}]", ks, self.operand(o, depth), self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.operand(o, depth), n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(a, depth)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, depth)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", *m == Mutability::Mut, self.place(p)),
        }
    }

    fn emit(&mut self, inst: Instance, depth: usize) {
        let krate = inst.def.krate().name.to_string();
        let ws = is_ws(self, &krate);
        if !ws && depth > 5 { return; }
        if !inst.has_body() && inst.kind != InstanceKind::Shim { return; }
        let name = iname(&inst);
        let body = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| inst.body())) {
            Ok(Some(b)) => b,
            _ => { self.skipped.push(name); return; }
        };
        if !ws && body.blocks.len() > 60 { return; }
        let ndepth = if ws { 0 } else { depth };
        let tcx = self.tcx;
        let did = internal(tcx, inst.def.def_id());
        let mut o = String::new();
        let span = body.span.get_lines();
        let file = { let sp = tcx.def_span(did).source_callsite(); let n = stable_span_file(tcx, sp); n };
        let tr = self.trait_item(inst.def.def_id());
        let selfty = match tcx.impl_of_assoc(did) {
            Some(im) => {
                let st = tcx.type_of(im).instantiate(tcx, internal(tcx, &inst.args())).skip_norm_wip();
                let n = tcx.try_normalize_erasing_regions(ity::TypingEnv::fully_monomorphized(), ity::Unnormalized::new_wip(st));
                match n { Ok(x) => self.ty(stable(x)).to_string(), Err(_) => "null".into() }
            }
            None => "null".into(),
        };
        let args = self.gargs(&inst.args());
        let dk = tcx.def_kind(did);
        let is_unsafe = match dk { rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn => tcx.fn_sig(did).instantiate_identity().skip_norm_wip().safety().is_unsafe(), _ => false };
        let vis = if matches!(dk, rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn) { tcx.visibility(did).is_public() } else { false };
        // derived by an attribute (as opposed to written out or generated by a macro_rules macro of the repository)
        let from_exp = { let mut d = did; let mut r = false; loop { if matches!(tcx.def_kind(d), rustc_hir::def::DefKind::Impl { .. }) { r = tcx.is_automatically_derived(d); break; } match tcx.opt_parent(d) { Some(p) => d = p, None => break } } r };
        let kind = match inst.kind { InstanceKind::Item => "item", InstanceKind::Shim => "shim", _ => "other" };
        let path = dname(inst.def.def_id());
        let _ = write!(o, "{{\"name\":{},\"path\":{},\"crate\":{},\"kind\":\"{}\",\"dk\":\"{:?}\",\"trait\":{},\"self\":{},\"args\":{},\"file\":{},\"line\":{},\"eline\":{},\"unsafe\":{},\"pub\":{},\"mac\":{},\"argc\":{},\"spread\":{},",
            q(&name), q(&path), q(&krate), kind, dk, tr.map(|t| q(&t)).unwrap_or("null".into()), selfty, args, q(&file), span.start_line, span.end_line, is_unsafe, vis, from_exp, body.arg_locals().len(), body.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()));
        let lts: Vec<String> = body.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(o, "\"locals\":[{}],", lts.join(","));
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let Some(l) = v.local() { names.push(format!("[{},{}]", l, q(&v.name))); }
        }
        let _ = write!(o, "\"names\":[{}],\"blocks\":[", names.join(","));
        for (bi, b) in body.blocks.iter().enumerate() {
            if bi > 0 { o.push(','); }
            o.push_str("{\"s\":[");
            let mut first = true;
            for s in &b.statements {
                let line = s.source_info.span.get_lines().start_line;
                let js = match &s.kind {
                    StatementKind::Assign(p, r) => format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r, ndepth), line),
                    StatementKind::SetDiscriminant { place, variant_index } => format!("[\"sd\",{},{}]", self.place(place), rustc_public_vidx(variant_index)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => format!("[\"cno\",{},{},{}]", self.operand(&c.src, ndepth), self.operand(&c.dst, ndepth), self.operand(&c.count, ndepth)),
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l),
                    _ => continue,
                };
                if !first { o.push(','); }
                first = false;
                o.push_str(&js);
            }
            let line = b.terminator.source_info.span.get_lines().start_line;
            let tj = match &b.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[\"{}\",{}]", v, t)).collect();
                    let dt = discr.ty(body.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("[\"switch\",{},[{}],{},{}]", self.operand(discr, ndepth), br.join(","), targets.otherwise(), dt)
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unr\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(body.locals()).ok();
                    let ts = t.map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("[\"drop\",{},{},{}]", self.place(place), target, ts)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(x, ndepth)).collect();
                    format!("[\"call\",{},[{}],{},{},{}]", self.operand(func, ndepth), a.join(","), self.place(destination), target.map(|t| t.to_string()).unwrap_or("null".into()), line)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg { AssertMessage::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.operand(len, ndepth), self.operand(index, ndepth)), m => q(&format!("{:?}", m).split('(').next().unwrap_or("")) };
                    format!("[\"assert\",{},{},{},{},{}]", self.operand(cond, ndepth), expected, m, target, line)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            let _ = write!(o, "],\"t\":{}}}", tj);
        }
        o.push_str("]}");
        self.bodies.push(o);
    }
}

fn rustc_public_vidx(v: &VariantIdx) -> usize {
    // VariantIdx has no accessor; it prints as VariantIdx(n, ..)
    let s = format!("{:?}", v);
    let digits: String = s.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
    digits.parse().unwrap()
}
fn scalar_size(s: &rustc_public::abi::Scalar) -> usize {
    use rustc_public::abi::*;
    let v = match s { Scalar::Initialized { value, .. } => value, Scalar::Union { value } => value };
    match v {
        Primitive::Int { length, .. } => match length { IntegerLength::I8 => 1, IntegerLength::I16 => 2, IntegerLength::I32 => 4, IntegerLength::I64 => 8, IntegerLength::I128 => 16 },
        _ => 8,
    }
}
macro_rules! pp { ($e:expr) => {{
    use rustc_middle::ty::print::*;
    with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!($e)))
}} }
fn stable_name(tcx: TyCtxt<'_>, d: rustc_span::def_id::DefId) -> String { pp!(tcx.def_path_str(d)) }
fn iname(i: &Instance) -> String {
    rustc_middle::ty::tls::with(|tcx| { let ii = internal(tcx, *i); pp!(format!("{}", ii)) })
}
fn dname(d: DefId) -> String { rustc_middle::ty::tls::with(|tcx| { let i = internal(tcx, d); stable_name(tcx, i) }) }

struct DispTy(Ty);
impl std::fmt::Display for DispTy {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let s = rustc_middle::ty::tls::with(|tcx| { let t = internal(tcx, self.0); pp!(format!("{}", t)) });
        f.write_str(&s)
    }
}

/// Candidate argument lists for a generic function: every combination (capped) of candidate
/// types that satisfies the where-clauses.
fn candidates<'tcx>(tcx: TyCtxt<'tcx>, did: rustc_span::def_id::DefId, pool: &[ity::Ty<'tcx>]) -> Vec<ity::GenericArgsRef<'tcx>> {
    let g = tcx.generics_of(did);
    let n = g.count();
    let mut out: Vec<Vec<ity::GenericArg<'tcx>>> = vec![vec![]];
    let mut params = vec![];
    for i in 0..n { params.push(g.param_at(i, tcx).clone()); }
    for p in &params {
        let mut next = vec![];
        for pre in &out {
            match p.kind {
                ity::GenericParamDefKind::Lifetime => { let mut v = pre.clone(); v.push(tcx.lifetimes.re_erased.into()); next.push(v); }
                ity::GenericParamDefKind::Type { .. } => {
                    for t in pool { let mut v = pre.clone(); v.push((*t).into()); next.push(v); }
                }
                ity::GenericParamDefKind::Const { .. } => {
                    let c = ity::Const::from_target_usize(tcx, 4);
                    let mut v = pre.clone(); v.push(c.into()); next.push(v);
                }
            }
            if next.len() > 20000 { return vec![]; }
        }
        out = next;
    }
    let mut res = vec![];
    for v in out {
        let args = tcx.mk_args(&v);
        if preds_ok(tcx, did, args) { res.push(args); }
        if res.len() >= 12 { break; }
    }
    res
}
fn preds_ok<'tcx>(tcx: TyCtxt<'tcx>, did: rustc_span::def_id::DefId, args: ity::GenericArgsRef<'tcx>) -> bool {
    // every where-clause with concrete args must be provable
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| !tcx.instantiate_and_check_impossible_clauses((did, args))));
    r.unwrap_or(false)
}

fn run(tcx: TyCtxt<'_>) -> ControlFlow<()> {
    let out = match std::env::var("ZKPFACTS_OUT") { Ok(o) => o, Err(_) => return ControlFlow::Continue(()) };
    let local = rustc_public::local_crate();
    let ws: HashSet<String> = std::env::var("ZKPFACTS_WS").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let mut cx = Cx { tcx, tys: HashMap::new(), tyjson: vec![], adts: BTreeMap::new(), queue: VecDeque::new(), seen: HashSet::new(), bodies: vec![], ws, skipped: vec![] };
    // candidate type pool for generic roots
    let mut pool: Vec<ity::Ty<'_>> = vec![];
    let mut crates = vec![local.clone()];
    crates.extend(rustc_public::external_crates().into_iter().filter(|c| cx.ws.contains(&c.name.to_string()) && c.name != "zkp_macros_impl"));
    for c in &crates {
        for a in c.adts() {
            let id = internal(tcx, a.def_id());
            let g = tcx.generics_of(id);
            if g.count() == 0 { pool.push(tcx.type_of(id).instantiate_identity().skip_norm_wip()); }
        }
    }
    // PrimeField<P> instances
    let extra: Vec<ity::Ty<'_>> = {
        let mut v = vec![];
        for c in &crates {
            for a in c.adts() {
                let id = internal(tcx, a.def_id());
                let g = tcx.generics_of(id);
                if g.count() == 1 && matches!(g.param_at(0, tcx).kind, ity::GenericParamDefKind::Type { .. }) {
                    for t in &pool {
                        let args = tcx.mk_args(&[(*t).into()]);
                        if preds_ok(tcx, id, args) && a.name().ends_with("PrimeField") { v.push(ity::Ty::new_adt(tcx, tcx.adt_def(id), args)); }
                    }
                }
            }
        }
        v
    };
    pool.extend(extra);
    pool.push(tcx.types.u64);
    pool.push(tcx.types.usize);
    let mut generic = vec![];
    for ldid in tcx.mir_keys(()).iter() {
        let did = ldid.to_def_id();
        match tcx.def_kind(did) {
            rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn => {}
            _ => continue,
        }
        let g = tcx.generics_of(did);
        if g.requires_monomorphization(tcx) {
            let cands = candidates(tcx, did, &pool);
            generic.push((stable_name(tcx, did), cands.len()));
            for a in cands {
                if let Ok(Some(i)) = ity::Instance::try_resolve(tcx, ity::TypingEnv::fully_monomorphized(), did, a) {
                    let si: Instance = stable(i);
                    cx.enqueue(si, 0);
                }
            }
        } else {
            let args = ity::GenericArgs::for_item(tcx, did, |p, _| match p.kind { ity::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(), _ => unreachable!() });
            if tcx.instantiate_and_check_impossible_clauses((did, args)) { continue; }
            let si: Instance = stable(ity::Instance::new_raw(did, args));
            cx.enqueue(si, 0);
        }
    }
    while let Some((i, d)) = cx.queue.pop_front() { cx.emit(i, d); }
    // unsafe usage etc. is derived from bodies; list all local items with flags
    let mut s = String::new();
    s.push_str("{\"crate\":");
    s.push_str(&q(&local.name.to_string()));
    let _ = write!(s, ",\"types\":[{}]", cx.tyjson.join(",\n"));
    let ad: Vec<String> = cx.adts.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect();
    let _ = write!(s, ",\n\"adts\":{{{}}}", ad.join(",\n"));
    let ge: Vec<String> = generic.iter().map(|(k, v)| format!("[{},{}]", q(k), v)).collect();
    let _ = write!(s, ",\n\"generic\":[{}]", ge.join(",\n"));
    let sk: Vec<String> = cx.skipped.iter().map(|k| q(k)).collect();
    let _ = write!(s, ",\n\"skipped\":[{}]", sk.join(",\n"));
    let _ = write!(s, ",\n\"bodies\":[\n{}\n]}}\n", cx.bodies.join(",\n"));
    let kind = if tcx.crate_types().iter().any(|t| format!("{:?}", t) == "Executable") { "bin" } else { "lib" };
    std::fs::write(format!("{}/{}.{}.json", out, local.name, kind), s).unwrap();
    ControlFlow::Continue(())
}

fn stable_span_file(tcx: TyCtxt<'_>, sp: rustc_span::Span) -> String {
    let s: rustc_public::ty::Span = stable(sp);
    let _ = tcx;
    s.get_filename().to_string()
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WRAPPER every crate passes through here: those outside the workspace go to the real compiler
    if args.len() > 1 && args[1].ends_with("rustc") {
        let ws = std::env::var("ZKPFACTS_WS").unwrap_or_default();
        let mine = args.windows(2).any(|w| w[0] == "--crate-name" && ws.split(',').any(|x| x == w[1]));
        if !mine {
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new(&args[1]).args(&args[2..]).exec();
            eprintln!("{}", e);
            std::process::exit(1);
        }
    }
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let probe = args.iter().any(|a| a == "-vV" || a == "--print" || a.starts_with("--print="));
    if probe {
        struct Nop; impl rustc_driver::Callbacks for Nop {}
        rustc_driver::install_ice_hook("", |_| ());
        let code = rustc_driver::catch_with_exit_code(|| { rustc_driver::compiler_entrypoint(&args, &mut Nop); });
        let _ = code;
        return;
    }
    for a in ["-Zalways-encode-mir", "-Zmir-opt-level=0", "-Cdebug-assertions=off", "-Coverflow-checks=off"] { args.push(a.into()); }
    let r = rustc_public::run_with_tcx!(&args, |tcx| run(tcx));
    match r {
        Ok(()) => std::process::exit(0),
        Err(rustc_public::CompilerError::Skipped) => std::process::exit(0),
        _ => std::process::exit(1),
    }
}
