//! Extractor: a rustc driver that type-checks the library crate and writes its
//! type-resolved MIR (local bodies, closures, and the monomorphised bodies of
//! a few small std combinators) as JSON.  It analyses nothing and runs nothing.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem, ItemKind};
use rustc_public_bridge::IndexedVal;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn join(v: impl IntoIterator<Item = String>) -> String {
    v.into_iter().collect::<Vec<_>>().join(",")
}

#[derive(Default)]
struct Cx {
    tys: HashMap<Ty, usize>,
    ty_json: Vec<String>,
    fns: HashMap<Instance, usize>,
    queue: Vec<Instance>,
    poly: HashMap<String, usize>,
    nfn: usize,
    inline: Vec<String>,
    adts: HashMap<String, String>,
}

fn span_json(s: &Span) -> String {
    let l = s.get_lines();
    format!("[{},{}]", esc(&s.get_filename()), l.start_line)
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_json.len();
        self.tys.insert(t, i);
        self.ty_json.push(String::new());
        let j = self.ty_inner(t);
        self.ty_json[i] = j;
        i
    }
    fn gargs(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in a.0.iter() {
            match g {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => {
                    v.push(format!("{{\"const\":{}}}", c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())))
                }
                _ => {}
            }
        }
        format!("[{}]", v.join(","))
    }
    fn ty_inner(&mut self, t: Ty) -> String {
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "{\"k\":\"bool\"}".into(),
                RigidTy::Char => "{\"k\":\"char\"}".into(),
                RigidTy::Int(i) => format!("{{\"k\":\"int\",\"n\":\"{:?}\"}}", i),
                RigidTy::Uint(i) => format!("{{\"k\":\"uint\",\"n\":\"{:?}\"}}", i),
                RigidTy::Float(i) => format!("{{\"k\":\"float\",\"n\":\"{:?}\"}}", i),
                RigidTy::Str => "{\"k\":\"str\"}".into(),
                RigidTy::Never => "{\"k\":\"never\"}".into(),
                RigidTy::Adt(d, a) => {
                    let name = d.name();
                    if !self.adts.contains_key(&name) {
                        self.adts.insert(name.clone(), String::new());
                        let mut vs = vec![];
                        if d.kind() != AdtKind::Union {
                            for v in d.variants() {
                                let disc = if d.kind() == AdtKind::Enum {
                                    format!("\"{}\"", d.discriminant_for_variant(v.idx()).val)
                                } else {
                                    "\"0\"".into()
                                };
                                let fs = join(v.fields().iter().map(|f| esc(&f.name)));
                                vs.push(format!("{{\"name\":{},\"disc\":{},\"fields\":[{}]}}", esc(&v.name()), disc, fs));
                            }
                        }
                        self.adts.insert(name.clone(), format!("[{}]", vs.join(",")));
                    }
                    let ga = self.gargs(&a);
                    format!("{{\"k\":\"adt\",\"n\":{},\"a\":{}}}", esc(&name), ga)
                }
                RigidTy::Array(t, n) => {
                    let i = self.ty(t);
                    format!("{{\"k\":\"array\",\"t\":{},\"len\":{}}}", i, n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()))
                }
                RigidTy::Slice(t) => {
                    let i = self.ty(t);
                    format!("{{\"k\":\"slice\",\"t\":{}}}", i)
                }
                RigidTy::RawPtr(t, m) => {
                    let i = self.ty(t);
                    format!("{{\"k\":\"ptr\",\"t\":{},\"m\":{}}}", i, m == Mutability::Mut)
                }
                RigidTy::Ref(_, t, m) => {
                    let i = self.ty(t);
                    format!("{{\"k\":\"ref\",\"t\":{},\"m\":{}}}", i, m == Mutability::Mut)
                }
                RigidTy::FnDef(d, a) => {
                    let tg = self.fn_target(d, &a);
                    format!("{{\"k\":\"fndef\",\"n\":{},\"t\":{}}}", esc(&d.name()), tg)
                }
                RigidTy::Closure(d, a) => {
                    let fi = self.closure_fn(d, &a);
                    format!("{{\"k\":\"closure\",\"n\":{},\"fn\":{}}}", esc(&d.name()), fi.map(|x| x.to_string()).unwrap_or("null".into()))
                }
                RigidTy::Tuple(ts) => {
                    let v = join(ts.iter().map(|t| self.ty(*t).to_string()).collect::<Vec<_>>());
                    format!("{{\"k\":\"tuple\",\"a\":[{}]}}", v)
                }
                RigidTy::Dynamic(p, _) => format!("{{\"k\":\"dyn\",\"n\":{}}}", esc(&format!("{:?}", p).chars().take(200).collect::<String>())),
                RigidTy::FnPtr(_) => "{\"k\":\"fnptr\"}".into(),
                o => format!("{{\"k\":\"other\",\"n\":{}}}", esc(&format!("{:?}", o).chars().take(80).collect::<String>())),
            },
            TyKind::Param(p) => format!("{{\"k\":\"param\",\"n\":{}}}", esc(&p.name)),
            TyKind::Alias(..) => "{\"k\":\"alias\"}".into(),
            TyKind::Bound(..) => "{\"k\":\"bound\"}".into(),
        }
    }
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"d\"]".into(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::Downcast(v) => format!("[\"v\",{}]", v.to_index()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::OpaqueCast(_) => "[\"o\"]".into(),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }
    fn alloc_at(&mut self, a: &Allocation, off: usize, ty: Ty, depth: usize) -> String {
        // decode a constant of type `ty` at byte offset `off`
        let bytes = |n: usize| -> Option<Vec<u8>> {
            a.bytes.get(off..off + n)?.iter().copied().collect::<Option<Vec<u8>>>()
        };
        let unk = || "{\"c\":\"unk\"}".to_string();
        if depth > 6 {
            return unk();
        }
        match ty.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => match bytes(1) {
                    Some(b) => format!("{{\"c\":\"bool\",\"v\":{}}}", b[0] != 0),
                    None => unk(),
                },
                RigidTy::Char => match bytes(4) {
                    Some(b) => format!("{{\"c\":\"char\",\"v\":{}}}", u32::from_le_bytes([b[0], b[1], b[2], b[3]])),
                    None => unk(),
                },
                RigidTy::Int(i) => match bytes(i.num_bytes()) {
                    Some(b) => {
                        let mut v: i128 = if b[b.len() - 1] & 0x80 != 0 { -1 } else { 0 };
                        for x in b.iter().rev() {
                            v = (v << 8) | (*x as i128);
                        }
                        format!("{{\"c\":\"int\",\"v\":\"{}\"}}", v)
                    }
                    None => unk(),
                },
                RigidTy::Uint(i) => match bytes(i.num_bytes()) {
                    Some(b) => {
                        let mut v: u128 = 0;
                        for x in b.iter().rev() {
                            v = (v << 8) | (*x as u128);
                        }
                        format!("{{\"c\":\"int\",\"v\":\"{}\"}}", v)
                    }
                    None => unk(),
                },
                RigidTy::Float(FloatTy::F64) => match bytes(8) {
                    Some(b) => format!("{{\"c\":\"f64\",\"v\":\"{}\"}}", u64::from_le_bytes(b.try_into().unwrap())),
                    None => unk(),
                },
                RigidTy::Float(FloatTy::F32) => match bytes(4) {
                    Some(b) => format!("{{\"c\":\"f64\",\"v\":\"{}\"}}", (f32::from_le_bytes(b.try_into().unwrap()) as f64).to_bits()),
                    None => unk(),
                },
                RigidTy::Tuple(ts) if ts.is_empty() => "{\"c\":\"unit\"}".into(),
                RigidTy::Closure(..) | RigidTy::FnDef(..) => {
                    let ti = self.ty(ty);
                    format!("{{\"c\":\"zty\",\"ty\":{}}}", ti)
                }
                RigidTy::Ref(_, inner, _) if matches!(inner.kind(), TyKind::RigidTy(RigidTy::Closure(..) | RigidTy::FnDef(..))) => {
                    let ti = self.ty(inner);
                    format!("{{\"c\":\"ref\",\"v\":{{\"c\":\"zty\",\"ty\":{}}}}}", ti)
                }
                RigidTy::Ref(_, inner, _) => {
                    let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off);
                    let Some((_, p)) = prov else { return unk() };
                    let base = match bytes(8) {
                        Some(b) => u64::from_le_bytes(b.try_into().unwrap()) as usize,
                        None => return unk(),
                    };
                    let ga = mir::alloc::GlobalAlloc::from(p.0);
                    let mem = match ga {
                        mir::alloc::GlobalAlloc::Memory(m) => m,
                        _ => return unk(),
                    };
                    match inner.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let len = match a.bytes.get(off + 8..off + 16).and_then(|s| s.iter().copied().collect::<Option<Vec<u8>>>()) {
                                Some(b) => u64::from_le_bytes(b.try_into().unwrap()) as usize,
                                None => return unk(),
                            };
                            let s: Option<Vec<u8>> = mem.bytes.get(base..base + len).and_then(|s| s.iter().copied().collect());
                            match s {
                                Some(s) => format!("{{\"c\":\"str\",\"v\":{}}}", esc(&String::from_utf8_lossy(&s))),
                                None => unk(),
                            }
                        }
                        _ => {
                            let inner_j = self.alloc_at(&mem, base, inner, depth + 1);
                            format!("{{\"c\":\"ref\",\"v\":{}}}", inner_j)
                        }
                    }
                }
                RigidTy::Array(t, n) => {
                    let n = n.eval_target_usize().unwrap_or(0) as usize;
                    if let TyKind::RigidTy(RigidTy::Uint(UintTy::U8)) = t.kind() {
                        return match bytes(n) {
                            Some(b) => format!("{{\"c\":\"bytes\",\"v\":[{}]}}", join(b.iter().map(|x| x.to_string()))),
                            None => unk(),
                        };
                    }
                    let size = t.layout().ok().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    if n > 64 || (size == 0) {
                        return unk();
                    }
                    let v: Vec<String> = (0..n).map(|i| self.alloc_at(a, off + i * size, t, depth + 1)).collect();
                    format!("{{\"c\":\"array\",\"v\":[{}]}}", v.join(","))
                }
                RigidTy::Adt(d, ga) if d.kind() == AdtKind::Struct => {
                    let Ok(l) = ty.layout() else { return unk() };
                    let sh = l.shape();
                    let rustc_public::abi::FieldsShape::Arbitrary { offsets } = &sh.fields else { return unk() };
                    let vs = d.variants();
                    let mut out = vec![];
                    for (i, f) in vs[0].fields().iter().enumerate() {
                        let ft = f.ty_with_args(&ga);
                        let o = offsets[i].bytes();
                        out.push(self.alloc_at(a, off + o, ft, depth + 1));
                    }
                    let ti = self.ty(ty);
                    format!("{{\"c\":\"adt\",\"ty\":{},\"var\":0,\"v\":[{}]}}", ti, out.join(","))
                }
                RigidTy::Adt(d, _) if d.kind() == AdtKind::Enum => {
                    // fieldless enums with a direct tag
                    let Ok(l) = ty.layout() else { return unk() };
                    let sz = l.shape().size.bytes();
                    if d.variants().iter().all(|v| v.fields().is_empty()) && sz >= 1 && sz <= 8 {
                        let Some(b) = bytes(sz) else { return unk() };
                        let mut v: i128 = if b[b.len() - 1] & 0x80 != 0 { -1 } else { 0 };
                        for x in b.iter().rev() {
                            v = (v << 8) | (*x as i128);
                        }
                        let mask: u128 = if sz == 16 { u128::MAX } else { (1u128 << (8 * sz)) - 1 };
                        for va in d.variants() {
                            let dv = d.discriminant_for_variant(va.idx()).val;
                            if (dv & mask) == ((v as u128) & mask) {
                                let ti = self.ty(ty);
                                return format!("{{\"c\":\"adt\",\"ty\":{},\"var\":{},\"v\":[]}}", ti, va.idx().to_index());
                            }
                        }
                    }
                    self.enum_at(a, off, ty, depth).unwrap_or_else(unk)
                }
                _ => unk(),
            },
            _ => unk(),
        }
    }
    /// a constant of an enum type whose variants carry data (tagged or niche layout)
    fn enum_at(&mut self, a: &Allocation, off: usize, ty: Ty, depth: usize) -> Option<String> {
        use rustc_public::abi::{FieldsShape, IntegerLength, Primitive, Scalar, TagEncoding, VariantsShape};
        let TyKind::RigidTy(RigidTy::Adt(d, ga)) = ty.kind() else { return None };
        let sh = ty.layout().ok()?.shape();
        let (var, offs) = match &sh.variants {
            VariantsShape::Single { index } => {
                let FieldsShape::Arbitrary { offsets } = &sh.fields else { return None };
                (index.to_index(), offsets.clone())
            }
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let FieldsShape::Arbitrary { offsets } = &sh.fields else { return None };
                let prim = match tag {
                    Scalar::Initialized { value, .. } => value,
                    Scalar::Union { value } => value,
                };
                let (size, ptr) = match prim {
                    Primitive::Int { length, .. } => (
                        match length {
                            IntegerLength::I8 => 1,
                            IntegerLength::I16 => 2,
                            IntegerLength::I32 => 4,
                            IntegerLength::I64 => 8,
                            IntegerLength::I128 => 16,
                        },
                        false,
                    ),
                    Primitive::Pointer(_) => (8, true),
                    _ => return None,
                };
                let o = off + offsets[*tag_field].bytes();
                let b: Vec<u8> = a.bytes.get(o..o + size)?.iter().copied().collect::<Option<Vec<u8>>>()?;
                let mut v: u128 = 0;
                for x in b.iter().rev() {
                    v = (v << 8) | (*x as u128);
                }
                let mask: u128 = if size == 16 { u128::MAX } else { (1u128 << (8 * size)) - 1 };
                let idx = match tag_encoding {
                    TagEncoding::Direct => d
                        .variants()
                        .iter()
                        .find(|va| (d.discriminant_for_variant(va.idx()).val & mask) == v)
                        .map(|va| va.idx().to_index())?,
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        if ptr && a.provenance.ptrs.iter().any(|(p, _)| *p == o) {
                            untagged_variant.to_index()
                        } else {
                            let rel = v.wrapping_sub(*niche_start) & mask;
                            let lo = niche_variants.start().to_index() as u128;
                            let hi = niche_variants.end().to_index() as u128;
                            if rel <= hi - lo {
                                (lo + rel) as usize
                            } else {
                                untagged_variant.to_index()
                            }
                        }
                    }
                };
                (idx, variants[idx].offsets.clone())
            }
            _ => return None,
        };
        let vd = d.variants().into_iter().nth(var)?;
        let mut out = vec![];
        for (i, f) in vd.fields().iter().enumerate() {
            let ft = f.ty_with_args(&ga);
            out.push(self.alloc_at(a, off + offs[i].bytes(), ft, depth + 1));
        }
        let ti = self.ty(ty);
        Some(format!("{{\"c\":\"adt\",\"ty\":{},\"var\":{},\"v\":[{}]}}", ti, var, out.join(",")))
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        let v = match c.kind() {
            ConstantKind::ZeroSized => "{\"c\":\"zst\"}".to_string(),
            ConstantKind::Allocated(a) => self.alloc_at(a, 0, c.ty(), 0),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(v) => format!("{{\"c\":\"int\",\"v\":\"{}\"}}", v),
                Err(_) => "{\"c\":\"zst\"}".to_string(),
            },
            _ => "{\"c\":\"unk\"}".to_string(),
        };
        format!("{{\"ty\":{},\"v\":{}}}", t, v)
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",\"{:?}\"]", r),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(bk, BorrowKind::Mut { .. })),
            Rvalue::Reborrow(_, m, p) => format!("[\"reborrow\",{},{}]", self.place(p), *m == Mutability::Mut),
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let o = join(ops.iter().map(|o| self.operand(o)).collect::<Vec<_>>());
                let ks = match k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        let ti = self.ty(t);
                        format!("[\"adt\",{},{},{},{}]", esc(&d.name()), v.to_index(), ti, f.map(|x| x.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, a) => {
                        let fi = match Instance::resolve_closure(*d, a, ClosureKind::FnOnce) {
                            Ok(_) => {
                                // body instance of the closure itself (by its natural kind)
                                self.closure_fn(*d, a)
                            }
                            Err(_) => None,
                        };
                        format!("[\"closure\",{},{}]", esc(&d.name()), fi.map(|x| x.to_string()).unwrap_or("null".into()))
                    }
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", ks, o)
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.operand(x), self.operand(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"chk\",\"{:?}\",{},{}]", b, self.operand(x), self.operand(y)),
            Rvalue::UnaryOp(u, x) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(x)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                format!("[\"cast\",{},{},{}]", esc(&ks), self.operand(o), self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o), n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())),
            _ => "[\"other\"]".into(),
        }
    }
    fn closure_fn(&mut self, d: ClosureDef, a: &GenericArgs) -> Option<usize> {
        // try each kind; the one that yields a body of the closure's own definition wins
        for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
            if let Ok(i) = Instance::resolve_closure(d, a, k) {
                if i.kind == InstanceKind::Item && i.has_body() {
                    return Some(self.want(i));
                }
            }
        }
        None
    }
    fn want(&mut self, i: Instance) -> usize {
        if let Some(x) = self.fns.get(&i) {
            return *x;
        }
        let n = self.nfn;
        self.nfn += 1;
        self.fns.insert(i, n);
        self.queue.push(i);
        n
    }
    fn inlinable(&self, name: &str) -> bool {
        self.inline.iter().any(|p| name.starts_with(p.as_str()))
    }
    fn call_target(&mut self, func: &Operand) -> String {
        let t = match func {
            Operand::Constant(c) => c.const_.ty(),
            o => return format!("{{\"dynop\":{}}}", self.operand(o)),
        };
        let TyKind::RigidTy(RigidTy::FnDef(d, args)) = t.kind() else {
            return format!("{{\"dynop\":{}}}", self.operand(func));
        };
        self.fn_target(d, &args)
    }
    fn fn_target(&mut self, d: FnDef, args: &GenericArgs) -> String {
        let ga = self.gargs(args);
        let mut out = format!("{{\"def\":{},\"a\":{}", esc(&d.name()), ga);
        if let Ok(i) = Instance::resolve(d, args) {
            let k = match i.kind {
                InstanceKind::Item => "item",
                InstanceKind::Intrinsic => "intrinsic",
                InstanceKind::Virtual { .. } => "virtual",
                InstanceKind::Shim => "shim",
                _ => "other",
            };
            let dn = CrateItem::try_from(i).map(|c| c.name()).unwrap_or_else(|_| i.name());
            let _ = write!(out, ",\"kind\":\"{}\",\"inst\":{},\"idef\":{}", k, esc(&i.name()), esc(&dn));
            if i.kind == InstanceKind::Item && i.has_body() {
                let is_local = CrateItem::try_from(i).map(|c| c.krate().is_local).unwrap_or(false);
                if is_local || self.inlinable(&dn) || self.inlinable(&d.name()) {
                    let n = self.want(i);
                    let _ = write!(out, ",\"fn\":{}", n);
                }
            }
        }
        out.push('}');
        out
    }
    fn body(&mut self, b: &Body) -> String {
        let locals = join(b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect::<Vec<_>>());
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names.push(format!("[{},{}]", l, esc(&v.name)));
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let l = s.source_info.span.get_lines().start_line;
                        ss.push(format!("[\"a\",{},{},{}]", self.place(p), self.rvalue(r), l));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index()));
                    }
                    _ => {}
                }
            }
            let l = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br = join(targets.branches().map(|(v, t)| format!("[\"{}\",{}]", v, t)));
                    format!("[\"switch\",{},[{}],{}]", self.operand(discr), br, targets.otherwise())
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place), target),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ct = self.call_target(func);
                    let av = join(args.iter().map(|o| self.operand(o)).collect::<Vec<_>>());
                    let d = self.place(destination);
                    format!("[\"call\",{},[{}],{},{}]", ct, av, d, target.map(|x| x.to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = msg.description().map(|s| s.to_string()).unwrap_or_else(|_| format!("{:?}", msg).chars().take(40).collect());
                    format!("[\"assert\",{},{},{},{}]", self.operand(cond), expected, esc(&m), target)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("{{\"s\":[{}],\"t\":{},\"l\":{}}}", ss.join(","), t, l));
        }
        format!(
            "\"argc\":{},\"locals\":[{}],\"names\":[{}],\"spread\":{},\"blocks\":[\n{}]",
            b.arg_locals().len(),
            locals,
            names.join(","),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            blocks.join(",\n")
        )
    }
}

use rustc_public::mir;

fn analyze() -> ControlFlow<()> {
    let krate = rustc_public::local_crate();
    let out_path = match std::env::var("VP_OUT") {
        Ok(p) => p,
        Err(_) => return ControlFlow::Continue(()),
    };
    if krate.name != std::env::var("VP_CRATE").unwrap_or("ncas".into()) {
        return ControlFlow::Continue(());
    }
    let mut cx = Cx::default();
    cx.inline = std::env::var("VP_INLINE").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let mut hasher: Option<Ty> = None;
    for c in rustc_public::find_crates("std") {
        for a in c.adts() {
            if a.name().ends_with("DefaultHasher") {
                hasher = Some(a.ty());
            }
        }
    }
    let mut items = vec![];
    let mut roots: Vec<Instance> = vec![];
    let mut unsafe_n = 0;
    for it in rustc_public::all_local_items() {
        let kind = it.kind();
        let ks = match kind {
            ItemKind::Fn => "fn",
            ItemKind::Static => "static",
            ItemKind::Const => "const",
            ItemKind::Ctor(_) => "ctor",
        };
        let mut fnidx = "null".to_string();
        let generic = it.requires_monomorphization();
        if kind == ItemKind::Fn {
            if !generic {
                if let Ok(i) = Instance::try_from(it) {
                    fnidx = cx.want(i).to_string();
                    roots.push(i);
                }
            } else if let TyKind::RigidTy(RigidTy::FnDef(d, args)) = it.ty().kind() {
                if let Some(h) = hasher {
                    let na: Vec<GenericArgKind> = args
                        .0
                        .iter()
                        .map(|g| match g {
                            GenericArgKind::Type(_) => GenericArgKind::Type(h),
                            o => o.clone(),
                        })
                        .collect();
                    let isder = na.iter().filter(|g| matches!(g, GenericArgKind::Type(_))).count() == 1 && d.name().contains("Hash");
                    if isder {
                        if let Ok(i) = Instance::resolve(d, &GenericArgs(na)) {
                            fnidx = cx.want(i).to_string();
                        }
                    }
                }
            }
            if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = it.ty().kind() {
                if d.fn_sig().skip_binder().safety == Safety::Unsafe {
                    unsafe_n += 1;
                }
            }
        }
        let mutable = if kind == ItemKind::Static { "true" } else { "false" };
        let tyi = if kind == ItemKind::Static || kind == ItemKind::Const { cx.ty(it.ty()).to_string() } else { "null".into() };
        items.push(format!(
            "{{\"name\":{},\"kind\":\"{}\",\"generic\":{},\"fn\":{},\"span\":{},\"static\":{},\"ty\":{}}}",
            esc(&it.name()),
            ks,
            generic,
            fnidx,
            span_json(&it.span()),
            mutable,
            tyi
        ));
    }
    let mut fns: Vec<(usize, String)> = vec![];
    while let Some(i) = cx.queue.pop() {
        let n = cx.fns[&i];
        let ci = CrateItem::try_from(i).ok();
        let (dn, local, span) = match &ci {
            Some(c) => (c.name(), c.krate().is_local, span_json(&c.span())),
            None => (i.name(), false, "null".into()),
        };
        let body = match i.body() {
            Some(b) => cx.body(&b),
            None => "\"nobody\":true".into(),
        };
        let ga = cx.gargs(&i.args());
        fns.push((n, format!("{{\"id\":{},\"inst\":{},\"def\":{},\"a\":{},\"local\":{},\"span\":{},{}}}", n, esc(&i.name()), esc(&dn), ga, local, span, body)));
    }
    fns.sort();
    let impls: Vec<String> = rustc_public::all_trait_impls()
        .iter()
        .filter(|d| d.krate().is_local)
        .map(|d| {
            let ti = d.trait_impl();
            let tr = ti.value;
            let tname = tr.def_id.name();
            let a = cx.gargs(tr.args());
            format!("{{\"trait\":{},\"a\":{},\"span\":{}}}", esc(&tname), a, span_json(&d.span()))
        })
        .collect();
    let mut adts: Vec<_> = cx.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    adts.sort();
    let js = format!(
        "{{\"crate\":{},\"unsafe_fns\":{},\"items\":[\n{}],\n\"impls\":[\n{}],\n\"types\":[\n{}],\n\"adts\":{{\n{}}},\n\"fns\":[\n{}]}}\n",
        esc(&krate.name),
        unsafe_n,
        items.join(",\n"),
        impls.join(",\n"),
        cx.ty_json.join(",\n"),
        adts.join(",\n"),
        fns.into_iter().map(|x| x.1).collect::<Vec<_>>().join(",\n")
    );
    std::fs::write(&out_path, js).expect("write");
    let _ = (&cx.poly, roots.len());
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let r = rustc_public::run!(&args, analyze);
    match r {
        Ok(_) => {}
        Err(rustc_public::CompilerError::Skipped) => {}
        Err(_) => std::process::exit(1),
    }
}
