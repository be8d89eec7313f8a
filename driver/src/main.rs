//! rustc driver that writes the resolved program of the analysed crate as JSON: every type with its
//! layout, every function reachable from the crate's own functions as monomorphised MIR with
//! resolved callees, and every constant as a value. Nothing is executed.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, Primitive, Scalar, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{local_crate, CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx {
    tys: HashMap<Ty, usize>,
    ty_list: Vec<Ty>,
    insts: HashMap<Instance, usize>,
    inst_list: Vec<Instance>,
    queue: VecDeque<usize>,
    files: HashMap<String, usize>,
    file_list: Vec<String>,
    stop: Vec<String>,
    drops: HashMap<Ty, bool>,
}

/// Types whose Drop only releases memory (and drops what they hold)
const RELEASE: &[&str] = &[
    "std::vec::Vec", "alloc::vec::Vec", "std::boxed::Box", "alloc::boxed::Box", "std::rc::", "alloc::rc::", "std::sync::Arc",
    "alloc::sync::", "std::vec::IntoIter", "alloc::vec::IntoIter", "std::vec::Drain", "alloc::vec::Drain", "std::array::IntoIter",
    "core::array::", "std::collections::", "alloc::collections::", "std::io::", "std::string::", "alloc::string::", "bytes::", "bit_vec::",
    "std::alloc::", "alloc::raw_vec", "alloc::alloc", "std::ffi::", "std::iter::", "core::iter::",
];

fn wildcard(p: &str, s: &str) -> bool {
    // '*' matches any sequence
    let parts: Vec<&str> = p.split('*').collect();
    let mut pos = 0;
    for (i, part) in parts.iter().enumerate() {
        if i == 0 {
            if !s.starts_with(part) {
                return false;
            }
            pos = part.len();
        } else if i == parts.len() - 1 && !part.is_empty() {
            return s.len() >= pos + part.len() && s.ends_with(part);
        } else {
            match s[pos..].find(part) {
                Some(k) => pos += k + part.len(),
                None => return false,
            }
        }
    }
    parts.len() > 1 || pos == s.len()
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_list.len();
        self.tys.insert(t, i);
        self.ty_list.push(t);
        i
    }
    /// Whether dropping a value of this type can do more than release memory
    fn drop_matters(&mut self, t: Ty) -> bool {
        if let Some(b) = self.drops.get(&t) {
            return *b;
        }
        self.drops.insert(t, false);
        let parts: Vec<Ty>;
        let mut yes = false;
        match t.kind() {
            TyKind::RigidTy(RigidTy::Array(e, _)) | TyKind::RigidTy(RigidTy::Slice(e)) => parts = vec![e],
            TyKind::RigidTy(RigidTy::Tuple(es)) => parts = es,
            TyKind::RigidTy(RigidTy::Adt(..)) | TyKind::RigidTy(RigidTy::Closure(..)) => {
                let mut release = false;
                let mut held = vec![];
                if let TyKind::RigidTy(RigidTy::Adt(d, a)) = t.kind() {
                    let n = d.name();
                    let n = n.trim_start_matches("rtps_rs::");
                    let inner = n.contains("::raw_vec::");
                    release = !d.krate().is_local && (inner || RELEASE.iter().any(|p| n == *p || (p.ends_with("::") && n.starts_with(p)) || n.starts_with(&format!("{}::", p))));
                    // a guard defined inside one of those modules still counts
                    if n.contains("Guard") || n.contains("OnDrop") || n.contains("Hole") {
                        release = false;
                    }
                    for x in &a.0 {
                        if let GenericArgKind::Type(x) = x {
                            held.push(*x);
                        }
                    }
                }
                if release {
                    parts = held;
                } else {
                    let di = Instance::resolve_drop_in_place(t);
                    let mut ps = vec![];
                    if !di.is_empty_shim() {
                        if let Some(b) = di.body() {
                            for bl in &b.blocks {
                                match &bl.terminator.kind {
                                    TerminatorKind::Call { .. } => yes = true,
                                    TerminatorKind::Drop { place, .. } => {
                                        if let Ok(x) = place.ty(b.locals()) {
                                            ps.push(x);
                                        }
                                    }
                                    _ => {}
                                }
                            }
                        }
                    }
                    parts = ps;
                }
            }
            _ => parts = vec![],
        }
        for x in parts {
            if yes {
                break;
            }
            yes = self.drop_matters(x);
        }
        self.drops.insert(t, yes);
        yes
    }
    fn inst(&mut self, t: Instance) -> usize {
        if let Some(i) = self.insts.get(&t) {
            return *i;
        }
        let i = self.inst_list.len();
        self.insts.insert(t, i);
        self.inst_list.push(t);
        self.queue.push_back(i);
        i
    }
    fn span(&mut self, s: Span) -> String {
        let f = s.get_filename().to_string();
        let n = self.file_list.len();
        let i = *self.files.entry(f.clone()).or_insert(n);
        if i == n {
            self.file_list.push(f);
        }
        format!("[{},{}]", i, s.get_lines().start_line)
    }
    fn place(&mut self, p: &Place) -> String {
        let mut o = format!("[{}", p.local);
        for e in &p.projection {
            o.push(',');
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(*t);
                    let _ = write!(o, "[\"f\",{},{}]", i, t);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l);
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, "[\"c\",{},{},{}]", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"s\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(v) => {
                    let _ = write!(o, "[\"d\",{}]", v.to_index());
                }
                ProjectionElem::OpaqueCast(t) => {
                    let t = self.ty(*t);
                    let _ = write!(o, "[\"o\",{}]", t);
                }
            }
        }
        o.push(']');
        o
    }
    fn operand(&mut self, op: &Operand) -> String {
        match op {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => {
                let v = self.mirconst(&c.const_);
                format!("[\"k\",{}]", v)
            }
            Operand::RuntimeChecks(r) => format!("[\"rc\",\"{:?}\"]", r),
        }
    }
    fn mirconst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        let v = match c.kind() {
            ConstantKind::ZeroSized => self.zst(t),
            ConstantKind::Allocated(a) => self.value(t, a, 0, 0),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.value(*t, a, 0, 0),
                TyConstKind::ZSTValue(t) => self.zst(*t),
                _ => "[\"?\",\"tyconst\"]".to_string(),
            },
            ConstantKind::Unevaluated(u) => format!("[\"?\",{}]", q(&format!("unevaluated {}", u.def.name()))),
            ConstantKind::Param(p) => format!("[\"?\",{}]", q(&p.name)),
        };
        format!("{},{}", ti, v)
    }
    fn fndef(&mut self, d: FnDef, args: &GenericArgs) -> String {
        match Instance::resolve(d, args) {
            Ok(i) => {
                let id = self.inst(i);
                format!("[\"fn\",{}]", id)
            }
            Err(_) => format!("[\"fn?\",{}]", q(&d.name())),
        }
    }
    fn zst(&mut self, t: Ty) -> String {
        match t.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, args)) => self.fndef(d, &args),
            TyKind::RigidTy(RigidTy::Tuple(ts)) if ts.is_empty() => "[\"agg\",0,[]]".to_string(),
            TyKind::RigidTy(RigidTy::Adt(d, args)) => {
                let vs = d.variants();
                if vs.len() == 1 {
                    let f: Vec<String> = vs[0].fields().iter().map(|f| { let t = f.ty_with_args(&args); self.zst(t) }).collect();
                    format!("[\"agg\",0,[{}]]", f.join(","))
                } else {
                    "[\"zst\"]".to_string()
                }
            }
            _ => "[\"zst\"]".to_string(),
        }
    }
    fn uint_at(a: &Allocation, off: usize, n: usize) -> Option<u128> {
        if off + n > a.bytes.len() {
            return None;
        }
        let mut v: u128 = 0;
        for i in 0..n {
            v |= (a.bytes[off + i]? as u128) << (8 * i);
        }
        Some(v)
    }
    fn value(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> String {
        if depth > 40 {
            return "[\"?\",\"deep\"]".into();
        }
        let TyKind::RigidTy(k) = t.kind() else { return "[\"?\",\"nonrigid\"]".into() };
        let sized = |n: usize| -> String {
            match Cx::uint_at(a, off, n) {
                Some(v) => format!("[\"i\",\"{}\"]", v),
                None => "[\"undef\"]".into(),
            }
        };
        match k {
            RigidTy::Bool => sized(1),
            RigidTy::Char => sized(4),
            RigidTy::Int(i) => {
                let n = i.num_bytes();
                match Cx::uint_at(a, off, n) {
                    Some(v) => {
                        let sh = 128 - 8 * n as u32;
                        let s = ((v << sh) as i128) >> sh;
                        format!("[\"i\",\"{}\"]", s)
                    }
                    None => "[\"undef\"]".into(),
                }
            }
            RigidTy::Uint(i) => sized(i.num_bytes()),
            RigidTy::Float(_) => {
                let n = match t.layout() {
                    Ok(l) => l.shape().size.bytes(),
                    Err(_) => return "[\"?\",\"float\"]".into(),
                };
                match Cx::uint_at(a, off, n) {
                    Some(v) => format!("[\"f\",\"{}\",{}]", v, n),
                    None => "[\"undef\"]".into(),
                }
            }
            RigidTy::Tuple(ts) => {
                let Ok(l) = t.layout() else { return "[\"?\",\"layout\"]".into() };
                let FieldsShape::Arbitrary { offsets } = l.shape().fields else {
                    return if ts.is_empty() { "[\"agg\",0,[]]".into() } else { "[\"?\",\"tuple\"]".into() };
                };
                let f: Vec<String> =
                    ts.iter().zip(offsets).map(|(t, o)| self.value(*t, a, off + o.bytes(), depth + 1)).collect();
                format!("[\"agg\",0,[{}]]", f.join(","))
            }
            RigidTy::Array(et, _) => {
                let Ok(l) = t.layout() else { return "[\"?\",\"layout\"]".into() };
                let FieldsShape::Array { stride, count } = l.shape().fields else { return "[\"?\",\"arr\"]".into() };
                if count > 4096 {
                    return "[\"?\",\"big array\"]".into();
                }
                let f: Vec<String> =
                    (0..count as usize).map(|i| self.value(et, a, off + i * stride.bytes(), depth + 1)).collect();
                format!("[\"arr\",[{}]]", f.join(","))
            }
            RigidTy::Adt(d, args) => {
                if d.kind() == AdtKind::Union {
                    return "[\"?\",\"union\"]".into();
                }
                let Ok(l) = t.layout() else { return "[\"?\",\"layout\"]".into() };
                let sh = l.shape();
                let vs = d.variants();
                match sh.variants {
                    VariantsShape::Empty => "[\"?\",\"empty\"]".into(),
                    VariantsShape::Single { index } => {
                        let offs = match sh.fields {
                            FieldsShape::Arbitrary { offsets } => offsets,
                            _ => vec![],
                        };
                        let v = vs[index.to_index()];
                        let fs = v.fields();
                        if fs.len() != offs.len() && !fs.is_empty() {
                            return "[\"?\",\"fields\"]".into();
                        }
                        let f: Vec<String> = fs
                            .iter()
                            .zip(offs)
                            .map(|(f, o)| { let ft = f.ty_with_args(&args); self.value(ft, a, off + o.bytes(), depth + 1) })
                            .collect();
                        format!("[\"agg\",{},[{}]]", index.to_index(), f.join(","))
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let FieldsShape::Arbitrary { offsets } = sh.fields else { return "[\"?\",\"enum\"]".into() };
                        let toff = off + offsets[tag_field].bytes();
                        let prim = match tag {
                            Scalar::Initialized { value, .. } => value,
                            Scalar::Union { value } => value,
                        };
                        let (tn, is_ptr) = match prim {
                            Primitive::Int { length, .. } => (length.bits() / 8, false),
                            Primitive::Pointer(_) => (8, true),
                            _ => return "[\"?\",\"tag\"]".into(),
                        };
                        let has_prov = is_ptr && a.provenance.ptrs.iter().any(|(o, _)| *o == toff);
                        let tv = Cx::uint_at(a, toff, tn);
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(tv) = tv else { return "[\"undef\"]".into() };
                                let mask = if tn == 16 { u128::MAX } else { (1u128 << (8 * tn)) - 1 };
                                vs.iter().position(|v| {
                                    (d.discriminant_for_variant(v.idx()).val & mask) == tv
                                })
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if has_prov {
                                    Some(untagged_variant.to_index())
                                } else {
                                    let Some(tv) = tv else { return "[\"undef\"]".into() };
                                    let mask = (1u128 << (8 * tn)) - 1;
                                    let s = niche_variants.start().to_index() as u128;
                                    let e = niche_variants.end().to_index() as u128;
                                    let rel = tv.wrapping_sub(niche_start) & mask;
                                    if rel <= e - s { Some((s + rel) as usize) } else { Some(untagged_variant.to_index()) }
                                }
                            }
                        };
                        let Some(vi) = vi else { return "[\"?\",\"variant\"]".into() };
                        let f: Vec<String> = vs[vi]
                            .fields()
                            .iter()
                            .zip(variants[vi].offsets.iter())
                            .map(|(f, o)| { let ft = f.ty_with_args(&args); self.value(ft, a, off + o.bytes(), depth + 1) })
                            .collect();
                        format!("[\"agg\",{},[{}]]", vi, f.join(","))
                    }
                }
            }
            RigidTy::Ref(_, p, _) | RigidTy::RawPtr(p, _) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|x| x.1.clone());
                let addr = Cx::uint_at(a, off, 8).unwrap_or(0) as usize;
                let meta = Cx::uint_at(a, off + 8, 8);
                let Some(prov) = prov else {
                    return format!("[\"ptr\",\"{}\"]", addr);
                };
                match GlobalAlloc::from(prov.0) {
                    GlobalAlloc::Memory(m) => match p.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let n = meta.unwrap_or(0) as usize;
                            let b: Vec<u8> = m.bytes[addr..addr + n].iter().map(|b| b.unwrap_or(0)).collect();
                            format!("[\"str\",{}]", q(&String::from_utf8_lossy(&b)))
                        }
                        TyKind::RigidTy(RigidTy::Slice(et)) => {
                            let n = meta.unwrap_or(0) as usize;
                            let sz = et.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                            if n > 4096 {
                                return "[\"?\",\"big slice\"]".into();
                            }
                            let f: Vec<String> = (0..n).map(|i| self.value(et, &m, addr + i * sz, depth + 1)).collect();
                            format!("[\"ref\",[\"arr\",[{}]]]", f.join(","))
                        }
                        TyKind::RigidTy(RigidTy::Dynamic(..)) => "[\"dyn\"]".into(),
                        _ => {
                            let v = self.value(p, &m, addr, depth + 1);
                            format!("[\"ref\",{}]", v)
                        }
                    },
                    GlobalAlloc::Function(i) => {
                        let id = self.inst(i);
                        format!("[\"fn\",{}]", id)
                    }
                    GlobalAlloc::Static(s) => {
                        // a static that nothing can change is its value
                        let tn = p.to_string();
                        let shared = matches!(t.kind().rigid(), Some(RigidTy::Ref(_, _, Mutability::Not)));
                        let fixed = shared && !["Cell", "Atomic", "Mutex", "Lock", "Once", "dyn "].iter().any(|x| tn.contains(x));
                        match (fixed, s.eval_initializer()) {
                            (true, Ok(m)) => {
                                let v = self.value(p, &m, addr, depth + 1);
                                format!("[\"ref\",{}]", v)
                            }
                            _ => format!("[\"static\",{}]", q(&s.name())),
                        }
                    }
                    GlobalAlloc::VTable(..) => "[\"vtable\"]".into(),
                    GlobalAlloc::TypeId { .. } => "[\"typeid\"]".into(),
                }
            }
            RigidTy::FnPtr(_) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|x| x.1.clone());
                if let Some(p) = prov {
                    if let GlobalAlloc::Function(i) = GlobalAlloc::from(p.0) {
                        let id = self.inst(i);
                        return format!("[\"fn\",{}]", id);
                    }
                }
                "[\"?\",\"fnptr\"]".into()
            }
            RigidTy::FnDef(d, args) => self.fndef(d, &args),
            RigidTy::Closure(..) => "[\"zst\"]".into(),
            RigidTy::Pat(b, _) => self.value(b, a, off, depth + 1),
            _ => "[\"?\",\"kind\"]".into(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => {
                format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p))
            }
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|x| self.operand(x)).collect();
                let o = o.join(",");
                match k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        format!("[\"agg\",\"array\",{},0,[{}]]", t, o)
                    }
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,0,[{}]]", o),
                    AggregateKind::Adt(d, v, args, _, fi) => {
                        let t = d.ty_with_args(args);
                        let t = self.ty(t);
                        let fi = fi.map(|x| x.to_string()).unwrap_or("null".into());
                        format!("[\"agg\",\"adt\",{},{},[{}],{}]", t, v.to_index(), o, fi)
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(*d, args.clone());
                        let t = self.ty(t);
                        format!("[\"agg\",\"closure\",{},0,[{}]]", t, o)
                    }
                    AggregateKind::RawPtr(t, _) => {
                        let t = self.ty(*t);
                        format!("[\"agg\",\"rawptr\",{},0,[{}]]", t, o)
                    }
                    _ => "[\"?\",\"aggregate\"]".into(),
                }
            }
            Rvalue::BinaryOp(b, x, y) => {
                let (x, y) = (self.operand(x), self.operand(y));
                format!("[\"bin\",\"{:?}\",{},{}]", b, x, y)
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                let (x, y) = (self.operand(x), self.operand(y));
                format!("[\"cbin\",\"{:?}\",{},{}]", b, x, y)
            }
            Rvalue::Cast(k, x, t) => {
                let x = self.operand(x);
                let t = self.ty(*t);
                let ks = match k {
                    CastKind::PointerCoercion(c) => format!("{:?}", c),
                    k => format!("{:?}", k),
                };
                format!("[\"cast\",{},{},{}]", q(&ks), x, t)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(x, n) => {
                let x = self.operand(x);
                let n = n.eval_target_usize().map(|v| v.to_string()).unwrap_or("null".into());
                format!("[\"rep\",{},{}]", x, n)
            }
            Rvalue::UnaryOp(u, x) => {
                let x = self.operand(x);
                format!("[\"un\",\"{:?}\",{}]", u, x)
            }
            Rvalue::Use(x, ..) => format!("[\"use\",{}]", self.operand(x)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            other => format!("[\"?\",{}]", q(&format!("{:?}", other).chars().take(60).collect::<String>())),
        }
    }
    fn dump_inst(&mut self, id: usize) -> String {
        let inst = self.inst_list[id];
        let name = inst.name();
        let defname = inst.def.name_of();
        let kind = match inst.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let mut o = String::new();
        let args: Vec<String> = inst
            .args()
            .0
            .iter()
            .map(|a| match a {
                GenericArgKind::Type(t) => self.ty(*t).to_string(),
                GenericArgKind::Const(c) => match c.eval_target_usize() {
                    Ok(v) => format!("\"{}\"", v),
                    Err(_) => "null".into(),
                },
                GenericArgKind::Lifetime(_) => "null".into(),
            })
            .collect();
        let _ = write!(o, "{{\"id\":{},\"name\":{},\"def\":{},\"kind\":\"{}\",\"args\":[{}]", id, q(&name), q(&defname), kind, args.join(","));
        if let Some(i) = inst.intrinsic_name() {
            let _ = write!(o, ",\"intrinsic\":{}", q(&i));
        }
        if inst.is_empty_shim() {
            o.push_str(",\"empty\":true}");
            return o;
        }
        if name.starts_with("std::ptr::drop_glue::<") || name.starts_with("core::ptr::drop_glue::<") {
            let t = inst.args().0.iter().find_map(|a| if let GenericArgKind::Type(t) = a { Some(*t) } else { None });
            let m = t.map_or(true, |t| self.drop_matters(t));
            let _ = write!(o, ",\"drops\":{}", m);
            if !m {
                o.push_str(",\"stop\":true}");
                return o;
            }
        }
        let stopped = self.stop.iter().any(|p| wildcard(p, &name) || wildcard(p, &defname));
        if stopped {
            o.push_str(",\"stop\":true}");
            return o;
        }
        if inst.kind == InstanceKind::Intrinsic || !inst.has_body() || inst.is_foreign_item() {
            o.push_str(",\"nobody\":true}");
            return o;
        }
        let Some(body) = inst.body() else {
            o.push_str(",\"nobody\":true}");
            return o;
        };
        let sp = self.span(body.span);
        let locals: Vec<String> = body.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let spread = body.spread_arg().map(|x| x.to_string()).unwrap_or("null".into());
        let _ = write!(
            o,
            ",\"span\":{},\"argc\":{},\"spread\":{},\"locals\":[{}],\"blocks\":[",
            sp,
            body.arg_locals().len(),
            spread,
            locals.join(",")
        );
        for (bi, b) in body.blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for s in &b.statements {
                let js = match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        let r = self.rvalue(r);
                        format!("[\"=\",{},{}", p, r)
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"sd\",{},{}", self.place(place), variant_index.to_index())
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(op)) => {
                        format!("[\"assume\",{}", self.operand(op))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let (x, y, z) = (self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count));
                        format!("[\"cno\",{},{},{}", x, y, z)
                    }
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&js);
                let sp = self.span(s.source_info.span);
                let _ = write!(o, ",{}]", sp);
            }
            o.push_str("],\"t\":");
            let t = &b.terminator;
            let sp = self.span(t.source_info.span);
            match &t.kind {
                TerminatorKind::Goto { target } => {
                    let _ = write!(o, "[\"goto\",{}", target);
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr);
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[\"{}\",{}]", v, t)).collect();
                    let _ = write!(o, "[\"switch\",{},[{}],{}", d, br.join(","), targets.otherwise());
                }
                TerminatorKind::Return => o.push_str("[\"ret\""),
                TerminatorKind::Resume => o.push_str("[\"resume\""),
                TerminatorKind::Abort => o.push_str("[\"abort\""),
                TerminatorKind::Unreachable => o.push_str("[\"unreachable\""),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place);
                    let t = place.ty(body.locals()).ok();
                    let d = match t {
                        Some(t) => {
                            let ti = self.ty(t);
                            let di = Instance::resolve_drop_in_place(t);
                            if di.is_empty_shim() { format!("[{},null]", ti) } else {
                                let m = self.drop_matters(t);
                                let id = if m { self.inst(di).to_string() } else { "null".into() };
                                format!("[{},{}]", ti, id)
                            }
                        }
                        None => "null".into(),
                    };
                    let _ = write!(o, "[\"drop\",{},{},{}", p, target, d);
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a: Vec<String> = args.iter().map(|x| self.operand(x)).collect();
                    let d = self.place(destination);
                    let t = target.map(|t| t.to_string()).unwrap_or("null".into());
                    let _ = write!(o, "[\"call\",{},[{}],{},{}", f, a.join(","), d, t);
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "index out of bounds".to_string(),
                        AssertMessage::Overflow(b, ..) => format!("{:?} overflows", b),
                        AssertMessage::OverflowNeg(_) => "negation overflows".to_string(),
                        AssertMessage::DivisionByZero(_) => "division by zero".to_string(),
                        AssertMessage::RemainderByZero(_) => "remainder by zero".to_string(),
                        AssertMessage::MisalignedPointerDereference { .. } => "ub: misaligned".to_string(),
                        AssertMessage::NullPointerDereference => "ub: null".to_string(),
                        AssertMessage::NullReferenceConstructed => "ub: null ref".to_string(),
                        AssertMessage::InvalidEnumConstruction(_) => "ub: invalid enum".to_string(),
                        _ => "resumed".to_string(),
                    };
                    let _ = write!(o, "[\"assert\",{},{},{},{}", c, expected, q(&m), target);
                }
                TerminatorKind::InlineAsm { .. } => o.push_str("[\"asm\""),
            }
            let _ = write!(o, ",{}]}}", sp);
        }
        o.push_str("]}");
        o
    }
    /// An instance to call a closure type through the given trait
    fn closure_insts(&mut self, t: Ty) -> String {
        if let TyKind::RigidTy(RigidTy::Closure(d, args)) = t.kind() {
            // Asking for the least demanding kind gives the body itself, without an adapter
            let i = Instance::resolve_closure(d, &args, ClosureKind::Fn).ok();
            let mut o = String::new();
            if let Some(i) = i {
                let id = self.inst(i);
                let _ = write!(o, ",\"body\":{}", id);
            }
            return o;
        }
        String::new()
    }
    fn dump_ty(&mut self, id: usize) -> String {
        let t = self.ty_list[id];
        let mut o = format!("{{\"id\":{},\"s\":{}", id, q(&format!("{}", t)));
        let TyKind::RigidTy(k) = t.kind() else {
            o.push_str(",\"k\":\"nonrigid\"}");
            return o;
        };
        match k {
            RigidTy::Bool => o.push_str(",\"k\":\"bool\""),
            RigidTy::Char => o.push_str(",\"k\":\"char\""),
            RigidTy::Int(i) => {
                let _ = write!(o, ",\"k\":\"int\",\"bits\":{},\"signed\":true", i.num_bytes() * 8);
            }
            RigidTy::Uint(i) => {
                let _ = write!(o, ",\"k\":\"int\",\"bits\":{},\"signed\":false", i.num_bytes() * 8);
            }
            RigidTy::Float(f) => write!(o, ",\"k\":\"float\",\"bits\":{}", if matches!(f, FloatTy::F32) { 32 } else { 64 }).unwrap(),
            RigidTy::Adt(d, args) => {
                let ak = match d.kind() {
                    AdtKind::Enum => "enum",
                    AdtKind::Struct => "struct",
                    AdtKind::Union => "union",
                };
                let a: Vec<String> = args
                    .0
                    .iter()
                    .map(|a| match a {
                        GenericArgKind::Type(t) => self.ty(*t).to_string(),
                        GenericArgKind::Const(c) => c.eval_target_usize().map(|v| format!("\"{}\"", v)).unwrap_or("null".into()),
                        _ => "null".into(),
                    })
                    .collect();
                let is_union = d.kind() == AdtKind::Union;
                let _ = write!(o, ",\"k\":\"{}\",\"def\":{},\"crate\":{},\"args\":[{}],\"box\":{},\"variants\":[", ak, q(&d.name()), q(&d.krate().name), a.join(","), d.is_box());
                for (i, v) in d.variants().iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let disc = if is_union || ak == "struct" { "0".to_string() } else { d.discriminant_for_variant(v.idx()).val.to_string() };
                    let f: Vec<String> = v
                        .fields()
                        .iter()
                        .map(|f| {
                            let ft = f.ty_with_args(&args);
                            format!("[{},{}]", q(&f.name), self.ty(ft))
                        })
                        .collect();
                    let _ = write!(o, "{{\"name\":{},\"discr\":\"{}\",\"fields\":[{}]}}", q(&v.name()), disc, f.join(","));
                }
                o.push(']');
                if ak == "enum" {
                    if let Some(dt) = t.kind().discriminant_ty() {
                        let di = self.ty(dt);
                        let _ = write!(o, ",\"dty\":{}", di);
                    }
                }
            }
            RigidTy::Str => o.push_str(",\"k\":\"str\""),
            RigidTy::Array(e, n) => {
                let e = self.ty(e);
                let n = n.eval_target_usize().map(|v| v.to_string()).unwrap_or("null".into());
                let _ = write!(o, ",\"k\":\"array\",\"of\":{},\"n\":{}", e, n);
            }
            RigidTy::Slice(e) => {
                let e = self.ty(e);
                let _ = write!(o, ",\"k\":\"slice\",\"of\":{}", e);
            }
            RigidTy::RawPtr(p, _) => {
                let p = self.ty(p);
                let _ = write!(o, ",\"k\":\"ptr\",\"of\":{}", p);
            }
            RigidTy::Ref(_, p, m) => {
                let p = self.ty(p);
                let _ = write!(o, ",\"k\":\"ref\",\"of\":{},\"mut\":{}", p, m == Mutability::Mut);
            }
            RigidTy::FnDef(d, args) => {
                let r = self.fndef(d, &args);
                let _ = write!(o, ",\"k\":\"fndef\",\"fn\":{}", r);
            }
            RigidTy::FnPtr(_) => o.push_str(",\"k\":\"fnptr\""),
            RigidTy::Closure(..) => {
                o.push_str(",\"k\":\"closure\"");
                let c = self.closure_insts(t);
                o.push_str(&c);
            }
            RigidTy::Dynamic(..) => o.push_str(",\"k\":\"dyn\""),
            RigidTy::Never => o.push_str(",\"k\":\"never\""),
            RigidTy::Tuple(ts) => {
                let e: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                let _ = write!(o, ",\"k\":\"tuple\",\"of\":[{}]", e.join(","));
            }
            _ => o.push_str(",\"k\":\"other\""),
        }
        if let Ok(l) = t.layout() {
            let sh = l.shape();
            if sh.is_sized() {
                let _ = write!(o, ",\"size\":{}", sh.size.bytes());
            }
        }
        o.push('}');
        o
    }
}

trait NameOf {
    fn name_of(&self) -> String;
}
impl NameOf for rustc_public::mir::mono::InstanceDef {
    fn name_of(&self) -> String {
        self.name()
    }
}

fn ground(t: Ty) -> bool {
    let mut st = vec![t];
    let mut seen = HashSet::new();
    while let Some(t) = st.pop() {
        if !seen.insert(t) {
            continue;
        }
        match t.kind() {
            TyKind::Param(_) | TyKind::Bound(..) | TyKind::Alias(..) => return false,
            TyKind::RigidTy(k) => match k {
                RigidTy::Adt(_, a) | RigidTy::FnDef(_, a) | RigidTy::Closure(_, a) => {
                    for x in a.0 {
                        match x {
                            GenericArgKind::Type(t) => st.push(t),
                            GenericArgKind::Const(c) => {
                                if let TyConstKind::Param(_) = c.kind() {
                                    return false;
                                }
                            }
                            _ => {}
                        }
                    }
                }
                RigidTy::Array(e, n) => {
                    if let TyConstKind::Param(_) = n.kind() {
                        return false;
                    }
                    st.push(e)
                }
                RigidTy::Slice(e) | RigidTy::RawPtr(e, _) | RigidTy::Ref(_, e, _) => st.push(e),
                RigidTy::Tuple(ts) => st.extend(ts),
                _ => {}
            },
        }
    }
    true
}

/// Matches a generic type against a ground one
fn unify(g: Ty, t: Ty, sub: &mut HashMap<u32, Ty>) -> bool {
    match (g.kind(), t.kind()) {
        (TyKind::Param(p), _) => match sub.get(&p.index) {
            Some(x) => *x == t,
            None => {
                sub.insert(p.index, t);
                true
            }
        },
        (TyKind::RigidTy(RigidTy::Adt(d1, a1)), TyKind::RigidTy(RigidTy::Adt(d2, a2))) => {
            d1 == d2
                && a1.0.iter().zip(a2.0.iter()).all(|(x, y)| match (x, y) {
                    (GenericArgKind::Type(x), GenericArgKind::Type(y)) => unify(*x, *y, sub),
                    _ => true,
                })
        }
        (TyKind::RigidTy(RigidTy::Ref(_, x, _)), _) => unify(x, t, sub),
        _ => g == t,
    }
}

fn erased() -> Region {
    Region { kind: RegionKind::ReErased }
}

fn analyse() -> ControlFlow<()> {
    let Ok(out) = std::env::var("MIRDUMP_OUT") else { return ControlFlow::Continue(()) };
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let krate = local_crate();
    if krate.name != want {
        return ControlFlow::Continue(());
    }
    let stop: Vec<String> = std::env::var("MIRDUMP_STOP")
        .ok()
        .and_then(|f| std::fs::read_to_string(f).ok())
        .unwrap_or_default()
        .lines()
        .map(|l| l.trim().to_string())
        .filter(|l| !l.is_empty() && !l.starts_with('#'))
        .collect();
    let mut cx = Cx {
        tys: HashMap::new(),
        ty_list: vec![],
        insts: HashMap::new(),
        inst_list: vec![],
        queue: VecDeque::new(),
        files: HashMap::new(),
        file_list: vec![],
        stop,
        drops: HashMap::new(),
    };
    let mut roots: Vec<(usize, String)> = vec![];
    let mut notes: Vec<String> = vec![];
    let mut generic: Vec<FnDef> = vec![];
    let has_params = |f: FnDef| -> bool {
        let mut g = Some(f.generics_of());
        while let Some(x) = g {
            if x.params.iter().any(|p| !matches!(p.kind, GenericParamDefKind::Lifetime)) {
                return true;
            }
            g = x.parent.map(|p| FnDef(p.def_id()).generics_of());
        }
        false
    };
    for f in krate.fn_defs() {
        let it = rustc_public::CrateItem(f.def_id());
        if !it.has_body() {
            continue;
        }
        let _ = has_params;
        if it.requires_monomorphization() {
            generic.push(f);
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            let id = cx.inst(i);
            roots.push((id, f.name()));
        }
    }
    // Named constants
    let mut consts = String::from("[");
    let mut nconst = 0;
    for it in rustc_public::all_local_items() {
        if it.kind() != rustc_public::ItemKind::Const || it.requires_monomorphization() {
            continue;
        }
        let t = it.ty();
        if let Ok(i) = Instance::try_from(it) {
            match i.try_const_eval(t) {
                Ok(a) => {
                    let v = cx.value(t, &a, 0, 0);
                    let ti = cx.ty(t);
                    if nconst > 0 {
                        consts.push(',');
                    }
                    nconst += 1;
                    let sp = cx.span(it.span());
                    let _ = write!(consts, "{{\"name\":{},\"ty\":{},\"v\":{},\"span\":{}}}", q(&it.name()), ti, v, sp);
                }
                Err(_) => notes.push(format!("const not evaluated: {}", it.name())),
            }
        }
    }
    consts.push(']');
    // Trait implementations of the crate
    let mut impls = vec![];
    let mut serde_traits: HashMap<String, TraitDef> = HashMap::new();
    for im in krate.trait_impls() {
        let ti = im.trait_impl();
        let tr = ti.value;
        let st = tr.self_ty();
        impls.push((tr.def_id.name().trim_start_matches("rtps_rs::").to_string(), st));
        let n = tr.def_id.name().trim_start_matches("rtps_rs::").to_string();
        if n == "speedy::Readable" || n == "speedy::Writable" {
            serde_traits.insert(n, tr.def_id);
        }
    }
    // Local types
    let mut local_tys: Vec<Ty> = vec![];
    let mut seen_ty: HashSet<Ty> = HashSet::new();
    for a in krate.adts() {
        let t = a.ty();
        if ground(t) {
            cx.ty(t);
        }
    }
    let mut trait_fns: Vec<(String, FnDef)> = vec![];
    for (n, td) in serde_traits.iter() {
        for ai in td.associated_items() {
            if let rustc_public::ty::AssocKind::Fn { name, .. } = &ai.kind {
                let keep = ["read_from_buffer_with_ctx", "read_from_buffer_owned_with_ctx", "read_with_length_from_buffer_with_ctx", "minimum_bytes_needed", "write_to_vec_with_ctx"];
                if keep.contains(&name.as_str()) {
                    trait_fns.push((n.clone(), FnDef(ai.def_id.def_id())));
                }
            }
        }
    }
    // speedy::Endianness as a type: taken from SubmessageFlag::endianness_flag or any signature
    let mut fns_out = String::new();
    let mut ty_done = 0;
    let mut endian: Option<Ty> = None;
    let mut first = true;
    let mut pending_serde: Vec<Ty> = vec![];
    let mut next_of: Vec<(usize, usize)> = vec![];
    let mut seen_iter: HashSet<Ty> = HashSet::new();
    let mut iter_next: Option<FnDef> = None;
    for td in rustc_public::all_trait_decls() {
        let n = td.name();
        if n == "std::iter::Iterator" || n == "core::iter::Iterator" {
            for ai in td.associated_items() {
                if let rustc_public::ty::AssocKind::Fn { name, .. } = &ai.kind {
                    if name == "next" {
                        iter_next = Some(FnDef(ai.def_id.def_id()));
                    }
                }
            }
        }
    }
    let mut done_generic: HashSet<(usize, Vec<usize>)> = HashSet::new();
    loop {
        while let Some(i) = cx.queue.pop_front() {
            let s = cx.dump_inst(i);
            if !first {
                fns_out.push_str(",\n");
            }
            first = false;
            fns_out.push_str(&s);
        }
        // New types may bring closures, fields and generic roots
        let mut tmp = vec![];
        while ty_done < cx.ty_list.len() {
            let t = cx.ty_list[ty_done];
            tmp.push(t);
            let _ = cx.dump_ty(ty_done); // interns the types it mentions
            ty_done += 1;
        }
        for t in &tmp {
            if let TyKind::RigidTy(RigidTy::Adt(d, _)) = t.kind() {
                if d.name().ends_with("speedy::Endianness") {
                    endian = Some(*t);
                }
                if d.krate().is_local && ground(*t) && seen_ty.insert(*t) {
                    local_tys.push(*t);
                    pending_serde.push(*t);
                }
            }
        }
        if let Some(e) = endian {
            for t in std::mem::take(&mut pending_serde) {
                for (tn, f) in trait_fns.clone() {
                    let implemented = impls.iter().any(|(n, st)| *n == tn && unify(*st, t, &mut HashMap::new()));
                    if !implemented {
                        continue;
                    }
                    // Order of generic parameters: Self, 'a (Readable only), C
                    let args = if tn == "speedy::Readable" {
                        vec![GenericArgKind::Type(t), GenericArgKind::Lifetime(erased()), GenericArgKind::Type(e)]
                    } else {
                        vec![GenericArgKind::Type(t), GenericArgKind::Type(e)]
                    };
                    let own = f.generics_of().params.iter().filter(|p| matches!(p.kind, GenericParamDefKind::Type { .. })).count();
                    if own > 0 {
                        continue;
                    }
                    match Instance::resolve(f, &GenericArgs(args)) {
                        Ok(i) => {
                            let id = cx.inst(i);
                            roots.push((id, format!("<{} as {}>::{}", t, tn, f.name())));
                        }
                        Err(_) => notes.push(format!("unresolved {} for {}", f.name(), t)),
                    }
                }
            }
        }
        // Iterators of the library can be advanced
        for t in &tmp {
            let TyKind::RigidTy(RigidTy::Adt(d, _)) = t.kind() else { continue };
            let n = d.name();
            let std_iter = ["std::iter::", "core::iter::", "std::slice::Iter", "core::slice::Iter", "std::vec::IntoIter", "alloc::vec::IntoIter", "std::vec::Drain", "std::option::I", "core::option::I", "std::array::IntoIter", "bit_vec::I", "bit_set::I"];
            if !std_iter.iter().any(|p| n.starts_with(p)) || !ground(*t) || !seen_iter.insert(*t) {
                continue;
            }
            if let Some(f) = iter_next {
                if let Ok(x) = Instance::resolve(f, &GenericArgs(vec![GenericArgKind::Type(*t)])) {
                    let id = cx.inst(x);
                    next_of.push((cx.ty(*t), id));
                }
            }
        }
        // Generic functions of the crate, instantiated for the types that occur
        for (gi, f) in generic.iter().enumerate() {
            let sig = f.fn_sig().skip_binder();
            let mut n = 0;
            let mut lifetimes: Vec<u32> = vec![];
            let mut g = Some(f.generics_of());
            while let Some(x) = g {
                n += x.params.len() as u32;
                for p in &x.params {
                    if matches!(p.kind, GenericParamDefKind::Lifetime) {
                        lifetimes.push(p.index);
                    }
                }
                g = x.parent.map(|p| FnDef(p.def_id()).generics_of());
            }
            for t in local_tys.clone() {
                let mut cands = vec![];
                if let Some(x) = sig.inputs().first() {
                    cands.push(*x);
                }
                cands.push(sig.output());
                for c in cands {
                    let mut sub = HashMap::new();
                    if !unify(c, t, &mut sub) || sub.is_empty() {
                        continue;
                    }
                    // A bare parameter would match anything
                    let bare = match c.kind() {
                        TyKind::Param(_) => true,
                        TyKind::RigidTy(RigidTy::Ref(_, x, _)) => matches!(x.kind(), TyKind::Param(_)),
                        _ => false,
                    };
                    if bare {
                        continue;
                    }
                    let mut args = vec![];
                    let mut key = vec![];
                    let mut ok = true;
                    for i in 0..n {
                        if lifetimes.contains(&i) {
                            args.push(GenericArgKind::Lifetime(erased()));
                        } else if let Some(x) = sub.get(&i) {
                            args.push(GenericArgKind::Type(*x));
                            key.push(cx.ty(*x));
                        } else {
                            ok = false;
                        }
                    }
                    if !ok || !done_generic.insert((gi, key)) {
                        continue;
                    }
                    match Instance::resolve(*f, &GenericArgs(args)) {
                        Ok(i) => {
                            let id = cx.inst(i);
                            roots.push((id, f.name()));
                        }
                        Err(_) => notes.push(format!("unresolved {} for {}", f.name(), t)),
                    }
                }
            }
        }
        if cx.queue.is_empty() && ty_done == cx.ty_list.len() {
            break;
        }
    }
    let mut o = String::new();
    o.push_str("{\"types\":[");
    for i in 0..cx.ty_list.len() {
        if i > 0 {
            o.push_str(",\n");
        }
        let s = cx.dump_ty(i);
        o.push_str(&s);
    }
    o.push_str("],\n\"fns\":[");
    o.push_str(&fns_out);
    o.push_str("],\n\"roots\":[");
    let r: Vec<String> = roots.iter().map(|(i, n)| format!("[{},{}]", i, q(n))).collect();
    o.push_str(&r.join(","));
    o.push_str("],\n\"consts\":");
    o.push_str(&consts);
    let nx: Vec<String> = next_of.iter().map(|(t, f)| format!("[{},{}]", t, f)).collect();
    let _ = write!(o, ",\n\"next\":[{}]", nx.join(","));
    let im: Vec<String> = impls.iter().map(|(n, t)| format!("[{},{}]", q(n), q(&format!("{}", t)))).collect();
    let _ = write!(o, ",\n\"impls\":[{}]", im.join(","));
    let gn: Vec<String> = generic.iter().map(|f| q(&f.name())).collect();
    let _ = write!(o, ",\n\"generic\":[{}]", gn.join(","));
    let nt: Vec<String> = notes.iter().map(|f| q(f)).collect();
    let _ = write!(o, ",\n\"notes\":[{}]", nt.join(","));
    let fl: Vec<String> = cx.file_list.iter().map(|f| q(f)).collect();
    let _ = write!(o, ",\n\"files\":[{}]}}\n", fl.join(","));
    let tmp = format!("{}.tmp", out);
    std::fs::write(&tmp, o).expect("write dump");
    std::fs::rename(&tmp, &out).expect("rename dump");
    ControlFlow::Continue(())
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER passes the path of rustc as the first argument
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let r = run!(&args, analyse);
    match r {
        Ok(_) => std::process::exit(0),
        Err(rustc_public::CompilerError::Failed) => std::process::exit(1),
        Err(_) => std::process::exit(0),
    }
}
