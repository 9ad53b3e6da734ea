//! mirsrv: a rustc wrapper that, for the crate `verif_roots`, stops after analysis and serves
//! monomorphised MIR bodies, type layouts and evaluated constants over a unix socket
//! (one JSON object per line).  It only *reads* what the compiler produced; nothing is rewritten.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::net::UnixStream;

#[derive(Default)]
struct Tab {
    tys: Vec<Ty>,
    tyix: HashMap<Ty, usize>,
    insts: Vec<Instance>,
    instix: HashMap<Instance, usize>,
}
thread_local! { static T: RefCell<Tab> = RefCell::new(Tab::default()); }

fn ty_id(t: Ty) -> usize {
    T.with(|x| {
        let mut x = x.borrow_mut();
        if let Some(i) = x.tyix.get(&t) {
            return *i;
        }
        let i = x.tys.len();
        x.tys.push(t);
        x.tyix.insert(t, i);
        i
    })
}
fn inst_id(t: Instance) -> usize {
    T.with(|x| {
        let mut x = x.borrow_mut();
        if let Some(i) = x.instix.get(&t) {
            return *i;
        }
        let i = x.insts.len();
        x.insts.push(t);
        x.instix.insert(t, i);
        i
    })
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    let v: Vec<String> = i.into_iter().collect();
    format!("[{}]", v.join(","))
}

fn gargs(a: &GenericArgs) -> String {
    arr(a.0.iter().filter_map(|g| match g {
        GenericArgKind::Type(t) => Some(ty_id(*t).to_string()),
        GenericArgKind::Const(c) => Some(format!(
            "{{\"const\":{}}}",
            c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
        )),
        GenericArgKind::Lifetime(_) => None,
    }))
}

fn tyconst_len(c: &TyConst) -> String {
    c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
}

fn inst_json(i: Instance) -> String {
    let kind = match i.kind {
        InstanceKind::Item => "item",
        InstanceKind::Intrinsic => "intrinsic",
        InstanceKind::LlvmIntrinsic => "llvm",
        InstanceKind::Virtual { .. } => "virtual",
        InstanceKind::Shim => "shim",
    };
    let vidx = match i.kind {
        InstanceKind::Virtual { idx } => idx as i64,
        _ => -1,
    };
    let intr = i.intrinsic_name().map(|s| js(&s)).unwrap_or("null".into());
    format!(
        "{{\"id\":{},\"name\":{},\"def\":{},\"krate\":{},\"kind\":\"{}\",\"vidx\":{},\"intr\":{},\"empty\":{},\"has_body\":{},\"args\":{},\"ty\":{},\"sig\":{}}}",
        inst_id(i),
        js(&i.name()),
        js(&i.def.name()),
        js(&i.def.krate().name),
        kind,
        vidx,
        intr,
        i.is_empty_shim(),
        i.has_body(),
        gargs(&i.args()),
        ty_id(i.ty()),
        match i.fn_abi() {
            Ok(a) => format!(
                "[{},{}]",
                arr(a.args.iter().map(|x| ty_id(x.ty).to_string())),
                ty_id(a.ret.ty)
            ),
            Err(_) => "null".into(),
        }
    )
}

/// `Variant` (as opposed to `Variant {}`), which serialises differently
fn is_unit_variant(d: &AdtDef, i: usize) -> bool {
    rustc_middle::ty::tls::with(|tcx| {
        let a = rustc_public::rustc_internal::internal(tcx, *d);
        a.variants()
            .iter()
            .nth(i)
            .map(|v| matches!(v.ctor_kind(), Some(rustc_hir::def::CtorKind::Const)))
            .unwrap_or(false)
    })
}

fn ty_json(id: usize) -> String {
    let t = T.with(|x| x.borrow().tys[id]);
    let k = t.kind();
    let r = match k {
        TyKind::RigidTy(r) => r,
        other => return format!("{{\"k\":\"other\",\"s\":{}}}", js(&format!("{:?}", other))),
    };
    let s = js(&format!("{}", t));
    match r {
        RigidTy::Bool => "{\"k\":\"bool\"}".into(),
        RigidTy::Char => "{\"k\":\"char\"}".into(),
        RigidTy::Int(i) => format!("{{\"k\":\"int\",\"bits\":{},\"name\":{}}}", i.num_bytes() * 8, s),
        RigidTy::Uint(i) => {
            format!("{{\"k\":\"uint\",\"bits\":{},\"name\":{}}}", i.num_bytes() * 8, s)
        }
        RigidTy::Float(_) => "{\"k\":\"float\"}".into(),
        RigidTy::Str => "{\"k\":\"str\"}".into(),
        RigidTy::Never => "{\"k\":\"never\"}".into(),
        RigidTy::Array(e, n) => {
            format!("{{\"k\":\"array\",\"ty\":{},\"len\":{}}}", ty_id(e), tyconst_len(&n))
        }
        RigidTy::Slice(e) => format!("{{\"k\":\"slice\",\"ty\":{}}}", ty_id(e)),
        RigidTy::RawPtr(e, m) => format!(
            "{{\"k\":\"ptr\",\"ty\":{},\"mut\":{}}}",
            ty_id(e),
            m == Mutability::Mut
        ),
        RigidTy::Ref(_, e, m) => format!(
            "{{\"k\":\"ref\",\"ty\":{},\"mut\":{}}}",
            ty_id(e),
            m == Mutability::Mut
        ),
        RigidTy::Tuple(ts) => {
            format!("{{\"k\":\"tuple\",\"tys\":{}}}", arr(ts.iter().map(|t| ty_id(*t).to_string())))
        }
        RigidTy::FnDef(d, a) => {
            let inst = Instance::resolve(d, &a);
            format!(
                "{{\"k\":\"fndef\",\"def\":{},\"args\":{},\"inst\":{}}}",
                js(&d.name()),
                gargs(&a),
                inst.map(inst_json).unwrap_or("null".into())
            )
        }
        RigidTy::FnPtr(_) => "{\"k\":\"fnptr\"}".into(),
        RigidTy::Closure(d, a) => {
            let inst = Instance::resolve_closure(d, &a, ClosureKind::FnOnce);
            let instr = Instance::resolve_closure(d, &a, ClosureKind::FnMut);
            let upv = match a.0.last() {
                Some(GenericArgKind::Type(t)) => match t.kind() {
                    TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                        arr(ts.iter().map(|t| ty_id(*t).to_string()))
                    }
                    _ => "[]".into(),
                },
                _ => "[]".into(),
            };
            format!(
                "{{\"k\":\"closure\",\"name\":{},\"upvars\":{},\"once\":{},\"mutt\":{}}}",
                js(&d.name()),
                upv,
                inst.map(inst_json).unwrap_or("null".into()),
                instr.map(inst_json).unwrap_or("null".into())
            )
        }
        RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"name\":{}}}", s),
        RigidTy::Adt(d, a) => {
            let kind = match d.kind() {
                AdtKind::Struct => "struct",
                AdtKind::Enum => "enum",
                AdtKind::Union => "union",
            };
            let vs = arr(d.variants_iter().map(|v| {
                let discr = if d.kind() == AdtKind::Enum {
                    d.discriminant_for_variant(v.idx()).val.to_string()
                } else {
                    "0".into()
                };
                format!(
                    "{{\"name\":{},\"discr\":{},\"unit\":{},\"fields\":{}}}",
                    js(&v.name()),
                    discr,
                    is_unit_variant(&d, vix(v.idx())),
                    arr(v.fields().iter().map(|f| format!(
                        "[{},{}]",
                        js(&f.name),
                        ty_id(f.ty_with_args(&a))
                    )))
                )
            }));
            format!(
                "{{\"k\":\"adt\",\"kind\":\"{}\",\"def\":{},\"name\":{},\"krate\":{},\"box\":{},\"args\":{},\"variants\":{}}}",
                kind,
                js(&d.name()),
                s,
                js(&d.krate().name),
                d.is_box(),
                gargs(&a),
                vs
            )
        }
        other => format!("{{\"k\":\"other\",\"s\":{}}}", js(&format!("{:?}", other))),
    }
}

fn rd(alloc: &Allocation, off: usize, n: usize) -> Option<u128> {
    if off + n > alloc.bytes.len() {
        return None;
    }
    let mut v: u128 = 0;
    for i in (0..n).rev() {
        v = (v << 8) | (alloc.bytes[off + i]? as u128);
    }
    Some(v)
}
fn prov(alloc: &Allocation, off: usize) -> Option<GlobalAlloc> {
    for (o, p) in alloc.provenance.ptrs.iter() {
        if *o == off {
            return Some(GlobalAlloc::from(p.0));
        }
    }
    None
}

fn dec(ty: Ty, alloc: &Allocation, off: usize, depth: usize) -> String {
    if depth > 40 {
        return "{\"opaque\":\"depth\"}".into();
    }
    let k = match ty.kind() {
        TyKind::RigidTy(r) => r,
        _ => return "{\"opaque\":\"ty\"}".into(),
    };
    let num = |o: Option<u128>| match o {
        Some(v) => format!("{{\"i\":\"{}\"}}", v),
        None => "{\"opaque\":\"uninit\"}".into(),
    };
    match &k {
        RigidTy::Bool => match rd(alloc, off, 1) {
            Some(v) => format!("{{\"b\":{}}}", v != 0),
            None => "{\"opaque\":\"uninit\"}".into(),
        },
        RigidTy::Char => num(rd(alloc, off, 4)),
        RigidTy::Uint(u) => num(rd(alloc, off, u.num_bytes())),
        RigidTy::Int(u) => {
            let n = u.num_bytes();
            match rd(alloc, off, n) {
                Some(v) => {
                    let sh = 128 - 8 * n as u32;
                    let sv = ((v << sh) as i128) >> sh;
                    format!("{{\"i\":\"{}\"}}", sv)
                }
                None => "{\"opaque\":\"uninit\"}".into(),
            }
        }
        RigidTy::Float(_) => "{\"opaque\":\"float\"}".into(),
        RigidTy::FnDef(..) | RigidTy::Never => "{\"zst\":1}".into(),
        RigidTy::FnPtr(_) => match prov(alloc, off) {
            Some(GlobalAlloc::Function(i)) => format!("{{\"fn\":{}}}", inst_json(i)),
            _ => "{\"opaque\":\"fnptr\"}".into(),
        },
        RigidTy::RawPtr(p, _) | RigidTy::Ref(_, p, _) => {
            let inner_off = rd(alloc, off, 8).unwrap_or(0) as usize;
            match prov(alloc, off) {
                Some(GlobalAlloc::Memory(a)) => match p.kind() {
                    TyKind::RigidTy(RigidTy::Str) => {
                        let n = rd(alloc, off + 8, 8).unwrap_or(0) as usize;
                        let b: Vec<u8> =
                            (0..n).map(|i| a.bytes[inner_off + i].unwrap_or(0)).collect();
                        format!("{{\"ref\":{{\"str\":{}}}}}", js(&String::from_utf8_lossy(&b)))
                    }
                    TyKind::RigidTy(RigidTy::Slice(e)) => {
                        let n = rd(alloc, off + 8, 8).unwrap_or(0) as usize;
                        if matches!(e.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))) {
                            let b: Vec<String> = (0..n)
                                .map(|i| a.bytes[inner_off + i].unwrap_or(0).to_string())
                                .collect();
                            return format!("{{\"ref\":{{\"bytes\":[{}]}}}}", b.join(","));
                        }
                        let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                        let v = arr((0..n).map(|i| dec(e, &a, inner_off + i * sz, depth + 1)));
                        format!("{{\"ref\":{{\"arr\":{}}}}}", v)
                    }
                    TyKind::RigidTy(RigidTy::Dynamic(..)) => "{\"opaque\":\"dynref\"}".into(),
                    _ => format!("{{\"ref\":{}}}", dec(*p, &a, inner_off, depth + 1)),
                },
                Some(GlobalAlloc::Function(i)) => format!("{{\"fn\":{}}}", inst_json(i)),
                Some(GlobalAlloc::Static(s)) => {
                    let body = match s.eval_initializer() {
                        Ok(a) => dec(*p, &a, inner_off, depth + 1),
                        Err(_) => "{\"opaque\":\"static\"}".into(),
                    };
                    format!("{{\"ref\":{},\"static\":{}}}", body, js(&s.name()))
                }
                Some(_) => "{\"opaque\":\"vtable\"}".into(),
                None => {
                    let n = rd(alloc, off + 8, 8);
                    match p.kind() {
                        TyKind::RigidTy(RigidTy::Slice(_)) => "{\"ref\":{\"arr\":[]}}".into(),
                        TyKind::RigidTy(RigidTy::Str) => "{\"ref\":{\"str\":\"\"}}".into(),
                        _ => {
                            let _ = n;
                            format!("{{\"addr\":\"{}\"}}", inner_off)
                        }
                    }
                }
            }
        }
        RigidTy::Array(e, n) => {
            let n = n.eval_target_usize().unwrap_or(0) as usize;
            let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
            if matches!(e.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))) {
                let b: Vec<String> =
                    (0..n).map(|i| alloc.bytes[off + i].unwrap_or(0).to_string()).collect();
                return format!("{{\"bytes\":[{}]}}", b.join(","));
            }
            format!("{{\"arr\":{}}}", arr((0..n).map(|i| dec(*e, alloc, off + i * sz, depth + 1))))
        }
        RigidTy::Tuple(ts) => {
            let shape = match ty.layout() {
                Ok(l) => l.shape(),
                Err(_) => return "{\"opaque\":\"layout\"}".into(),
            };
            let offs = offsets(&shape.fields, ts.len());
            format!(
                "{{\"s\":{}}}",
                arr(ts.iter().enumerate().map(|(i, t)| dec(*t, alloc, off + offs[i], depth + 1)))
            )
        }
        RigidTy::Closure(_, a) => {
            let ts: Vec<Ty> = match a.0.last() {
                Some(GenericArgKind::Type(t)) => match t.kind() {
                    TyKind::RigidTy(RigidTy::Tuple(ts)) => ts,
                    _ => vec![],
                },
                _ => vec![],
            };
            let shape = match ty.layout() {
                Ok(l) => l.shape(),
                Err(_) => return "{\"opaque\":\"layout\"}".into(),
            };
            let offs = offsets(&shape.fields, ts.len());
            format!(
                "{{\"s\":{}}}",
                arr(ts.iter().enumerate().map(|(i, t)| dec(*t, alloc, off + offs[i], depth + 1)))
            )
        }
        RigidTy::Adt(d, a) => {
            let shape = match ty.layout() {
                Ok(l) => l.shape(),
                Err(_) => return "{\"opaque\":\"layout\"}".into(),
            };
            match d.kind() {
                AdtKind::Union => "{\"opaque\":\"union\"}".into(),
                AdtKind::Struct => {
                    let v = d.variants_iter().next().unwrap();
                    let fs = v.fields();
                    let offs = offsets(&shape.fields, fs.len());
                    format!(
                        "{{\"s\":{}}}",
                        arr(fs.iter().enumerate().map(|(i, f)| dec(
                            f.ty_with_args(a),
                            alloc,
                            off + offs[i],
                            depth + 1
                        )))
                    )
                }
                AdtKind::Enum => {
                    let (vi, vfields): (usize, FieldsShape) = match &shape.variants {
                        VariantsShape::Single { index } => {
                            (vix(*index), shape.fields.clone())
                        }
                        VariantsShape::Empty => return "{\"opaque\":\"empty\"}".into(),
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let fo = offsets(&shape.fields, *tag_field + 1)[*tag_field];
                            let prim = match tag {
                                rustc_public::abi::Scalar::Initialized { value, .. } => value,
                                rustc_public::abi::Scalar::Union { value } => value,
                            };
                            let sz =
                                prim.size(&rustc_public::target::MachineInfo::target()).bytes();
                            let hasprov = prov(alloc, off + fo).is_some();
                            let raw = rd(alloc, off + fo, sz);
                            let vi = match tag_encoding {
                                TagEncoding::Direct => {
                                    let raw = match raw {
                                        Some(r) => r,
                                        None => return "{\"opaque\":\"uninit\"}".into(),
                                    };
                                    let mask =
                                        if sz == 16 { u128::MAX } else { (1u128 << (8 * sz)) - 1 };
                                    let mut r = usize::MAX;
                                    for v in d.variants_iter() {
                                        if d.discriminant_for_variant(v.idx()).val & mask == raw {
                                            r = vix(v.idx());
                                        }
                                    }
                                    r
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let lo = vix(*niche_variants.start());
                                    let hi = vix(*niche_variants.end());
                                    if hasprov {
                                        vix(*untagged_variant)
                                    } else {
                                        let raw = match raw {
                                            Some(r) => r,
                                            None => return "{\"opaque\":\"uninit\"}".into(),
                                        };
                                        let mask = if sz == 16 {
                                            u128::MAX
                                        } else {
                                            (1u128 << (8 * sz)) - 1
                                        };
                                        let rel = raw.wrapping_sub(*niche_start) & mask;
                                        if rel <= (hi - lo) as u128 {
                                            lo + rel as usize
                                        } else {
                                            vix(*untagged_variant)
                                        }
                                    }
                                }
                            };
                            if vi == usize::MAX {
                                return "{\"opaque\":\"variant\"}".into();
                            }
                            (vi, FieldsShape::Arbitrary { offsets: variants[vi].offsets.clone() })
                        }
                    };
                    let v = d.variants_iter().nth(vi).unwrap();
                    let fs = v.fields();
                    let offs = offsets(&vfields, fs.len());
                    format!(
                        "{{\"v\":{},\"f\":{}}}",
                        vi,
                        arr(fs.iter().enumerate().map(|(i, f)| dec(
                            f.ty_with_args(a),
                            alloc,
                            off + offs[i],
                            depth + 1
                        )))
                    )
                }
            }
        }
        _ => "{\"opaque\":\"kind\"}".into(),
    }
}
fn vix(v: VariantIdx) -> usize {
    use rustc_public_bridge::IndexedVal;
    v.to_index()
}
fn offsets(f: &FieldsShape, n: usize) -> Vec<usize> {
    match f {
        FieldsShape::Arbitrary { offsets } => {
            let mut v: Vec<usize> = offsets.iter().map(|s| s.bytes()).collect();
            while v.len() < n {
                v.push(0);
            }
            v
        }
        _ => vec![0; n],
    }
}

fn const_json(c: &MirConst) -> String {
    let ty = c.ty();
    let v = match c.kind() {
        ConstantKind::Allocated(a) => dec(ty, a, 0, 0),
        ConstantKind::ZeroSized => "{\"zst\":1}".into(),
        ConstantKind::Ty(tc) => match tc.kind() {
            TyConstKind::Value(t, a) => dec(*t, a, 0, 0),
            TyConstKind::ZSTValue(_) => "{\"zst\":1}".into(),
            _ => "{\"opaque\":\"tyconst\"}".into(),
        },
        _ => "{\"opaque\":\"const\"}".into(),
    };
    format!("{{\"ty\":{},\"v\":{}}}", ty_id(ty), v)
}

fn place(p: &Place) -> String {
    let pr = arr(p.projection.iter().map(|e| match e {
        ProjectionElem::Deref => "[\"*\"]".to_string(),
        ProjectionElem::Field(i, t) => format!("[\".\",{},{}]", i, ty_id(*t)),
        ProjectionElem::Index(l) => format!("[\"[\",{}]", l),
        ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
            format!("[\"c\",{},{},{}]", offset, min_length, from_end)
        }
        ProjectionElem::Subslice { from, to, from_end } => {
            format!("[\"s\",{},{},{}]", from, to, from_end)
        }
        ProjectionElem::Downcast(v) => format!("[\"v\",{}]", vix(*v)),
        ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", ty_id(*t)),
    }));
    format!("[{},{}]", p.local, pr)
}
fn oper(o: &Operand) -> String {
    match o {
        Operand::Copy(p) => format!("[\"cp\",{}]", place(p)),
        Operand::Move(p) => format!("[\"mv\",{}]", place(p)),
        Operand::Constant(c) => format!("[\"k\",{}]", const_json(&c.const_)),
        Operand::RuntimeChecks(c) => format!("[\"rt\",{}]", js(&format!("{:?}", c))),
    }
}
fn rval(r: &Rvalue, locals: &[LocalDecl]) -> String {
    match r {
        Rvalue::Use(o, _) => format!("[\"use\",{}]", oper(o)),
        Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", place(p)),
        Rvalue::Reborrow(_, m, p) => {
            format!("[\"reborrow\",{},{}]", *m == Mutability::Mut, place(p))
        }
        Rvalue::Ref(_, k, p) => {
            format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), place(p))
        }
        Rvalue::AddressOf(k, p) => {
            format!("[\"ref\",{},{}]", k.to_mutable_lossy() == Mutability::Mut, place(p))
        }
        Rvalue::Aggregate(k, os) => {
            let kk = match k {
                AggregateKind::Array(t) => format!("[\"array\",{}]", ty_id(*t)),
                AggregateKind::Tuple => "[\"tuple\"]".into(),
                AggregateKind::Adt(d, v, a, _, f) => format!(
                    "[\"adt\",{},{},{}]",
                    ty_id(d.ty_with_args(a)),
                    vix(*v),
                    f.map(|x| x.to_string()).unwrap_or("null".into())
                ),
                AggregateKind::Closure(d, a) => {
                    format!("[\"closure\",{}]", ty_id(Ty::new_closure(*d, a.clone())))
                }
                AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", ty_id(*t)),
                _ => "[\"other\"]".into(),
            };
            format!("[\"agg\",{},{}]", kk, arr(os.iter().map(oper)))
        }
        Rvalue::BinaryOp(op, a, b) => format!(
            "[\"bin\",\"{:?}\",{},{},{}]",
            op,
            oper(a),
            oper(b),
            a.ty(locals).map(ty_id).unwrap_or(0)
        ),
        Rvalue::CheckedBinaryOp(op, a, b) => format!(
            "[\"cbin\",\"{:?}\",{},{},{}]",
            op,
            oper(a),
            oper(b),
            a.ty(locals).map(ty_id).unwrap_or(0)
        ),
        Rvalue::UnaryOp(op, a) => format!(
            "[\"un\",\"{:?}\",{},{}]",
            op,
            oper(a),
            a.ty(locals).map(ty_id).unwrap_or(0)
        ),
        Rvalue::Cast(k, o, t) => format!(
            "[\"cast\",{},{},{},{}]",
            js(&format!("{:?}", k)),
            oper(o),
            ty_id(*t),
            o.ty(locals).map(ty_id).unwrap_or(0)
        ),
        Rvalue::Discriminant(p) => format!(
            "[\"discr\",{},{}]",
            place(p),
            p.ty(locals).map(ty_id).unwrap_or(0)
        ),
        Rvalue::Len(p) => format!("[\"len\",{}]", place(p)),
        Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", oper(o), tyconst_len(n)),
        Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
    }
}
fn body_json(i: Instance) -> String {
    let b = match i.body() {
        Some(b) => b,
        None => return "null".into(),
    };
    let locals = b.locals().to_vec();
    let names = arr(b.var_debug_info.iter().filter_map(|v| {
        v.local().map(|l| format!("[{},{}]", js(&v.name), l))
    }));
    let blocks = arr(b.blocks.iter().map(|bb| {
        let st = arr(bb.statements.iter().filter_map(|s| match &s.kind {
            StatementKind::Assign(p, r) => {
                Some(format!("[\"=\",{},{}]", place(p), rval(r, &locals)))
            }
            StatementKind::SetDiscriminant { place: p, variant_index } => {
                Some(format!("[\"setd\",{},{}]", place(p), vix(*variant_index)))
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                Some(format!("[\"assume\",{}]", oper(o)))
            }
            StatementKind::Intrinsic(_) => Some("[\"copynonoverlapping\"]".into()),
            _ => None,
        }));
        let line = bb.terminator.source_info.span.get_lines().start_line;
        let t = match &bb.terminator.kind {
            TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
            TerminatorKind::SwitchInt { discr, targets } => format!(
                "[\"switch\",{},{},{},{}]",
                oper(discr),
                arr(targets.branches().map(|(v, t)| format!("[\"{}\",{}]", v, t))),
                targets.otherwise(),
                discr.ty(&locals).map(ty_id).unwrap_or(0)
            ),
            TerminatorKind::Return => "[\"return\"]".into(),
            TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
            TerminatorKind::Resume | TerminatorKind::Abort => "[\"abort\"]".into(),
            TerminatorKind::Drop { place: p, target, .. } => {
                format!("[\"drop\",{},{}]", place(p), target)
            }
            TerminatorKind::Call { func, args, destination, target, .. } => format!(
                "[\"call\",{},{},{},{}]",
                oper(func),
                arr(args.iter().map(oper)),
                place(destination),
                target.map(|t| t.to_string()).unwrap_or("null".into())
            ),
            TerminatorKind::Assert { cond, expected, msg, target, .. } => format!(
                "[\"assert\",{},{},{},{}]",
                oper(cond),
                expected,
                js(msg.description().unwrap_or("assert")),
                target
            ),
            TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
        };
        format!("[{},{},{}]", st, t, line)
    }));
    format!(
        "{{\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{},\"blocks\":{},\"file\":{},\"line\":{}}}",
        b.arg_locals().len(),
        b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
        arr(locals.iter().map(|l| ty_id(l.ty).to_string())),
        names,
        blocks,
        js(&b.span.get_filename()),
        b.span.get_lines().start_line
    )
}

fn serve(sock: &str) {
    let s = UnixStream::connect(sock).expect("connect VERIF_SOCK");
    let mut w = s.try_clone().unwrap();
    let mut r = BufReader::new(s);
    let mut line = String::new();
    loop {
        line.clear();
        if r.read_line(&mut line).unwrap_or(0) == 0 {
            break;
        }
        let f: Vec<&str> = line.trim_end().split('\t').collect();
        let out = match f[0] {
            "fns" => {
                // list every function definition of a crate
                let mut v = vec![];
                for k in rustc_public::find_crates(f[1]) {
                    for d in k.fn_defs() {
                        v.push(js(&d.name()));
                    }
                }
                arr(v)
            }
            "root" => {
                let mut res = "null".to_string();
                'o: for k in rustc_public::find_crates(f[1]) {
                    for d in k.fn_defs() {
                        if d.name() == f[2] {
                            if let Ok(i) = Instance::resolve(d, &GenericArgs(vec![])) {
                                res = inst_json(i);
                                break 'o;
                            }
                        }
                    }
                }
                res
            }
            "adts" => {
                // every monomorphic ADT of a crate: [name, ty]
                let mut v = vec![];
                for k in rustc_public::find_crates(f[1]) {
                    for d in k.adts() {
                        if d.generics_of().params.is_empty() {
                            let t = d.ty_with_args(&GenericArgs(vec![]));
                            v.push(format!("[{},{}]", js(&d.name()), ty_id(t)));
                        }
                    }
                }
                arr(v)
            }
            "method" => {
                // method <crate> <trait path> <method> <ty>...: resolve a trait method
                let mut res = "null".to_string();
                let args: Vec<GenericArgKind> = T.with(|x| {
                    let x = x.borrow();
                    f[4..].iter().map(|a| GenericArgKind::Type(x.tys[a.parse::<usize>().unwrap()])).collect()
                });
                'm: for k in rustc_public::find_crates(f[1]) {
                    for t in k.trait_decls() {
                        if t.name() != f[2] {
                            continue;
                        }
                        for a in t.associated_items() {
                            let n = a.def_id.def_id().name();
                            if n.rsplit("::").next() == Some(f[3]) {
                                if let Ok(i) = Instance::resolve(FnDef(a.def_id.def_id()), &GenericArgs(args.clone())) {
                                    res = inst_json(i);
                                    break 'm;
                                }
                            }
                        }
                    }
                }
                res
            }
            "traits" => {
                let mut v = vec![];
                for k in rustc_public::find_crates(f[1]) {
                    for t in k.trait_decls() {
                        v.push(js(&t.name()));
                    }
                }
                arr(v)
            }
            "inst" => {
                let i = T.with(|x| x.borrow().insts[f[1].parse::<usize>().unwrap()]);
                inst_json(i)
            }
            "body" => {
                let i = T.with(|x| x.borrow().insts[f[1].parse::<usize>().unwrap()]);
                body_json(i)
            }
            "ty" => ty_json(f[1].parse().unwrap()),
            "quit" => break,
            _ => "null".into(),
        };
        w.write_all(out.as_bytes()).unwrap();
        w.write_all(b"\n").unwrap();
    }
}

use std::ops::ControlFlow as _CF;

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    // invoked as RUSTC_WORKSPACE_WRAPPER: args[0] is the path of rustc
    let is_roots = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "verif_roots");
    let sock = std::env::var("VERIF_SOCK").unwrap_or_default();
    let out = std::env::var("VERIF_ARGS_OUT").unwrap_or_default();
    if !is_roots || (sock.is_empty() && out.is_empty()) {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    args[0] = "rustc".into();
    if !out.is_empty() {
        // called by cargo: only record how the roots crate is compiled; the non-zero exit keeps cargo from
        // considering the crate up to date
        std::fs::write(out, args.join("\n")).unwrap();
        std::process::exit(77);
    }
    let _ = rustc_public::run!(&args, || -> _CF<()> {
        serve(&sock);
        _CF::Break(())
    });
}
