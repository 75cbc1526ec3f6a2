//! Dumps the monomorphised MIR of the crate being compiled (and of the small std combinators it
//! calls) as JSON.  Run as RUSTC_WORKSPACE_WRAPPER.  MIRDUMP_OUT names the output file.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, DefId};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    format!("[{}]", it.into_iter().collect::<Vec<_>>().join(","))
}

#[derive(Default)]
struct Cx {
    types: Vec<Option<String>>,
    tyids: HashMap<Ty, usize>,
    fns: Vec<Option<String>>,
    fnids: HashMap<Instance, usize>,
    work: Vec<Instance>,
    local: String,
}

fn crate_of(d: DefId) -> String {
    // walk parents up to the crate root
    let n = d.name().to_string();
    n.split("::").next().unwrap_or("").to_string()
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tyids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(None);
        self.tyids.insert(t, id);
        let s = self.ty_json(t);
        self.types[id] = Some(s);
        id
    }

    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in a.0.iter() {
            match g {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => {
                    v.push(format!("{{\"const\":{}}}", c.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())))
                }
                GenericArgKind::Lifetime(_) => (),
            }
        }
        arr(v)
    }

    fn ty_json(&mut self, t: Ty) -> String {
        let k = t.kind();
        let disp = esc(&format!("{}", t));
        let r = match k {
            TyKind::RigidTy(r) => r,
            TyKind::Alias(..) => return format!("{{\"k\":\"alias\",\"n\":{disp}}}"),
            _ => return format!("{{\"k\":\"other\",\"n\":{disp}}}"),
        };
        match r {
            RigidTy::Bool => "{\"k\":\"bool\"}".into(),
            RigidTy::Char => "{\"k\":\"char\"}".into(),
            RigidTy::Int(i) => format!("{{\"k\":\"int\",\"w\":{},\"s\":1}}", i.num_bytes() * 8),
            RigidTy::Uint(i) => format!("{{\"k\":\"int\",\"w\":{},\"s\":0}}", i.num_bytes() * 8),
            RigidTy::Float(_) => "{\"k\":\"float\"}".into(),
            RigidTy::Str => "{\"k\":\"str\"}".into(),
            RigidTy::Never => "{\"k\":\"never\"}".into(),
            RigidTy::Array(e, n) => {
                let e = self.ty(e);
                format!(
                    "{{\"k\":\"array\",\"e\":{e},\"len\":{}}}",
                    n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
                )
            }
            RigidTy::Slice(e) => {
                let e = self.ty(e);
                format!("{{\"k\":\"slice\",\"e\":{e}}}")
            }
            RigidTy::RawPtr(e, m) => {
                let e = self.ty(e);
                format!("{{\"k\":\"ptr\",\"e\":{e},\"mut\":{}}}", (m == Mutability::Mut) as u8)
            }
            RigidTy::Ref(_, e, m) => {
                let e = self.ty(e);
                format!("{{\"k\":\"ref\",\"e\":{e},\"mut\":{}}}", (m == Mutability::Mut) as u8)
            }
            RigidTy::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"f\":{}}}", arr(v))
            }
            RigidTy::FnDef(d, a) => {
                let f = match Instance::resolve(d, &a) {
                    Ok(i) => self.inst(i).to_string(),
                    Err(_) => "null".into(),
                };
                format!("{{\"k\":\"fndef\",\"n\":{disp},\"fn\":{f}}}")
            }
            RigidTy::FnPtr(_) => format!("{{\"k\":\"fnptr\",\"n\":{disp}}}"),
            RigidTy::Closure(d, a) => {
                // upvar types: last generic arg is the tuple of upvars
                let ups = match a.0.last() {
                    Some(GenericArgKind::Type(t)) => match t.kind() {
                        TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                            ts.iter().map(|t| self.ty(*t).to_string()).collect()
                        }
                        _ => vec![],
                    },
                    _ => vec![],
                };
                let mut fns = vec![];
                for kind in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                    if let Ok(i) = Instance::resolve_closure(d, &a, kind) {
                        fns.push(self.inst(i).to_string());
                        break;
                    }
                }
                format!(
                    "{{\"k\":\"closure\",\"n\":{disp},\"name\":{},\"f\":{},\"fn\":{}}}",
                    esc(&d.name()),
                    arr(ups),
                    fns.first().cloned().unwrap_or("null".into())
                )
            }
            RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"n\":{disp}}}"),
            RigidTy::Adt(d, a) => {
                let name = d.name().to_string();
                let args = self.args(&a);
                let cr = crate_of(d.def_id());
                let expand = cr == self.local
                    || (d.kind().is_enum() && d.variants().iter().all(|v| v.fields().is_empty()))
                    || name == "ureq::Error"
                    || name == "serde_json::Value"
                    || name == "cfgrammar::Span"
                    || (matches!(cr.as_str(), "core" | "alloc" | "std")
                        && (d.kind().is_enum()
                            || name.starts_with("std::ops::")
                            || name.starts_with("core::ops::")));
                let mut vs = vec![];
                if expand {
                    for v in d.variants() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = self.ty(f.ty_with_args(&a));
                            fs.push(format!("{{\"n\":{},\"t\":{ft}}}", esc(&f.name)));
                        }
                        let disc = if d.kind().is_enum() {
                            d.discriminant_for_variant(v.idx()).val.to_string()
                        } else {
                            "0".into()
                        };
                        vs.push(format!(
                            "{{\"n\":{},\"d\":{},\"f\":{}}}",
                            esc(&v.name()),
                            disc,
                            arr(fs)
                        ));
                    }
                }
                format!(
                    "{{\"k\":\"adt\",\"name\":{},\"n\":{disp},\"args\":{args},\"enum\":{},\"exp\":{},\"box\":{},\"v\":{}}}",
                    esc(&name),
                    d.kind().is_enum() as u8,
                    expand as u8,
                    d.is_box() as u8,
                    arr(vs)
                )
            }
            _ => format!("{{\"k\":\"other\",\"n\":{disp}}}"),
        }
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.fnids.get(&i) {
            return *x;
        }
        let id = self.fns.len();
        self.fns.push(None);
        self.fnids.insert(i, id);
        self.work.push(i);
        id
    }

    fn want_body(&self, name: &str, full: &str, i: &Instance) -> bool {
        if !i.has_body() {
            return false;
        }
        let cr = name.trim_start_matches('<').split("::").next().unwrap_or("").to_string();
        let _ = full;
        let def_cr = crate_of(i.def.def_id());
        if def_cr == self.local || cr == self.local || full.contains(&format!("{}::", self.local)) && i.kind == InstanceKind::Shim {
            return true;
        }
        let pre = [
            "std::option::", "core::option::", "std::result::", "core::result::",
            "<std::option::", "<std::result::", "<core::option::", "<core::result::",
            "std::ops::ControlFlow", "<std::ops::ControlFlow", "std::ops::control_flow", "std::mem::", "core::mem::",
            "std::cmp::", "core::cmp::", "std::convert::", "<T as std::convert", "<std::cmp::",
            "std::bool::", "core::bool::", "bool::", "std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn", "std::ops::function",
            "<&T as std::cmp", "<&A as std::cmp", "<&mut A as std::cmp", "std::tuple::", "core::tuple::", "<T as std::clone", "<U as std::convert", "<&mut F as", "<&F as",
            "<(", "<[T; N] as", "<T as std::borrow",
        ];
        pre.iter().any(|p| name.starts_with(p)) || i.kind == InstanceKind::Shim
    }

    fn fn_json(&mut self, i: Instance) -> String {
        let full = i.name().to_string();
        let name = i.def.name().to_string();
        let kind = match i.kind {
            InstanceKind::Item => "item".to_string(),
            InstanceKind::Intrinsic => "intrinsic".into(),
            InstanceKind::LlvmIntrinsic => "llvm".into(),
            InstanceKind::Virtual { .. } => "virtual".into(),
            InstanceKind::Shim => {
                if i.is_empty_shim() {
                    "emptyshim".into()
                } else {
                    "shim".into()
                }
            }
        };
        let args = self.args(&i.args());
        let body = if matches!(i.kind, InstanceKind::Item | InstanceKind::Shim) && self.want_body(&name, &full, &i) {
            match i.body() {
                Some(b) => self.body(&b),
                None => "null".into(),
            }
        } else {
            "null".into()
        };
        format!(
            "{{\"name\":{},\"full\":{},\"crate\":{},\"kind\":{},\"args\":{args},\"body\":{body}}}",
            esc(&name),
            esc(&full),
            esc(&crate_of(i.def.def_id())),
            esc(&kind)
        )
    }

    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut dbg = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                dbg.push(format!("[{},{}]", esc(&v.name), self.place(p)));
            }
        }
        let mut blocks = vec![];
        for bl in &b.blocks {
            let mut sts = vec![];
            for s in &bl.statements {
                if let Some(x) = self.stmt(s) {
                    sts.push(format!("[{},{}]", s.source_info.span.get_lines().start_line, x));
                }
            }
            let t = self.term(&bl.terminator);
            let line = bl.terminator.source_info.span.get_lines().start_line;
            blocks.push(format!("{{\"s\":{},\"t\":{},\"l\":{}}}", arr(sts), t, line));
        }
        let sp = b.span.get_lines();
        format!(
            "{{\"argc\":{},\"locals\":{},\"dbg\":{},\"spread\":{},\"file\":{},\"l0\":{},\"l1\":{},\"blocks\":{}}}",
            b.arg_locals().len(),
            arr(locals),
            arr(dbg),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            esc(&b.span.get_filename().to_string()),
            sp.start_line,
            sp.end_line,
            arr(blocks)
        )
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{i},{}]", self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{l}]"),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{offset},{min_length},{}]", *from_end as u8)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{from},{to},{}]", *from_end as u8)
                }
                ProjectionElem::Downcast(i) => format!("[\"d\",{}]", vidx(i)),
                ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", self.ty(*t)),
            });
        }
        format!("[{},{}]", p.local, arr(v))
    }

    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let tid = self.ty(t);
                let v = self.konst(&c.const_);
                format!("[\"k\",{tid},{v}]")
            }
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", esc(&format!("{r:?}"))),
        }
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        match c.kind() {
            ConstantKind::ZeroSized => "{\"k\":\"zst\"}".into(),
            ConstantKind::Allocated(a) => self.decode(t, a, 0, 0),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(x) => format!("{{\"k\":\"int\",\"v\":\"{x}\"}}"),
                Err(_) => "{\"k\":\"unk\"}".into(),
            },
            _ => "{\"k\":\"unk\"}".into(),
        }
    }

    fn decode(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> String {
        let unk = || "{\"k\":\"unk\"}".to_string();
        if depth > 12 {
            return unk();
        }
        let r = match t.kind() {
            TyKind::RigidTy(r) => r,
            _ => return unk(),
        };
        let rd = |n: usize| a.read_partial_uint(off..off + n).ok();
        match r {
            RigidTy::Bool => match rd(1) {
                Some(x) => format!("{{\"k\":\"bool\",\"v\":{}}}", x),
                None => unk(),
            },
            RigidTy::Char => match rd(4) {
                Some(x) => format!("{{\"k\":\"int\",\"v\":\"{x}\"}}"),
                None => unk(),
            },
            RigidTy::Int(i) => match rd(i.num_bytes()) {
                Some(x) => {
                    let w = i.num_bytes() * 8;
                    let v = if w == 128 { x as i128 } else { ((x << (128 - w)) as i128) >> (128 - w) };
                    format!("{{\"k\":\"int\",\"v\":\"{v}\"}}")
                }
                None => unk(),
            },
            RigidTy::Uint(i) => match rd(i.num_bytes()) {
                Some(x) => format!("{{\"k\":\"int\",\"v\":\"{x}\"}}"),
                None => unk(),
            },
            RigidTy::Never => unk(),
            RigidTy::FnDef(..) | RigidTy::Closure(..) => "{\"k\":\"zst\"}".into(),
            RigidTy::Tuple(ts) => {
                let lay = match t.layout() {
                    Ok(l) => l.shape(),
                    Err(_) => return unk(),
                };
                if ts.is_empty() {
                    return "{\"k\":\"agg\",\"var\":0,\"f\":[]}".into();
                }
                match lay.fields {
                    FieldsShape::Arbitrary { offsets } => {
                        let fs: Vec<String> = ts
                            .iter()
                            .zip(offsets)
                            .map(|(t, o)| self.decode(*t, a, off + o.bytes(), depth + 1))
                            .collect();
                        format!("{{\"k\":\"agg\",\"var\":0,\"f\":{}}}", arr(fs))
                    }
                    _ => unk(),
                }
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                if let TyKind::RigidTy(RigidTy::Uint(UintTy::U8)) = e.kind() {
                    let v: Vec<String> = (0..n)
                        .map(|i| a.read_partial_uint(off + i..off + i + 1).unwrap_or(0).to_string())
                        .collect();
                    return format!("{{\"k\":\"bytes\",\"v\":{}}}", arr(v));
                }
                let st = match e.layout() {
                    Ok(l) => l.shape().size.bytes(),
                    Err(_) => return unk(),
                };
                if n > 64 {
                    return unk();
                }
                let fs: Vec<String> = (0..n).map(|i| self.decode(e, a, off + i * st, depth + 1)).collect();
                format!("{{\"k\":\"arr\",\"f\":{}}}", arr(fs))
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let p = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                let p = match p {
                    Some(p) => p,
                    None => return unk(),
                };
                let addr = a.read_partial_uint(off..off + 8).unwrap_or(0) as usize;
                match GlobalAlloc::from(p) {
                    GlobalAlloc::Memory(m) => match e.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let len = a.read_partial_uint(off + 8..off + 16).unwrap_or(0) as usize;
                            let bytes = m.raw_bytes().unwrap_or_default();
                            match std::str::from_utf8(&bytes[addr..addr + len]) {
                                Ok(s) => format!("{{\"k\":\"str\",\"v\":{}}}", esc(s)),
                                Err(_) => unk(),
                            }
                        }
                        TyKind::RigidTy(RigidTy::Slice(el)) => {
                            let len = a.read_partial_uint(off + 8..off + 16).unwrap_or(0) as usize;
                            if let TyKind::RigidTy(RigidTy::Uint(UintTy::U8)) = el.kind() {
                                let bytes = m.raw_bytes().unwrap_or_default();
                                let v: Vec<String> =
                                    bytes[addr..addr + len].iter().map(|x| x.to_string()).collect();
                                return format!("{{\"k\":\"ref\",\"v\":{{\"k\":\"bytes\",\"v\":{}}}}}", arr(v));
                            }
                            let st = match el.layout() {
                                Ok(l) => l.shape().size.bytes(),
                                Err(_) => return unk(),
                            };
                            if len > 64 {
                                return unk();
                            }
                            let fs: Vec<String> =
                                (0..len).map(|i| self.decode(el, &m, addr + i * st, depth + 1)).collect();
                            format!("{{\"k\":\"ref\",\"v\":{{\"k\":\"arr\",\"f\":{}}}}}", arr(fs))
                        }
                        TyKind::RigidTy(RigidTy::Dynamic(..)) => unk(),
                        _ => {
                            let v = self.decode(e, &m, addr, depth + 1);
                            format!("{{\"k\":\"ref\",\"v\":{v}}}")
                        }
                    },
                    GlobalAlloc::Static(s) => {
                        format!("{{\"k\":\"static\",\"n\":{}}}", esc(&s.name()))
                    }
                    GlobalAlloc::Function(i) => format!("{{\"k\":\"fn\",\"fn\":{}}}", self.inst(i)),
                    _ => unk(),
                }
            }
            RigidTy::FnPtr(_) => {
                let p = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                match p.map(GlobalAlloc::from) {
                    Some(GlobalAlloc::Function(i)) => format!("{{\"k\":\"fn\",\"fn\":{}}}", self.inst(i)),
                    _ => unk(),
                }
            }
            RigidTy::Adt(d, ga) => {
                let lay = match t.layout() {
                    Ok(l) => l.shape(),
                    Err(_) => return unk(),
                };
                if d.kind().is_union() {
                    return unk();
                }
                let (var, offsets): (usize, Vec<usize>) = match &lay.variants {
                    VariantsShape::Empty => return unk(),
                    VariantsShape::Single { index } => match &lay.fields {
                        FieldsShape::Arbitrary { offsets } => {
                            (vidx(index), offsets.iter().map(|o| o.bytes()).collect())
                        }
                        _ => (vidx(index), vec![]),
                    },
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &lay.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                            _ => return unk(),
                        };
                        let tsz = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. }
                            | rustc_public::abi::Scalar::Union { value } => match value {
                                rustc_public::abi::Primitive::Int { length, .. } => length.bits() / 8,
                                _ => 8,
                            },
                        };
                        let isptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                        let tv = a.read_partial_uint(off + toff..off + toff + tsz).unwrap_or(0);
                        let var = match tag_encoding {
                            TagEncoding::Direct => {
                                match d.variants().iter().position(|v| {
                                    let m = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    d.discriminant_for_variant(v.idx()).val & m == tv
                                }) {
                                    Some(x) => x,
                                    None => return unk(),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let m = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                let rel = tv.wrapping_sub(*niche_start) & m;
                                let s = vidx(niche_variants.start());
                                let e = vidx(niche_variants.end());
                                if !isptr && rel <= (e - s) as u128 {
                                    s + rel as usize
                                } else {
                                    vidx(untagged_variant)
                                }
                            }
                        };
                        (var, variants[var].offsets.iter().map(|o| o.bytes()).collect())
                    }
                };
                let v = match d.variants().into_iter().nth(var) {
                    Some(v) => v,
                    None => return unk(),
                };
                let fs: Vec<String> = v
                    .fields()
                    .iter()
                    .zip(offsets)
                    .map(|(f, o)| self.decode(f.ty_with_args(&ga), a, off + o, depth + 1))
                    .collect();
                format!("{{\"k\":\"agg\",\"var\":{var},\"f\":{}}}", arr(fs))
            }
            _ => unk(),
        }
    }

    fn stmt(&mut self, s: &Statement) -> Option<String> {
        match &s.kind {
            StatementKind::Assign(p, r) => {
                Some(format!("[\"=\",{},{}]", self.place(p), self.rv(r)))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                Some(format!("[\"sd\",{},{}]", self.place(place), vidx(variant_index)))
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                Some(format!("[\"assume\",{}]", self.op(o)))
            }
            StatementKind::Intrinsic(_) => Some("[\"unk\"]".into()),
            _ => None,
        }
    }

    fn rv(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. }) as u8;
                format!("[\"ref\",{},{m}]", self.place(p))
            }
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"use\",[\"cp\",{}],{}]", self.place(p), (*m == Mutability::Mut) as u8)
            }
            Rvalue::AddressOf(_, p) => format!("[\"ref\",{},2]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::BinaryOp(b, x, y) => {
                format!("[\"bin\",{},{},{}]", esc(&format!("{b:?}")), self.op(x), self.op(y))
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                format!("[\"chk\",{},{},{}]", esc(&format!("{b:?}")), self.op(x), self.op(y))
            }
            Rvalue::UnaryOp(u, x) => format!("[\"un\",{},{}]", esc(&format!("{u:?}")), self.op(x)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                format!("[\"cast\",{},{},{}]", esc(&format!("{k:?}")), self.op(o), self.ty(*t))
            }
            Rvalue::Repeat(o, n) => format!(
                "[\"rep\",{},{}]",
                self.op(o),
                n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::ThreadLocalRef(_) => "[\"unk\"]".into(),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                let os = arr(os);
                match k {
                    AggregateKind::Array(t) => format!("[\"agg\",\"array\",{},0,{os}]", self.ty(*t)),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,0,{os}]"),
                    AggregateKind::Adt(d, v, a, _, _) => {
                        let t = d.ty_with_args(a);
                        format!("[\"agg\",\"adt\",{},{},{os}]", self.ty(t), vidx(v))
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"agg\",\"closure\",{},0,{os}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"agg\",\"rawptr\",{},0,{os}]", self.ty(*t)),
                    _ => "[\"unk\"]".into(),
                }
            }
        }
    }

    fn term(&mut self, t: &Terminator) -> String {
        match &t.kind {
            TerminatorKind::Goto { target } => format!("[\"goto\",{target}]"),
            TerminatorKind::SwitchInt { discr, targets } => {
                let bs: Vec<String> =
                    targets.branches().map(|(v, b)| format!("[\"{v}\",{b}]")).collect();
                format!("[\"sw\",{},{},{}]", self.op(discr), arr(bs), targets.otherwise())
            }
            TerminatorKind::Resume => "[\"resume\"]".into(),
            TerminatorKind::Abort => "[\"abort\"]".into(),
            TerminatorKind::Return => "[\"ret\"]".into(),
            TerminatorKind::Unreachable => "[\"unreach\"]".into(),
            TerminatorKind::Drop { place, target, .. } => {
                format!("[\"drop\",{},{target}]", self.place(place))
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = match msg {
                    AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                    AssertMessage::Overflow(op, ..) => format!("overflow:{op:?}"),
                    AssertMessage::OverflowNeg(_) => "overflow:Neg".into(),
                    AssertMessage::DivisionByZero(_) => "div0".into(),
                    AssertMessage::RemainderByZero(_) => "rem0".into(),
                    AssertMessage::MisalignedPointerDereference { .. } => "misaligned".into(),
                    AssertMessage::NullPointerDereference => "null".into(),
                    _ => "other".into(),
                };
                format!("[\"assert\",{},{},{},{target}]", self.op(cond), *expected as u8, esc(&m))
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let f = match func {
                    Operand::Constant(c) => match c.const_.ty().kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) {
                            Ok(i) => format!("[\"fn\",{}]", self.inst(i)),
                            Err(_) => format!("[\"unres\",{}]", esc(&d.name())),
                        },
                        _ => "[\"unk\"]".into(),
                    },
                    o => format!("[\"ptr\",{}]", self.op(o)),
                };
                let os: Vec<String> = args.iter().map(|o| self.op(o)).collect();
                format!(
                    "[\"call\",{f},{},{},{}]",
                    arr(os),
                    self.place(destination),
                    target.map(|x| x.to_string()).unwrap_or("null".into())
                )
            }
            TerminatorKind::InlineAsm { .. } => "[\"unk\"]".into(),
        }
    }
}

fn vidx(v: &VariantIdx) -> usize {
    v.to_index()
}

trait ToIdx {
    fn to_index(&self) -> usize;
}
impl ToIdx for VariantIdx {
    fn to_index(&self) -> usize {
        { let s = format!("{self:?}"); s.chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap() }
    }
}

fn dump() -> ControlFlow<(), ()> {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let mut cx = Cx { local: rustc_public::local_crate().name.to_string(), ..Default::default() };
    if std::env::var("MIRDUMP_DEBUG").is_ok() {
        eprintln!("local crate {}", cx.local);
    }
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        if matches!(it.kind(), rustc_public::ItemKind::Fn) && !it.requires_monomorphization() {
            if let Ok(i) = Instance::try_from(it) {
                let id = cx.inst(i);
                roots.push(id.to_string());
            }
        }
    }
    while let Some(i) = cx.work.pop() {
        let id = cx.fnids[&i];
        let s = cx.fn_json(i);
        cx.fns[id] = Some(s);
    }
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"crate\":{},\"roots\":{},\n\"types\":[{}],\n\"fns\":[{}]}}",
        esc(&cx.local),
        arr(roots),
        cx.types.iter().map(|x| x.clone().unwrap_or("null".into())).collect::<Vec<_>>().join(",\n"),
        cx.fns.iter().map(|x| x.clone().unwrap_or("null".into())).collect::<Vec<_>>().join(",\n")
    );
    std::fs::write(&out, o).expect("write MIRDUMP_OUT");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: args[1] is the rustc path
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let cname = args.iter().position(|x| x == "--crate-name").map(|i| args[i + 1].clone());
    let is_target = cname.as_deref() == std::env::var("MIRDUMP_CRATE").ok().as_deref();
    if !is_target {
        let st = std::process::Command::new("rustc").args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Awarnings".into());
    let r = rustc_public::run!(&args, dump);
    match r {
        Ok(_) => (),
        Err(e) => {
            eprintln!("mirdump: {e:?}");
            std::process::exit(1);
        }
    }
}
