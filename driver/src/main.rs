//! mirdump: a rustc driver that dumps the resolved, monomorphised MIR of the
//! workspace (and of the small std / cosmwasm_std helpers it flows through) as
//! JSON, one file per crate.  It is used as RUSTC_WORKSPACE_WRAPPER; the
//! ordinary compilation goes on unchanged around it.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_hir;
extern crate rustc_ast;
extern crate rustc_span;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public_bridge::IndexedVal;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

struct Cx {
    types: Vec<String>,
    tyidx: HashMap<Ty, usize>,
    insts: Vec<String>,
    instidx: HashMap<Instance, usize>,
    queue: Vec<(usize, Instance)>,
    ws: Vec<String>,
    dyn_impls: HashMap<String, ()>,
}

// Non-workspace functions whose MIR is dumped too (matched on the resolved
// instance name); everything else outside the workspace stays a named leaf.
const DESCEND: &[&str] = &[
    "std::option::",
    "core::option::",
    "std::result::",
    "core::result::",
    "std::ops::",
    "core::ops::",
    "std::convert::",
    "core::convert::",
    "std::mem::take",
    "std::mem::replace",
    "std::mem::swap",
    "core::bool",
    "bool>::then",
    "std::cmp::",
    "core::cmp::",
    "cosmwasm_std::Response",
    "cosmwasm_std::results::",
    "cosmwasm_std::CosmosMsg",
    "cosmwasm_std::SubMsg",
    "cosmwasm_std::coin",
    "cosmwasm_std::Coin",
    "cosmwasm_std::wasm_execute",
    "cosmwasm_std::attr",
    "cosmwasm_std::Attribute",
    "cosmwasm_std::errors::",
    "cosmwasm_std::StdError",
    "cosmwasm_std::OverflowError",
    "cosmwasm_std::DepsMut",
    "cosmwasm_std::Deps",
    "cosmwasm_std::deps",
    "cosmwasm_std::QuerierWrapper",
    "cw_utils::",
    "cw2::",
];

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tyidx.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.tyidx.insert(t, id);
        self.types.push(String::new());
        let s = match t.kind() {
            TyKind::RigidTy(r) => self.rigid(t, r),
            k => format!("{{\"k\":\"other\",\"s\":{}}}", js(&format!("{k:?}"))),
        };
        self.types[id] = s;
        id
    }

    fn gargs(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(match c.eval_target_usize() {
                    Ok(n) => format!("{{\"c\":{n}}}"),
                    Err(_) => "{\"c\":null}".into(),
                }),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        arr(&v)
    }

    fn rigid(&mut self, t: Ty, r: RigidTy) -> String {
        match r {
            RigidTy::Bool => "{\"k\":\"bool\"}".into(),
            RigidTy::Char => "{\"k\":\"char\"}".into(),
            RigidTy::Int(i) => format!("{{\"k\":\"int\",\"n\":{}}}", js(&format!("{i:?}"))),
            RigidTy::Uint(i) => format!("{{\"k\":\"uint\",\"n\":{}}}", js(&format!("{i:?}"))),
            RigidTy::Float(i) => format!("{{\"k\":\"float\",\"n\":{}}}", js(&format!("{i:?}"))),
            RigidTy::Str => "{\"k\":\"str\"}".into(),
            RigidTy::Never => "{\"k\":\"never\"}".into(),
            RigidTy::Array(e, n) => {
                let e = self.ty(e);
                let n = n.eval_target_usize().map(|n| n.to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"array\",\"e\":{e},\"n\":{n}}}")
            }
            RigidTy::Slice(e) => format!("{{\"k\":\"slice\",\"e\":{}}}", self.ty(e)),
            RigidTy::RawPtr(e, m) => format!("{{\"k\":\"ptr\",\"e\":{},\"m\":{}}}", self.ty(e), m == Mutability::Mut),
            RigidTy::Ref(_, e, m) => format!("{{\"k\":\"ref\",\"e\":{},\"m\":{}}}", self.ty(e), m == Mutability::Mut),
            RigidTy::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"f\":{}}}", arr(&v))
            }
            RigidTy::FnDef(d, a) => {
                let name = d.name();
                let inst = match Instance::resolve(d, &a) {
                    Ok(i) => self.inst(i).to_string(),
                    Err(_) => "null".into(),
                };
                let a = self.gargs(&a);
                format!("{{\"k\":\"fndef\",\"name\":{},\"args\":{a},\"inst\":{inst}}}", js(&name))
            }
            RigidTy::FnPtr(_) => "{\"k\":\"fnptr\"}".into(),
            RigidTy::Closure(d, a) => {
                let mut inst = "null".to_string();
                for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                    if let Ok(i) = Instance::resolve_closure(d, &a, k) {
                        if i.kind == InstanceKind::Item {
                            inst = self.inst(i).to_string();
                            break;
                        }
                    }
                }
                format!("{{\"k\":\"closure\",\"name\":{},\"inst\":{inst}}}", js(&d.name()))
            }
            RigidTy::Dynamic(p, _) => {
                let mut name = String::new();
                if let Some(p0) = p.first() {
                    if let ExistentialPredicate::Trait(t) = &p0.value {
                        name = t.def_id.name();
                    }
                }
                if self.ws.iter().any(|w| name.starts_with(&format!("{w}::"))) {
                    self.dyn_impls.insert(name.clone(), ());
                }
                format!("{{\"k\":\"dyn\",\"name\":{}}}", js(&name))
            }
            RigidTy::Adt(d, a) => {
                let name = d.name();
                let args = self.gargs(&a);
                let std = name.starts_with("std::") || name.starts_with("core::") || name.starts_with("alloc::");
                let ok = !std
                    || ["option::Option", "result::Result", "ControlFlow", "ops::Range", "cmp::Ordering", "borrow::Cow"]
                        .iter()
                        .any(|x| name.contains(x));
                let is_enum = d.kind() == AdtKind::Enum;
                let mut vs = vec![];
                for v in d.variants_iter() {
                    let mut fs = vec![];
                    if ok {
                        for f in v.fields() {
                            let ft = f.ty_with_args(&a);
                            // normalise projections through the layout-independent path
                            let ft = self.ty(ft);
                            fs.push(format!("[{},{}]", js(&f.name), ft));
                        }
                    }
                    let discr = if is_enum { d.discriminant_for_variant(v.idx()).val } else { 0 };
                    vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", js(&v.name()), discr, arr(&fs)));
                }
                let _ = t;
                format!(
                    "{{\"k\":\"adt\",\"name\":{},\"args\":{args},\"enum\":{},\"box\":{},\"x\":{},\"v\":{}}}",
                    js(&name),
                    is_enum,
                    d.is_box(),
                    ok,
                    arr(&vs)
                )
            }
            other => format!("{{\"k\":\"other\",\"s\":{}}}", js(&format!("{other:?}"))),
        }
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.instidx.get(&i) {
            return *x;
        }
        let id = self.insts.len();
        self.instidx.insert(i, id);
        self.insts.push(String::new());
        self.queue.push((id, i));
        id
    }

    fn wants_body(&self, i: &Instance) -> bool {
        let name = i.name();
        let krate = i.def.krate().name;
        if self.ws.iter().any(|w| *w == krate) {
            return true;
        }
        if i.kind == InstanceKind::Shim {
            // closure-call shims and fn-pointer shims
            return name.contains("ops::Fn") || name.contains("{closure");
        }
        if krate == "core" || krate == "std" || krate == "alloc" {
            if name.contains("fmt::") || name.contains("cmp::Partial") && !name.contains("option") {
                return false;
            }
        }
        let dn = i.def.name();
        DESCEND.iter().any(|d| dn.contains(d) || name.starts_with(d))
    }

    fn flush(&mut self) {
        while let Some((id, i)) = self.queue.pop() {
            let kind = match i.kind {
                InstanceKind::Item => "item".to_string(),
                InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "intrinsic".into(),
                InstanceKind::Virtual { idx } => format!("virtual:{idx}"),
                InstanceKind::Shim => "shim".into(),
            };
            let body = if matches!(i.kind, InstanceKind::Item | InstanceKind::Shim) && self.wants_body(&i) {
                i.body()
            } else {
                None
            };
            let args = self.gargs(&i.args());
            let span = i.def.span();
            let mut s = format!(
                "{{\"id\":{id},\"name\":{},\"def\":{},\"crate\":{},\"kind\":{},\"args\":{args},\"file\":{},\"line\":{}",
                js(&i.name()),
                js(&i.def.name()),
                js(&i.def.krate().name),
                js(&kind),
                js(&span.get_filename()),
                span.get_lines().start_line
            );
            if let Some(b) = body {
                s.push_str(",\"body\":");
                s.push_str(&self.body(&b));
            }
            s.push('}');
            self.insts[id] = s;
        }
    }

    fn place(&mut self, p: &Place) -> String {
        let v: Vec<String> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{i},{}]", self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{l}]"),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{offset},{min_length},{from_end}]")
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{from},{to},{from_end}]"),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", idx(*v)),
                ProjectionElem::OpaqueCast(t) => format!("[\"oc\",{}]", self.ty(*t)),
            })
            .collect();
        format!("[{},{}]", p.local, arr(&v))
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => {
                let t = self.ty(c.ty());
                format!("[\"k\",{t},{}]", self.konst(&c.const_))
            }
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", js(&format!("{r:?}"))),
        }
    }

    fn konst(&mut self, c: &MirConst) -> String {
        match c.kind() {
            ConstantKind::Allocated(a) => self.value(a, 0, c.ty(), 0),
            ConstantKind::ZeroSized => format!("{{\"zst\":{}}}", self.ty(c.ty())),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(n) => format!("{{\"i\":{n}}}"),
                Err(_) => match tc.kind() {
                    TyConstKind::Value(t, a) => self.value(a, 0, *t, 0),
                    _ => "{\"?\":\"tyconst\"}".into(),
                },
            },
            k => format!("{{\"?\":{}}}", js(&format!("{k:?}").chars().take(80).collect::<String>())),
        }
    }

    fn uint(&self, a: &Allocation, off: usize, n: usize) -> Option<u128> {
        a.read_partial_uint(off..off + n).ok()
    }

    fn value(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        if depth > 12 {
            return "{\"?\":\"deep\"}".into();
        }
        let tid = self.ty(t);
        let unk = |s: &str| format!("{{\"?\":{}}}", js(s));
        let TyKind::RigidTy(r) = t.kind() else { return unk("nonrigid") };
        let shape = match t.layout() {
            Ok(l) => l.shape(),
            Err(_) => return unk("layout"),
        };
        let size = shape.size.bytes();
        match r {
            RigidTy::Bool => match self.uint(a, off, 1) {
                Some(v) => format!("{{\"b\":{}}}", v != 0),
                None => unk("undef"),
            },
            RigidTy::Char | RigidTy::Uint(_) => match self.uint(a, off, size) {
                Some(v) => format!("{{\"i\":{v}}}"),
                None => unk("undef"),
            },
            RigidTy::Int(_) => match self.uint(a, off, size) {
                Some(v) => {
                    let bits = size * 8;
                    let sv = if bits < 128 && (v >> (bits - 1)) & 1 == 1 { v as i128 - (1i128 << bits) } else { v as i128 };
                    format!("{{\"i\":{sv}}}")
                }
                None => unk("undef"),
            },
            RigidTy::FnDef(..) | RigidTy::Closure(..) => format!("{{\"zst\":{tid}}}"),
            RigidTy::Tuple(ts) => {
                let mut v = vec![];
                for (i, ft) in ts.iter().enumerate() {
                    let o = field_off(&shape.fields, i);
                    v.push(self.value(a, off + o, *ft, depth + 1));
                }
                format!("{{\"tup\":{}}}", arr(&v))
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                if matches!(e.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))) {
                    return self.bytes(a, off, n);
                }
                let mut v = vec![];
                for i in 0..n.min(256) {
                    v.push(self.value(a, off + i * es, e, depth + 1));
                }
                format!("{{\"arr\":{}}}", arr(&v))
            }
            RigidTy::Ref(_, p, _) | RigidTy::RawPtr(p, _) => {
                let Some((_, prov)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) else {
                    return unk("noprov");
                };
                let inner_off = self.uint(a, off, 8).unwrap_or(0) as usize;
                let ga = GlobalAlloc::from(prov.0);
                let mem = match ga {
                    GlobalAlloc::Memory(m) => m,
                    GlobalAlloc::Static(s) => match s.eval_initializer() {
                        Ok(m) => m,
                        Err(_) => return unk("static"),
                    },
                    GlobalAlloc::Function(i) => {
                        let id = self.inst(i);
                        return format!("{{\"fn\":{id}}}");
                    }
                    _ => return unk("galloc"),
                };
                match p.kind() {
                    TyKind::RigidTy(RigidTy::Str) => {
                        let n = self.uint(a, off + 8, 8).unwrap_or(0) as usize;
                        let b: Vec<u8> = mem.bytes[inner_off..inner_off + n].iter().map(|x| x.unwrap_or(0)).collect();
                        format!("{{\"ref\":{{\"s\":{}}}}}", js(&String::from_utf8_lossy(&b)))
                    }
                    TyKind::RigidTy(RigidTy::Slice(e)) => {
                        let n = self.uint(a, off + 8, 8).unwrap_or(0) as usize;
                        if matches!(e.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))) {
                            return format!("{{\"ref\":{}}}", self.bytes(&mem, inner_off, n));
                        }
                        let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                        let mut v = vec![];
                        for i in 0..n.min(256) {
                            v.push(self.value(&mem, inner_off + i * es, e, depth + 1));
                        }
                        format!("{{\"ref\":{{\"arr\":{}}}}}", arr(&v))
                    }
                    TyKind::RigidTy(RigidTy::Dynamic(..)) => unk("dynref"),
                    _ => format!("{{\"ref\":{}}}", self.value(&mem, inner_off, p, depth + 1)),
                }
            }
            RigidTy::FnPtr(_) => {
                let Some((_, prov)) = a.provenance.ptrs.iter().find(|(o, _)| *o == off) else { return unk("fnptr") };
                match GlobalAlloc::from(prov.0) {
                    GlobalAlloc::Function(i) => format!("{{\"fn\":{}}}", self.inst(i)),
                    _ => unk("fnptr"),
                }
            }
            RigidTy::Adt(d, args) => {
                if d.kind() == AdtKind::Union {
                    return unk("union");
                }
                let vidx: usize;
                let mut offs: Vec<usize> = vec![];
                match &shape.variants {
                    VariantsShape::Empty => return unk("empty"),
                    VariantsShape::Single { index } => {
                        vidx = idx(*index);
                        let n = d.variants()[vidx].fields().len();
                        for i in 0..n {
                            offs.push(field_off(&shape.fields, i));
                        }
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = field_off(&shape.fields, *tag_field);
                        let (tsize, valid_start) = scalar(tag);
                        let _ = valid_start;
                        let Some(tv) = self.uint(a, off + toff, tsize) else { return unk("tag") };
                        let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                        vidx = match tag_encoding {
                            TagEncoding::Direct => {
                                let mut r = usize::MAX;
                                for v in d.variants_iter() {
                                    if d.discriminant_for_variant(v.idx()).val == tv {
                                        r = idx(v.idx());
                                    }
                                }
                                r
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let mask = if tsize >= 16 { u128::MAX } else { (1u128 << (tsize * 8)) - 1 };
                                let rel = tv.wrapping_sub(*niche_start) & mask;
                                let s = idx(*niche_variants.start());
                                let e = idx(*niche_variants.end());
                                if !has_prov && rel <= (e - s) as u128 {
                                    s + rel as usize
                                } else {
                                    idx(*untagged_variant)
                                }
                            }
                        };
                        if vidx == usize::MAX || vidx >= variants.len() {
                            return unk("variant");
                        }
                        for o in &variants[vidx].offsets {
                            offs.push(o.bytes());
                        }
                    }
                }
                let v = d.variants()[vidx];
                let mut fs = vec![];
                for (i, f) in v.fields().iter().enumerate() {
                    let ft = f.ty_with_args(&args);
                    let o = offs.get(i).copied().unwrap_or(0);
                    fs.push(self.value(a, off + o, ft, depth + 1));
                }
                format!("{{\"adt\":{tid},\"v\":{vidx},\"f\":{}}}", arr(&fs))
            }
            _ => unk("kind"),
        }
    }

    fn bytes(&mut self, a: &Allocation, off: usize, n: usize) -> String {
        let b: Vec<u8> = a.bytes[off..off + n].iter().map(|x| x.unwrap_or(0)).collect();
        if n > 8192 {
            return "{\"?\":\"bigbytes\"}".into();
        }
        format!("{{\"by\":[{}]}}", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"ref\",{},\"raw\"]", self.place(p)),
            Rvalue::Ref(_, k, p) => {
                format!("[\"ref\",{},\"{}\"]", self.place(p), if matches!(k, BorrowKind::Mut { .. }) { "mut" } else { "shr" })
            }
            Rvalue::Reborrow(_, _, p) => format!("[\"ref\",{},\"mut\"]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let k = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        format!("[\"adt\",{},{},{}]", self.ty(t), idx(*v), f.map(|f| f.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    k => format!("[\"other\",{}]", js(&format!("{k:?}").chars().take(40).collect::<String>())),
                };
                format!("[\"agg\",{k},{}]", arr(&o))
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{b:?}\",{},{}]", self.operand(x), self.operand(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",\"{b:?}\",{},{}]", self.operand(x), self.operand(y)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", js(&format!("{k:?}")), self.operand(o), self.ty(*t)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(o),
                n.eval_target_usize().map(|n| n.to_string()).unwrap_or("null".into())
            ),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{u:?}\",{}]", self.operand(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", js(&v.name), self.place(p)));
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => ss.push(format!("[{},{}]", self.place(p), self.rvalue(r))),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(format!("[{},[\"setd\",{}]]", self.place(place), idx(*variant_index)))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => ss.push("\"cno\"".into()),
                    _ => {}
                }
            }
            let t = &bb.terminator;
            let line = t.source_info.span.get_lines().start_line;
            let file = t.source_info.span.get_filename();
            let ts = match &t.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{target}]"),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, b)| format!("[{v},{b}]")).collect();
                    let dt = discr.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("[\"switch\",{},{},{},{dt}]", self.operand(discr), arr(&br), targets.otherwise())
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Resume | TerminatorKind::Abort | TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { target, .. } => format!("[\"goto\",{target}]"),
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let d: String = format!("{msg:?}").chars().take_while(|c| c.is_alphanumeric()).collect();
                    format!("[\"assert\",{},{expected},{target},{}]", self.operand(cond), js(&d))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    let at: Vec<String> = args
                        .iter()
                        .map(|o| o.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into()))
                        .collect();
                    let f = self.operand(func);
                    let rt = destination.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!(
                        "[\"call\",{f},{},{},{},{},{rt}]",
                        arr(&a),
                        self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into()),
                        arr(&at)
                    )
                }
                TerminatorKind::InlineAsm { .. } => "[\"unreach\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{ts},\"l\":{line},\"fl\":{}}}", arr(&ss), js(&file)));
        }
        format!(
            "{{\"argc\":{},\"locals\":{},\"names\":{},\"spread\":{},\"blocks\":{}}}",
            b.arg_locals().len(),
            arr(&locals),
            arr(&names),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            arr(&blocks)
        )
    }
}

fn idx(v: VariantIdx) -> usize {
    v.to_index()
}

fn scalar(s: &rustc_public::abi::Scalar) -> (usize, u128) {
    use rustc_public::abi::{IntegerLength, Primitive, Scalar};
    let (p, st) = match s {
        Scalar::Initialized { value, valid_range } => (value, valid_range.start),
        Scalar::Union { value } => (value, 0),
    };
    let n = match p {
        Primitive::Int { length, .. } => match length {
            IntegerLength::I8 => 1,
            IntegerLength::I16 => 2,
            IntegerLength::I32 => 4,
            IntegerLength::I64 => 8,
            IntegerLength::I128 => 16,
        },
        _ => 8,
    };
    (n, st)
}

fn field_off(f: &FieldsShape, i: usize) -> usize {
    match f {
        FieldsShape::Arbitrary { offsets } => offsets.get(i).map(|o| o.bytes()).unwrap_or(0),
        FieldsShape::Array { stride, .. } => stride.bytes() * i,
        _ => 0,
    }
}

/// The serde attributes of the local types: how they are written on the wire.
fn meta(xs: &[rustc_ast::MetaItemInner], pre: &str, out: &mut Vec<String>) {
    for x in xs {
        let n = format!("{pre}{}", x.name().map(|n| n.to_string()).unwrap_or("?".into()));
        if let Some(v) = x.value_str() {
            out.push(js(&format!("{n}={v}")));
        } else if let Some(l) = x.meta_item_list() {
            meta(l, &format!("{n}."), out);
        } else {
            out.push(js(&n));
        }
    }
}

fn serde_attrs(tcx: rustc_middle::ty::TyCtxt<'_>, did: rustc_hir::def_id::DefId) -> String {
    use rustc_ast::attr::AttributeExt;
    let mut out = vec![];
    for a in tcx.get_all_attrs(did) {
        if AttributeExt::name(a).map_or(false, |n| n.as_str() == "serde") {
            match AttributeExt::meta_item_list(a) {
                Some(l) => meta(&l, "", &mut out),
                None => out.push(js("?")),
            }
        }
    }
    arr(&out)
}

fn wire(tcx: rustc_middle::ty::TyCtxt<'_>) -> String {
    use rustc_hir::def::DefKind;
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let mut out = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let did = ld.to_def_id();
        if !matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum) {
            continue;
        }
        let mut vs = vec![];
        for v in tcx.adt_def(did).variants() {
            let fs: Vec<String> = v.fields.iter().map(|f| format!("{}:{}", js(f.name.as_str()), serde_attrs(tcx, f.did))).collect();
            let a = if tcx.adt_def(did).is_enum() { serde_attrs(tcx, v.def_id) } else { "[]".into() };
            let kind = match v.ctor_kind() {
                Some(rustc_hir::def::CtorKind::Fn) => "tuple",
                Some(rustc_hir::def::CtorKind::Const) => "unit",
                None => "struct",
            };
            vs.push(format!("{}:{{\"k\":\"{kind}\",\"a\":{a},\"f\":{{{}}}}}", js(v.name.as_str()), fs.join(",")));
        }
        out.push(format!(
            "{}:{{\"enum\":{},\"a\":{},\"v\":{{{}}}}}",
            js(&format!("{krate}::{}", tcx.def_path_str(did))),
            tcx.adt_def(did).is_enum(),
            serde_attrs(tcx, did),
            vs.join(",")
        ));
    }
    format!("{{{}}}", out.join(",\n"))
}

/// A generic function of the crate at types chosen by its bounds: T: Into<X>
/// becomes X, any other type parameter cosmwasm_std::Empty.
fn chosen<'tcx>(tcx: rustc_middle::ty::TyCtxt<'tcx>, did: rustc_span::def_id::DefId) -> Option<Instance> {
    use rustc_middle::ty::{self, GenericParamDefKind};
    let cw = tcx.crates(()).iter().find(|c| tcx.crate_name(**c).as_str() == "cosmwasm_std")?;
    let empty = tcx.module_children(cw.as_def_id()).iter().find(|m| m.ident.name.as_str() == "Empty" && matches!(m.res, rustc_hir::def::Res::Def(rustc_hir::def::DefKind::Struct, _)))?;
    let empty = tcx.type_of(empty.res.def_id()).instantiate_identity().skip_norm_wip();
    let preds = tcx.clauses_of(did).instantiate_identity(tcx);
    let mut into = HashMap::new();
    for p in preds.clauses.iter() {
        if let Some(tp) = p.skip_norm_wip().as_trait_clause() {
            let tr = tp.skip_binder().trait_ref;
            if let ty::Param(pt) = tr.self_ty().kind() {
                if tcx.item_name(tr.def_id).as_str() == "Into" {
                    into.insert(pt.index, tr.args.type_at(1));
                }
            }
        }
    }
    let mut bad = false;
    let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
        GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
        GenericParamDefKind::Type { .. } => into.get(&p.index).copied().unwrap_or(empty).into(),
        GenericParamDefKind::Const { .. } => {
            bad = true;
            empty.into()
        }
    });
    if bad || tcx.instantiate_and_check_impossible_clauses((did, args)) {
        return None;
    }
    let i = ty::Instance::try_resolve(tcx, ty::TypingEnv::fully_monomorphized(), did, args).ok()??;
    Some(rustc_public::rustc_internal::stable(i))
}

fn analyze(tcx: rustc_middle::ty::TyCtxt<'_>) -> ControlFlow<()> {
    let wire = wire(tcx);
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let ws: Vec<String> = std::env::var("MIRDUMP_WS").unwrap_or_default().split(',').map(|s| s.replace('-', "_")).collect();
    let krate = rustc_public::local_crate();
    let mut cx = Cx {
        types: vec![],
        tyidx: HashMap::new(),
        insts: vec![],
        instidx: HashMap::new(),
        queue: vec![],
        ws,
        dyn_impls: HashMap::new(),
    };
    let mut roots = vec![];
    let mut generic = vec![];
    let mut picked = vec![];
    for it in rustc_public::all_local_items() {
        if !matches!(it.kind(), ItemKind::Fn) {
            continue;
        }
        let name = it.name();
        if name.contains("{closure") || name.contains("schemars::JsonSchema") || name.contains("{impl#") && name.contains("_serde") {
            continue;
        }
        if it.requires_monomorphization() {
            generic.push(js(&name));
            if !name.contains("erialize") && !name.contains("::_::") {
                if let Some(i) = chosen(tcx, rustc_public::rustc_internal::internal(tcx, it.def_id())) {
                    let id = cx.inst(i);
                    picked.push(format!("[{},{id}]", js(&name)));
                }
            }
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            let id = cx.inst(i);
            roots.push(format!("[{},{id}]", js(&name)));
        }
    }
    cx.flush();
    // methods of every implementation of a workspace trait that is used as dyn
    let mut dynm = vec![];
    let mut vt = vec![];
    for im in krate.trait_impls() {
        let tr = im.trait_impl().value;
        let tn = tr.def_id.name();
        vt.push((tn, format!("{:?}", tr.args().0.first().map(|_| ()))));
    }
    let _ = &mut dynm as &mut Vec<String>;
    cx.flush();
    let s = format!(
        "{{\"crate\":{},\"wire\":{wire},\"roots\":{},\"generic\":{},\"picked\":{},\"types\":{},\"insts\":{}}}",
        js(&krate.name),
        arr(&roots),
        arr(&generic),
        arr(&picked),
        format!("[{}]", cx.types.join(",\n")),
        format!("[{}]", cx.insts.join(",\n"))
    );
    std::fs::create_dir_all(&out).unwrap();
    std::fs::write(format!("{out}/{}.json", krate.name), s).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && !args[1].starts_with("-") && args[1].contains("rustc") {
        args.remove(1);
    }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let plain = args.iter().any(|a| a.starts_with("--print") || a == "-vV")
        || name.as_deref().map_or(true, |n| n.starts_with("build_script") || n == "___");
    if plain {
        let st = std::process::Command::new(std::env::var("MIRDUMP_RUSTC").unwrap_or("rustc".into()))
            .args(&args[1..])
            .status()
            .expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    let r = rustc_public::run_with_tcx!(&args, analyze);
    if r.is_err() {
        std::process::exit(1);
    }
}
