//! RUSTC_WORKSPACE_WRAPPER driver: compiles the workspace crate exactly as cargo
//! asks and, after analysis, writes the monomorphic MIR of every function that the
//! crate defines or reaches (resolved callees, types, layouts, constants, vtables)
//! as one JSON file per crate into $MIRDUMP_OUT.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
extern crate rustc_span;
#[macro_use]
extern crate rustc_public;

use rustc_middle::ty::TyCtxt;
use rustc_public::rustc_internal;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem, ItemKind};
use std::collections::{HashMap, HashSet, VecDeque};
use rustc_public_bridge::IndexedVal;
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

const DESCEND: &[&str] = &[
    "core::option", "core::result", "core::iter", "core::ops", "core::cmp", "core::convert",
    "core::array", "core::mem", "core::slice::iter", "core::tuple", "core::bool", "core::clone",
    "core::num", "core::char", "core::borrow", "alloc::borrow", "core::slice", "core::str", "core::default",
    "std::option", "std::result", "std::iter", "std::ops", "std::cmp", "std::convert", "std::array",
    "std::mem", "std::clone", "std::num", "std::char", "std::borrow", "std::slice", "std::str",
    "alloc::slice", "alloc::vec", "std::vec", "alloc::rc", "std::rc", "alloc::boxed", "std::boxed", "std::default",
    "alloc::string", "std::string", "core::intrinsics", "alloc::str",
];

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    ty_ids: HashMap<Ty, usize>,
    tys: Vec<String>,
    alloc_ids: HashMap<String, usize>,
    allocs: Vec<String>,
    seen: HashSet<String>,
    queue: VecDeque<Instance>,
    funcs: Vec<String>,
    vt_seen: HashSet<(Ty, String)>,
    vtables: Vec<String>,
    local_name: String,
    statics: Vec<String>,
    statics_seen: HashSet<String>,
    descend_crates: Vec<String>,
}

fn span_str(s: &Span) -> (String, usize, usize) {
    let l = s.get_lines();
    (s.get_filename(), l.start_line, l.end_line)
}

/// Iterator methods whose specialised versions in std (raw pointers, unrolling) are replaced by the
/// default method of the trait, which has the same meaning by the trait's contract
const DEFAULTS: &[&str] = &[
    "find", "find_map", "position", "rposition", "rfind", "fold", "rfold", "try_fold", "try_rfold",
    "for_each", "last", "nth", "nth_back", "advance_by", "advance_back_by", "max", "min", "max_by", "min_by",
    "max_by_key", "min_by_key", "reduce", "is_sorted", "is_sorted_by", "eq", "ne", "cmp", "partial_cmp",
];

impl<'tcx> Dump<'tcx> {
    fn default_method(&self, def: FnDef, args: &GenericArgs, i: &Instance) -> Option<Instance> {
        let n = def.name();
        let (tr, m) = n.rsplit_once("::")?;
        if !(tr.ends_with("iter::Iterator") || tr.ends_with("iter::DoubleEndedIterator") || tr.ends_with("iter::ExactSizeIterator")) || !DEFAULTS.contains(&m) || i.def.name() == n {
            return None;
        }
        let k = i.def.krate().name;
        if !(k == "core" || k == "alloc" || k == "std") {
            return None;
        }
        let id = rustc_internal::internal(self.tcx, def.def_id());
        if !self.tcx.associated_item(id).defaultness(self.tcx).has_value() {
            return None;
        }
        let ga = rustc_internal::internal(self.tcx, args);
        let inst = rustc_middle::ty::Instance::new_raw(id, ga);
        Some(rustc_internal::stable(inst))
    }

    fn want(&self, i: &Instance) -> bool {
        let n = i.def.name();
        let k = i.def.krate().name;
        if self.descend_crates.iter().any(|c| *c == k) {
            return true;
        }
        if matches!(i.kind, InstanceKind::Shim) {
            return false;
        }
        if k == "core" || k == "alloc" || k == "std" {
            let m = n.trim_start_matches('<');
            return DESCEND.iter().any(|d| m.starts_with(d)) || n.starts_with('<');
        }
        false
    }
    fn enqueue(&mut self, i: &Instance) -> String {
        let key = i.mangled_name();
        if matches!(i.kind, InstanceKind::Item | InstanceKind::Shim)
            && !self.seen.contains(&key)
            && self.want(i)
        {
            self.seen.insert(key.clone());
            self.queue.push_back(*i);
        }
        key
    }
    fn inst(&mut self, i: &Instance, args: Option<&GenericArgs>) -> String {
        let key = self.enqueue(i);
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let tys: Vec<Ty> = match args {
            Some(a) => a.0.iter().filter_map(|g| g.ty().copied()).collect(),
            None => vec![],
        };
        let ids = arr(tys.iter().map(|t| self.ty(*t).to_string()).collect::<Vec<_>>());
        let intr = i.intrinsic_name().unwrap_or_default();
        format!(
            "{{\"kind\":{},\"key\":{},\"name\":{},\"path\":{},\"crate\":{},\"targs\":{},\"intr\":{}}}",
            js(kind), js(&key), js(&i.name()), js(&i.def.name()), js(&i.def.krate().name), ids, js(&intr)
        )
    }
    fn fndef(&mut self, def: FnDef, args: &GenericArgs) -> String {
        match Instance::resolve(def, args) {
            Ok(i) => {
                let i = self.default_method(def, args, &i).unwrap_or(i);
                let s = self.inst(&i, Some(args));
                // keep the path as written at the call (trait method path) too
                format!("{{\"decl\":{},\"inst\":{}}}", js(&def.name()), s)
            }
            Err(_) => format!("{{\"decl\":{},\"inst\":null}}", js(&def.name())),
        }
    }
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let id = self.tys.len();
        self.ty_ids.insert(t, id);
        self.tys.push(String::new());
        let k = t.kind();
        let body = match &k {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".to_string(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"s\":true,\"b\":{}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"int\",\"s\":false,\"b\":{}", i.num_bytes() * 8),
                RigidTy::Float(f) => format!("\"k\":\"float\",\"b\":{}", match f { FloatTy::F16 => 16, FloatTy::F32 => 32, FloatTy::F64 => 64, FloatTy::F128 => 128 }),
                RigidTy::Str => "\"k\":\"str\"".to_string(),
                RigidTy::Never => "\"k\":\"never\"".to_string(),
                RigidTy::Array(e, n) => {
                    let e = self.ty(*e);
                    format!("\"k\":\"array\",\"e\":{},\"n\":{}", e, n.eval_target_usize().unwrap_or(0))
                }
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(*e)),
                RigidTy::RawPtr(e, m) => format!("\"k\":\"ptr\",\"e\":{},\"m\":{}", self.ty(*e), *m == Mutability::Mut),
                RigidTy::Ref(_, e, m) => format!("\"k\":\"ref\",\"e\":{},\"m\":{}", self.ty(*e), *m == Mutability::Mut),
                RigidTy::Tuple(v) => {
                    let v = arr(v.iter().map(|x| self.ty(*x).to_string()).collect::<Vec<_>>());
                    format!("\"k\":\"tuple\",\"f\":{}", v)
                }
                RigidTy::FnDef(d, a) => format!("\"k\":\"fndef\",\"fn\":{}", self.fndef(*d, a)),
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".to_string(),
                RigidTy::Closure(d, a) => {
                    let kind = match a.0.get(a.0.len().wrapping_sub(3)).and_then(|g| g.ty().copied()).map(|t| t.kind()) {
                        Some(TyKind::RigidTy(RigidTy::Int(IntTy::I8))) => ClosureKind::Fn,
                        Some(TyKind::RigidTy(RigidTy::Int(IntTy::I16))) => ClosureKind::FnMut,
                        _ => ClosureKind::FnOnce,
                    };
                    let ups: Vec<Ty> = match a.0.last().and_then(|g| g.ty().copied()).map(|t| t.kind()) {
                        Some(TyKind::RigidTy(RigidTy::Tuple(v))) => v,
                        _ => vec![],
                    };
                    let ups = arr(ups.iter().map(|x| self.ty(*x).to_string()).collect::<Vec<_>>());
                    let kn = match kind { ClosureKind::Fn => "Fn", ClosureKind::FnMut => "FnMut", ClosureKind::FnOnce => "FnOnce" };
                    let i = match Instance::resolve_closure(*d, a, kind) {
                        Ok(i) => self.inst(&i, None),
                        Err(_) => "null".to_string(),
                    };
                    format!("\"k\":\"closure\",\"path\":{},\"ck\":{},\"ups\":{},\"fn\":{}", js(&d.name()), js(kn), ups, i)
                }
                RigidTy::Dynamic(preds, _) => {
                    let mut n = String::new();
                    for p in preds {
                        if let ExistentialPredicate::Trait(t) = &p.value {
                            n = t.def_id.name();
                        }
                    }
                    format!("\"k\":\"dyn\",\"trait\":{}", js(&n))
                }
                RigidTy::Adt(d, a) => {
                    let targs: Vec<Ty> = a.0.iter().filter_map(|g| g.ty().copied()).collect();
                    let targs = arr(targs.iter().map(|x| self.ty(*x).to_string()).collect::<Vec<_>>());
                    let kind = d.kind();
                    let kn = if kind.is_enum() { "enum" } else if kind.is_union() { "union" } else { "struct" };
                    let mut vs = vec![];
                    for v in d.variants() {
                        let discr = if kind.is_enum() { d.discriminant_for_variant(v.idx()).val.to_string() } else { "0".to_string() };
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(a);
                            fs.push(format!("[{},{}]", js(&f.name), self.ty(ft)));
                        }
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", js(&v.name()), discr, arr(fs)));
                    }
                    format!("\"k\":\"adt\",\"ak\":{},\"path\":{},\"crate\":{},\"targs\":{},\"v\":{}", js(kn), js(&d.name()), js(&d.krate().name), targs, arr(vs))
                }
                _ => "\"k\":\"other\"".to_string(),
            },
            _ => "\"k\":\"other\"".to_string(),
        };
        // layout
        let mut lay = String::new();
        let skip = matches!(&k, TyKind::RigidTy(RigidTy::Str | RigidTy::Slice(_) | RigidTy::Dynamic(..)));
        if !skip {
            if let Ok(l) = t.layout() {
                let sh = l.shape();
                let _ = write!(lay, ",\"size\":{}", sh.size.bytes());
                lay.push_str(&self.fields_shape(&sh.fields));
                match &sh.variants {
                    VariantsShape::Single { index } => {
                        let _ = write!(lay, ",\"single\":{}", index.to_index());
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let tsz = {
                            use rustc_public::abi::{Primitive, Scalar};
                            let p = match tag { Scalar::Initialized { value, .. } => value, Scalar::Union { value } => value };
                            match p { Primitive::Int { length, .. } => length.bits() / 8, Primitive::Pointer(_) => 8, _ => 8 }
                        };
                        let enc = match tag_encoding {
                            TagEncoding::Direct => "\"direct\"".to_string(),
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                                "{{\"untagged\":{},\"lo\":{},\"hi\":{},\"start\":{}}}",
                                untagged_variant.to_index(), niche_variants.start().to_index(), niche_variants.end().to_index(), js(&niche_start.to_string())
                            ),
                        };
                        let vs = arr(variants.iter().map(|v| {
                            format!("[{}]", v.offsets.iter().map(|o| o.bytes().to_string()).collect::<Vec<_>>().join(","))
                        }));
                        let _ = write!(lay, ",\"tagsz\":{},\"tagf\":{},\"enc\":{},\"voffs\":{}", tsz, tag_field, enc, vs);
                    }
                    _ => {}
                }
            }
        }
        self.tys[id] = format!("{{\"name\":{},{}{}}}", js(&format!("{}", t)), body, lay);
        id
    }
    fn fields_shape(&self, f: &FieldsShape) -> String {
        match f {
            FieldsShape::Arbitrary { offsets } => format!(",\"offs\":[{}]", offsets.iter().map(|o| o.bytes().to_string()).collect::<Vec<_>>().join(",")),
            FieldsShape::Array { stride, .. } => format!(",\"stride\":{}", stride.bytes()),
            _ => String::new(),
        }
    }
    fn alloc(&mut self, a: &Allocation) -> String {
        // bytes as hex, with "??" for uninit
        let mut hex = String::with_capacity(a.bytes.len() * 2);
        for b in &a.bytes {
            match b {
                Some(b) => { let _ = write!(hex, "{:02x}", b); }
                None => hex.push_str("??"),
            }
        }
        let mut provs = vec![];
        for (off, p) in &a.provenance.ptrs {
            provs.push(format!("[{},{}]", off, self.global(p.0)));
        }
        format!("{{\"hex\":\"{}\",\"p\":{}}}", hex, arr(provs))
    }
    fn global(&mut self, id: alloc::AllocId) -> usize {
        let key = format!("{:?}", id);
        if let Some(i) = self.alloc_ids.get(&key) {
            return *i;
        }
        let n = self.allocs.len();
        self.alloc_ids.insert(key, n);
        self.allocs.push(String::new());
        let s = match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(a) => format!("{{\"k\":\"mem\",\"a\":{}}}", self.alloc(&a)),
            GlobalAlloc::Function(i) => format!("{{\"k\":\"fn\",\"f\":{}}}", self.inst(&i, None)),
            GlobalAlloc::Static(d) => { let nm = self.static_(d); format!("{{\"k\":\"static\",\"name\":{}}}", js(&nm)) }
            GlobalAlloc::VTable(t, _) => format!("{{\"k\":\"vtable\",\"ty\":{}}}", self.ty(t)),
            _ => "{\"k\":\"other\"}".to_string(),
        };
        self.allocs[n] = s;
        n
    }
    fn static_(&mut self, d: StaticDef) -> String {
        let nm = d.name();
        if self.statics_seen.insert(nm.clone()) {
            let t = self.ty(d.ty());
            let init = match d.eval_initializer() {
                Ok(a) => self.alloc(&a),
                Err(_) => "null".into(),
            };
            let (f, l, _) = span_str(&d.span());
            let mutable = format!("{:?}", d.ty()).contains("Cell");
            self.statics.push(format!("{{\"name\":{},\"ty\":{},\"init\":{},\"file\":{},\"line\":{},\"cell\":{},\"crate\":{}}}", js(&nm), t, init, js(&f), l, mutable, js(&d.krate().name)));
        }
        nm
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => format!("{{\"t\":{},\"a\":{}}}", t, self.alloc(a)),
            ConstantKind::ZeroSized => format!("{{\"t\":{},\"z\":1}}", t),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => format!("{{\"t\":{},\"a\":{}}}", t, self.alloc(a)),
                TyConstKind::ZSTValue(_) => format!("{{\"t\":{},\"z\":1}}", t),
                _ => format!("{{\"t\":{},\"u\":1}}", t),
            },
            _ => format!("{{\"t\":{},\"u\":1}}", t),
        }
    }
    fn place(&mut self, p: &Place) -> String {
        let pr = p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => "\"*\"".to_string(),
            ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
            ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
            ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
            ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", self.ty(*t)),
        }).collect::<Vec<_>>();
        format!("[{},{}]", p.local, arr(pr))
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rt\",{}]", js(&format!("{:?}", r))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::AddressOf(k, p) => format!("[\"addr\",{},{}]", matches!(k, RawPtrKind::Mut), self.place(p)),
            Rvalue::BinaryOp(op, a, b) => { let a_ = self.operand(a); let b_ = self.operand(b); let t = a.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1); format!("[\"bin\",{},{},{},{}]", js(&format!("{:?}", op)), a_, b_, t) }
            Rvalue::CheckedBinaryOp(op, a, b) => { let a_ = self.operand(a); let b_ = self.operand(b); let t = a.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1); format!("[\"chk\",{},{},{},{}]", js(&format!("{:?}", op)), a_, b_, t) }
            Rvalue::UnaryOp(op, a) => { let t = a.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1); format!("[\"un\",{},{},{}]", js(&format!("{:?}", op)), self.operand(a), t) }
            Rvalue::Cast(k, o, t) => {
                let src = o.ty(locals).ok();
                if let (CastKind::PointerCoercion(PointerCoercion::Unsize), Some(s)) = (k, src) {
                    self.unsize(s, *t);
                }
                if let (CastKind::PointerCoercion(_), Some(s)) = (k, src) { self.ty(s); }
                let s = src.map(|s| self.ty(s) as i64).unwrap_or(-1);
                format!("[\"cast\",{},{},{},{}]", js(&format!("{:?}", k)), self.operand(o), s, self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => { let t = p.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1); format!("[\"discr\",{},{}]", self.place(p), t) }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.operand(o), n.eval_target_usize().unwrap_or(0)),
            Rvalue::Aggregate(k, ops) => {
                let ops_ = arr(ops.iter().map(|o| self.operand(o)).collect::<Vec<_>>());
                let t = r.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                let kk = match k {
                    AggregateKind::Array(_) => "\"array\",0".to_string(),
                    AggregateKind::Tuple => "\"tuple\",0".to_string(),
                    AggregateKind::Adt(_, v, _, _, f) => match f { Some(f) => format!("\"union\",{}", f), None => format!("\"adt\",{}", v.to_index()) },
                    AggregateKind::Closure(..) => "\"closure\",0".to_string(),
                    AggregateKind::RawPtr(..) => "\"rawptr\",0".to_string(),
                    _ => "\"other\",0".to_string(),
                };
                format!("[\"agg\",{},{},{}]", kk, t, ops_)
            }
            Rvalue::ThreadLocalRef(c) => format!("[\"tls\",{}]", js(&c.name())),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
        }
    }
    fn pointee(&self, t: Ty) -> Option<Ty> {
        match t.kind() {
            TyKind::RigidTy(RigidTy::Ref(_, e, _)) => Some(e),
            TyKind::RigidTy(RigidTy::RawPtr(e, _)) => Some(e),
            TyKind::RigidTy(RigidTy::Adt(_, a)) => a.0.first().and_then(|g| g.ty().copied()),
            _ => None,
        }
    }
    fn unsize(&mut self, from: Ty, to: Ty) {
        let (Some(f), Some(t)) = (self.pointee(from), self.pointee(to)) else { return };
        if let TyKind::RigidTy(RigidTy::Dynamic(preds, _)) = t.kind() {
            for p in preds {
                if let ExistentialPredicate::Trait(tr) = &p.value {
                    self.vtable(f, &tr);
                }
            }
        }
    }
    fn vtable(&mut self, t: Ty, tr: &ExistentialTraitRef) {
        let name = tr.def_id.name();
        if matches!(t.kind(), TyKind::RigidTy(RigidTy::Dynamic(..))) { return; }
        if !self.vt_seen.insert((t, name.clone())) { return; }
        let kr = tr.def_id.krate().name;
        if kr == "core" || kr == "alloc" || kr == "std" {
            // Fn* traits over closures are handled by the closure type itself
            return;
        }
        let tref = tr.with_self_ty(t);
        let mut ms = vec![];
        for e in tref.vtable_entries() {
            if let VtblEntry::Method(i) = e {
                let n = i.def.name();
                let n = n.rsplit("::").next().unwrap_or("").to_string();
                let s = self.inst(&i, None);
                ms.push(format!("[{},{}]", js(&n), s));
            }
        }
        let ti = self.ty(t);
        self.vtables.push(format!("{{\"ty\":{},\"trait\":{},\"m\":{}}}", ti, js(&name), arr(ms)));
    }
    fn body(&mut self, i: &Instance) {
        if std::env::var("MIRDUMP_TRACE").is_ok() { eprintln!("TRACE {}", i.name()); }
        let Some(b) = i.body() else { return };
        let key = i.mangled_name();
        let locals = b.locals().to_vec();
        let lt = arr(locals.iter().map(|l| self.ty(l.ty).to_string()).collect::<Vec<_>>());
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", js(&v.name), self.place(p)));
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                let line = s.source_info.span.get_lines().start_line;
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let rv = self.rvalue(r, &locals);
                        ss.push(format!("[\"=\",{},{},{}]", self.place(p), rv, line));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(format!("[\"sd\",{},{},{}]", self.place(place), variant_index.to_index(), line));
                    }
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => ss.push(format!("[\"copynon\",{}]", line)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => ss.push(format!("[\"assume\",{}]", self.operand(o))),
                    _ => {}
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let file = bb.terminator.source_info.span.get_filename();
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let tt = discr.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    let br = arr(targets.branches().map(|(v, b)| format!("[{},{}]", v, b)));
                    format!("[\"switch\",{},{},{},{}]", self.operand(discr), br, targets.otherwise(), tt)
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place), target),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func.ty(&locals).map(|t| t.kind()) {
                        Ok(TyKind::RigidTy(RigidTy::FnDef(d, a))) => format!("[\"def\",{}]", self.fndef(d, &a)),
                        _ => format!("[\"ptr\",{}]", self.operand(func)),
                    };
                    let ats = arr(args.iter().map(|a| a.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1).to_string()).collect::<Vec<_>>());
                    let a = arr(args.iter().map(|a| self.operand(a)).collect::<Vec<_>>());
                    let dt = destination.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    let d = self.place(destination);
                    format!("[\"call\",{},{},{},{},{},{}]", f, a, ats, d, dt, target.map(|t| t.to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.operand(len), self.operand(index)),
                        AssertMessage::Overflow(op, a, b) => format!("[\"overflow\",{},{},{}]", js(&format!("{:?}", op)), self.operand(a), self.operand(b)),
                        AssertMessage::OverflowNeg(a) => format!("[\"overflowneg\",{}]", self.operand(a)),
                        AssertMessage::DivisionByZero(a) => format!("[\"divzero\",{}]", self.operand(a)),
                        AssertMessage::RemainderByZero(a) => format!("[\"remzero\",{}]", self.operand(a)),
                        _ => "[\"other\"]".to_string(),
                    };
                    format!("[\"assert\",{},{},{},{}]", self.operand(cond), expected, m, target)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("[{},{},{},{}]", arr(ss), t, line, js(&file)));
        }
        let (f, l0, l1) = span_str(&b.span);
        let args = i.args();
        let tys: Vec<Ty> = args.0.iter().filter_map(|g| g.ty().copied()).collect();
        let ids = arr(tys.iter().map(|t| self.ty(*t).to_string()).collect::<Vec<_>>());
        self.funcs.push(format!(
            "{{\"key\":{},\"name\":{},\"path\":{},\"crate\":{},\"file\":{},\"l0\":{},\"l1\":{},\"nargs\":{},\"spread\":{},\"locals\":{},\"names\":{},\"targs\":{},\"blocks\":{}}}",
            js(&key), js(&i.name()), js(&i.def.name()), js(&i.def.krate().name), js(&f), l0, l1,
            b.arg_locals().len(), b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()), lt, arr(names), ids, arr(blocks)
        ));
    }
}

fn analyze(tcx: TyCtxt<'_>) -> ControlFlow<(), ()> {
    let krate = rustc_public::local_crate();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    if out.is_empty() {
        return ControlFlow::Continue(());
    }
    let extra = std::env::var("MIRDUMP_DESCEND").unwrap_or_default();
    let mut dc: Vec<String> = extra.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    dc.push(krate.name.clone());
    let mut d = Dump {
        tcx,
        ty_ids: HashMap::new(), tys: vec![], alloc_ids: HashMap::new(), allocs: vec![], seen: HashSet::new(),
        queue: VecDeque::new(), funcs: vec![], vt_seen: HashSet::new(), vtables: vec![], local_name: krate.name.clone(),
        statics: vec![], statics_seen: HashSet::new(), descend_crates: dc,
    };
    let mut generic = vec![];
    let mut roots = vec![];
    let mut consts = vec![];
    for it in rustc_public::all_local_items() {
        let kind = it.kind();
        match kind {
            ItemKind::Fn | ItemKind::Ctor(_) => {
                if it.requires_monomorphization() {
                    generic.push(js(&it.name()));
                } else if let Ok(i) = Instance::try_from(it) {
                    // closures are reached through their parents
                    if matches!(it.ty().kind(), TyKind::RigidTy(RigidTy::FnDef(..))) {
                        let key = d.enqueue(&i);
                        let (f, l0, l1) = span_str(&it.span());
                        roots.push(format!("{{\"key\":{},\"path\":{},\"file\":{},\"l0\":{},\"l1\":{}}}", js(&key), js(&it.name()), js(&f), l0, l1));
                    }
                }
            }
            ItemKind::Static => {
                if let Ok(s) = StaticDef::try_from(it) {
                    d.static_(s);
                }
            }
            ItemKind::Const => {
                consts.push(js(&it.name()));
            }
        }
    }
    while let Some(i) = d.queue.pop_front() {
        d.body(&i);
    }
    // declared ADTs of the crate (names, fields) for coverage listings
    let adts = arr(krate.adts().iter().map(|a| js(&a.name())));
    let s = format!(
        "{{\"crate\":{},\"tys\":{},\"allocs\":{},\"statics\":{},\"vtables\":{},\"generic\":{},\"roots\":{},\"consts\":{},\"adts\":{},\"funcs\":{}}}",
        js(&d.local_name), arr(d.tys.iter().cloned()), arr(d.allocs.iter().cloned()), arr(d.statics.iter().cloned()),
        arr(d.vtables.iter().cloned()), arr(generic), arr(roots), arr(consts), adts, arr(d.funcs.iter().cloned())
    );
    let path = format!("{}/{}.json", out, d.local_name);
    std::fs::write(&path, s).expect("write mir dump");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as the first argument
    args.remove(0);
    let is_probe = args.iter().any(|a| a == "-vV" || a.starts_with("--print")) ;
    let has_crate = args.iter().any(|a| a == "--crate-name");
    if is_probe || !has_crate {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    let r = run_with_tcx!(&args, analyze);
    if r.is_err() {
        std::process::exit(1);
    }
    let _: Option<CrateItem> = None;
}
