//! MIR extractor: compiles one crate with the nightly compiler and dumps, as
//! JSON, every function instance reachable from the crate's `root_*` functions
//! (resolved callees, evaluated constants, type layouts).  Nothing is executed.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, Primitive, Scalar, TagEncoding, VariantsShape};
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateItem;
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<T, F: FnMut(T) -> String>(it: impl IntoIterator<Item = T>, f: F) -> String {
    let v: Vec<String> = it.into_iter().map(f).collect();
    format!("[{}]", v.join(","))
}

#[derive(Default)]
struct Cx {
    types: Vec<String>,
    tmap: HashMap<Ty, usize>,
    fns: BTreeMap<usize, String>,
    fmap: HashMap<Instance, usize>,
    queue: VecDeque<(usize, Instance)>,
    allocs: BTreeMap<usize, String>,
    amap: HashMap<GlobalAlloc_, usize>,
    files: Vec<String>,
    fimap: HashMap<String, usize>,
    stop: HashSet<String>,
    vtables: BTreeMap<(usize, usize), String>,
    locals: Vec<LocalDecl>,
}

type GlobalAlloc_ = rustc_public::mir::alloc::AllocId;

impl Cx {
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(&x) = self.fmap.get(&i) {
            return x;
        }
        let id = self.fmap.len();
        self.fmap.insert(i, id);
        self.queue.push_back((id, i));
        id
    }

    fn alloc_id(&mut self, a: GlobalAlloc_) -> usize {
        if let Some(&x) = self.amap.get(&a) {
            return x;
        }
        let id = self.amap.len();
        self.amap.insert(a, id);
        let g = GlobalAlloc::from(a);
        let s = match &g {
            GlobalAlloc::Memory(al) => format!("{{\"k\":\"mem\",\"v\":{}}}", self.allocation(al)),
            GlobalAlloc::Function(i) => format!("{{\"k\":\"fn\",\"f\":{}}}", self.inst(*i)),
            GlobalAlloc::Static(sd) => match sd.eval_initializer() {
                Ok(al) => format!(
                    "{{\"k\":\"static\",\"name\":{},\"mut\":{},\"v\":{}}}",
                    js(&sd.name()),
                    matches!(al.mutability, rustc_public::mir::Mutability::Mut),
                    self.allocation(&al)
                ),
                Err(_) => format!("{{\"k\":\"static\",\"name\":{},\"v\":null}}", js(&sd.name())),
            },
            GlobalAlloc::VTable(ty, tr) => {
                let t = self.ty(*ty);
                let entries = match tr {
                    Some(tr) => {
                        let trr = tr.clone().skip_binder().with_self_ty(*ty);
                        list(trr.vtable_entries(), |e| match e {
                            VtblEntry::Method(i) => format!("{}", self.inst(i)),
                            _ => "null".to_string(),
                        })
                    }
                    None => "[]".into(),
                };
                format!("{{\"k\":\"vtable\",\"ty\":{},\"e\":{}}}", t, entries)
            }
            GlobalAlloc::TypeId { .. } => "{\"k\":\"typeid\"}".to_string(),
        };
        self.allocs.insert(id, s);
        id
    }

    fn allocation(&mut self, al: &Allocation) -> String {
        let mut hex = String::with_capacity(al.bytes.len() * 2);
        for b in &al.bytes {
            match b {
                Some(b) => {
                    let _ = write!(hex, "{:02x}", b);
                }
                None => hex.push_str("__"),
            }
        }
        let p = list(al.provenance.ptrs.clone(), |(o, p)| format!("[{},{}]", o, self.alloc_id(p.0)));
        format!("[{},{},{}]", js(&hex), p, al.align)
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&x) = self.tmap.get(&t) {
            return x;
        }
        let id = self.types.len();
        self.tmap.insert(t, id);
        self.types.push(String::new());
        let s = self.ty_json(t);
        self.types[id] = s;
        id
    }

    fn prim(p: &Primitive) -> String {
        match p {
            Primitive::Int { length, signed } => format!("[\"i\",{},{}]", length.bits() / 8, signed),
            Primitive::Float { length } => format!("[\"f\",{},false]", length.bits() / 8),
            Primitive::Pointer(_) => "[\"p\",8,false]".into(),
        }
    }

    fn layout(&mut self, t: Ty) -> String {
        // types mentioning a bound lifetime outside a binder have no layout query
        let d = format!("{}", t);
        let named = d.split('\'').skip(1).any(|r| !r.starts_with('_') && !r.starts_with("static") && !r.starts_with('{'));
        if named && d.contains('[') && !d.contains("for<") {
            return "\"lay\":null".into();
        }
        let Ok(l) = t.layout() else { return "\"lay\":null".into() };
        let l = l.shape();
        let offs = match &l.fields {
            FieldsShape::Primitive => "null".to_string(),
            FieldsShape::Union(n) => list(0..n.get(), |_| "0".to_string()),
            FieldsShape::Array { stride, count } => {
                format!("{{\"stride\":{},\"count\":{}}}", stride.bytes(), count)
            }
            FieldsShape::Arbitrary { offsets } => list(offsets.iter(), |o| o.bytes().to_string()),
        };
        let vars = match &l.variants {
            VariantsShape::Empty => "null".to_string(),
            VariantsShape::Single { index } => format!("{{\"single\":{}}}", index.to_index()),
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let (p, vr) = match tag {
                    Scalar::Initialized { value, valid_range } => {
                        (Self::prim(value), format!("[{},{}]", valid_range.start, valid_range.end))
                    }
                    Scalar::Union { value } => (Self::prim(value), "null".into()),
                };
                let enc = match tag_encoding {
                    TagEncoding::Direct => "null".to_string(),
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                        "[{},{},{},{}]",
                        untagged_variant.to_index(),
                        niche_variants.start().to_index(),
                        niche_variants.end().to_index(),
                        niche_start
                    ),
                };
                let vs = list(variants.iter(), |v| list(v.offsets.iter(), |o| o.bytes().to_string()));
                format!(
                    "{{\"tag\":{},\"tagf\":{},\"range\":{},\"niche\":{},\"offs\":{}}}",
                    p, tag_field, vr, enc, vs
                )
            }
        };
        format!(
            "\"lay\":{{\"size\":{},\"align\":{},\"offs\":{},\"vars\":{},\"unsized\":{}}}",
            l.size.bytes(),
            l.abi_align,
            offs,
            vars,
            l.is_unsized()
        )
    }

    fn ty_json(&mut self, t: Ty) -> String {
        let TyKind::RigidTy(r) = t.kind() else {
            return format!("{{\"k\":\"opaque\",\"d\":{}}}", js(&format!("{}", t)));
        };
        let core = match &r {
            RigidTy::Bool => "\"k\":\"bool\"".to_string(),
            RigidTy::Char => "\"k\":\"char\"".to_string(),
            RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{},\"s\":true", i.num_bytes() * 8),
            RigidTy::Uint(i) => format!("\"k\":\"int\",\"bits\":{},\"s\":false", i.num_bytes() * 8),
            RigidTy::Float(f) => format!(
                "\"k\":\"float\",\"bits\":{}",
                match f {
                    FloatTy::F16 => 16,
                    FloatTy::F32 => 32,
                    FloatTy::F64 => 64,
                    FloatTy::F128 => 128,
                }
            ),
            RigidTy::Str => "\"k\":\"str\"".to_string(),
            RigidTy::Never => "\"k\":\"never\"".to_string(),
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0);
                format!("\"k\":\"array\",\"e\":{},\"n\":{}", self.ty(*e), n)
            }
            RigidTy::Pat(e, _) => format!("\"k\":\"pat\",\"e\":{}", self.ty(*e)),
            RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(*e)),
            RigidTy::RawPtr(e, m) => {
                format!("\"k\":\"ptr\",\"raw\":true,\"m\":{},\"e\":{}", *m == Mutability::Mut, self.ty(*e))
            }
            RigidTy::Ref(_, e, m) => {
                format!("\"k\":\"ptr\",\"raw\":false,\"m\":{},\"e\":{}", *m == Mutability::Mut, self.ty(*e))
            }
            RigidTy::Tuple(v) => format!("\"k\":\"tuple\",\"f\":{}", list(v.clone(), |x| self.ty(x).to_string())),
            RigidTy::FnDef(d, a) => {
                let i = Instance::resolve(*d, a).or_else(|_| Instance::resolve_for_fn_ptr(*d, a));
                match i {
                    Ok(i) => format!("\"k\":\"fndef\",\"fn\":{}", self.inst(i)),
                    Err(_) => format!("\"k\":\"fndef\",\"fn\":null,\"d\":{}", js(&d.name())),
                }
            }
            RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".to_string(),
            RigidTy::Closure(_, _) => {
                // Fields are recovered from the layout and the upvar tuple type.
                let n = t.layout().ok().map(|l| l.shape().fields.count()).unwrap_or(0);
                format!("\"k\":\"closure\",\"n\":{}", n)
            }
            RigidTy::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            RigidTy::Adt(def, args) => {
                let kind = def.kind();
                let vars = list(def.variants().into_iter().enumerate(), |(i, v)| {
                    let d = if kind.is_enum() {
                        def.discriminant_for_variant(VariantIdx::to_val(i)).val
                    } else {
                        0
                    };
                    let fs = list(v.fields(), |f| self.ty(f.ty_with_args(args)).to_string());
                    format!("[{},{},{}]", js(&v.name()), js(&d.to_string()), fs)
                });
                format!("\"k\":\"adt\",\"ak\":{},\"name\":{},\"v\":{}", js(&kind.to_string()), js(&def.name()), vars)
            }
            _ => "\"k\":\"other\"".to_string(),
        };
        let lay = self.layout(t);
        format!("{{{},{},\"d\":{}}}", core, lay, js(&format!("{}", t)))
    }

    fn place(&mut self, p: &Place) -> String {
        let pr = list(p.projection.iter(), |e| match e {
            ProjectionElem::Deref => "\"*\"".to_string(),
            ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                format!("[\"c\",{},{},{}]", offset, min_length, from_end)
            }
            ProjectionElem::Subslice { from, to, from_end } => {
                format!("[\"s\",{},{},{}]", from, to, from_end)
            }
            ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
            ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", self.ty(*t)),
        });
        format!("[{},{}]", p.local, pr)
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => format!("[\"k\",{},{}]", t, self.allocation(a)),
            ConstantKind::ZeroSized => format!("[\"k\",{},null]", t),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => format!("[\"k\",{},{}]", t, self.allocation(a)),
                TyConstKind::ZSTValue(_) => format!("[\"k\",{},null]", t),
                _ => format!("[\"k\",{},\"?\"]", t),
            },
            _ => format!("[\"k\",{},\"?\"]", t),
        }
    }

    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", js(&format!("{:?}", r))),
        }
    }

    fn rv(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(k, p) => {
                let fake = matches!(k, RawPtrKind::FakeForPtrMetadata);
                format!("[\"addr\",{},{}]", self.place(p), fake)
            }
            Rvalue::Aggregate(k, ops) => {
                let o = list(ops.iter(), |o| self.op(o));
                match k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",0,null,{}]", o),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",0,null,{}]", o),
                    AggregateKind::Adt(_, v, _, _, f) => format!(
                        "[\"agg\",\"adt\",{},{},{}]",
                        v.to_index(),
                        f.map(|f| f.to_string()).unwrap_or("null".into()),
                        o
                    ),
                    AggregateKind::Closure(..) => format!("[\"agg\",\"closure\",0,null,{}]", o),
                    AggregateKind::RawPtr(t, _) => {
                        let t = self.ty(*t);
                        format!("[\"agg\",\"rawptr\",{},null,{}]", t, o)
                    }
                    _ => format!("[\"agg\",\"other\",0,null,{}]", o),
                }
            }
            Rvalue::BinaryOp(b, x, y) => {
                format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y))
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                format!("[\"chk\",\"{:?}\",{},{}]", b, self.op(x), self.op(y))
            }
            Rvalue::Cast(k, o, t) => {
                if matches!(k, CastKind::PointerCoercion(PointerCoercion::Unsize)) {
                    if let Ok(f) = o.ty(&self.locals) {
                        self.vtable(f, *t);
                    }
                }
                let k = match k {
                    CastKind::PointerCoercion(p) => format!("PC:{:?}", p),
                    k => format!("{:?}", k),
                };
                format!("[\"cast\",{},{},{}]", js(&k), self.op(o), self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => {
                format!("[\"ref\",{},{}]", self.place(p), matches!(k, BorrowKind::Mut { .. }))
            }
            Rvalue::Repeat(o, n) => {
                format!("[\"rep\",{},{}]", self.op(o), n.eval_target_usize().unwrap_or(0))
            }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.op(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
        }
    }

    fn line(&mut self, s: &Span) -> String {
        let f = s.get_filename();
        let f = f.to_string();
        let n = self.fimap.len();
        let id = *self.fimap.entry(f.clone()).or_insert(n);
        if id == n {
            self.files.push(f);
        }
        format!("[{},{}]", id, s.get_lines().start_line)
    }

    /// Method table of an unsizing of a pointer to a concrete type into one to a trait object.
    fn vtable(&mut self, from: Ty, to: Ty) {
        let pointee = |t: &Ty| match t.kind() {
            TyKind::RigidTy(RigidTy::Ref(_, e, _)) | TyKind::RigidTy(RigidTy::RawPtr(e, _)) => Some(e),
            _ => None,
        };
        if let (Some(a), Some(b)) = (pointee(&from), pointee(&to)) {
            if let Some(tr) = b.kind().trait_principal() {
                if a.kind().trait_principal().is_some() {
                    return;
                }
                let key = (self.ty(a), self.ty(b));
                if self.vtables.contains_key(&key) {
                    return;
                }
                self.vtables.insert(key, "[]".into());
                let trr = tr.skip_binder().with_self_ty(a);
                let e = list(trr.vtable_entries(), |e| match e {
                    VtblEntry::Method(i) => format!("{}", self.inst(i)),
                    _ => "null".to_string(),
                });
                self.vtables.insert(key, e);
            }
        }
    }

    fn body(&mut self, b: &Body) -> String {
        self.locals = b.locals().to_vec();
        let locals = list(b.locals().iter(), |l| self.ty(l.ty).to_string());
        let names = {
            let mut v = vec![];
            for d in &b.var_debug_info {
                if let Some(l) = d.local() {
                    v.push(format!("[{},{}]", l, js(&d.name.to_string())));
                }
            }
            format!("[{}]", v.join(","))
        };
        let blocks = list(b.blocks.iter(), |bb| {
            let mut ss = vec![];
            for s in &bb.statements {
                let t = match &s.kind {
                    StatementKind::Assign(p, r) => format!("[\"=\",{},{}]", self.place(p), self.rv(r)),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index())
                    }
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l),
                    StatementKind::StorageLive(l) => format!("[\"live\",{}]", l),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        format!("[\"assume\",{}]", self.op(o))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        format!("[\"copy\",{},{},{}]", self.op(&c.src), self.op(&c.dst), self.op(&c.count))
                    }
                    _ => continue,
                };
                ss.push(t);
            }
            let term = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br = list(targets.branches(), |(v, t)| format!("[{},{}]", v, t));
                    format!("[\"sw\",{},{},{}]", self.op(discr), br, targets.otherwise())
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(b.locals()).ok();
                    let f = match t {
                        Some(t) => {
                            let i = Instance::resolve_drop_in_place(t);
                            if i.is_empty_shim() { "null".into() } else { self.inst(i).to_string() }
                        }
                        None => "null".to_string(),
                    };
                    format!("[\"drop\",{},{},{}]", self.place(place), target, f)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(b.locals()).unwrap();
                    let fid = match fty.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) {
                            Ok(i) => self.inst(i).to_string(),
                            Err(_) => "null".into(),
                        },
                        _ => format!("{}", self.op(func)),
                    };
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        fid,
                        list(args.iter(), |o| self.op(o)),
                        self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into()),
                        self.line(&bb.terminator.source_info.span)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = msg.description().unwrap_or("assert").to_string();
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        self.op(cond),
                        expected,
                        js(&m),
                        target,
                        self.line(&bb.terminator.source_info.span)
                    )
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            format!("[[{}],{}]", ss.join(","), term)
        });
        format!(
            "\"args\":{},\"spread\":{},\"locals\":{},\"names\":{},\"blocks\":{},\"span\":{}",
            b.arg_locals().len(),
            b.spread_arg().map(|l| l.to_string()).unwrap_or("null".into()),
            locals,
            names,
            blocks,
            self.line(&b.span)
        )
    }

    fn func(&mut self, id: usize, i: Instance) {
        let name = i.name().to_string();
        let krate = i.def.krate().name.to_string();
        let targs = list(i.args().0, |a| match a {
            GenericArgKind::Type(t) => self.ty(t).to_string(),
            GenericArgKind::Const(c) => match c.eval_target_usize() {
                Ok(v) => format!("[{}]", v),
                Err(_) => "null".into(),
            },
            GenericArgKind::Lifetime(_) => "null".into(),
        });
        let kind = match i.kind {
            InstanceKind::Item => "item".to_string(),
            InstanceKind::Intrinsic => "intrinsic".to_string(),
            InstanceKind::LlvmIntrinsic => "llvm".to_string(),
            InstanceKind::Virtual { idx } => format!("virtual:{}", idx),
            InstanceKind::Shim => "shim".to_string(),
        };
        let iname = i.intrinsic_name().map(|s| s.to_string()).unwrap_or_default();
        let sig = i.ty().kind().fn_sig().map(|s| s.skip_binder());
        let ret = sig.as_ref().map(|s| self.ty(s.output()).to_string()).unwrap_or("null".into());
        let diverges = sig.as_ref().map(|s| matches!(s.output().kind(), TyKind::RigidTy(RigidTy::Never))).unwrap_or(false);
        let foreign = matches!(i.kind, InstanceKind::Item) && i.is_foreign_item();
        let dname = i.def.name().to_string();
        let stopped = diverges || self.stop.iter().any(|s| dname.ends_with(s.as_str()) || name.starts_with(s.as_str()));
        let body = if stopped || foreign || kind.starts_with("virtual") { None } else { i.body() };
        let b = match &body {
            Some(b) => format!(",{}", self.body(b)),
            None => String::new(),
        };
        let s = format!(
            "{{\"name\":{},\"def\":{},\"crate\":{},\"kind\":{},\"in\":{},\"ret\":{},\"foreign\":{},\"sym\":{},\"targs\":{}{}}}",
            js(&name),
            js(&dname),
            js(&krate),
            js(&kind),
            js(&iname),
            ret,
            foreign,
            if foreign { js(&i.mangled_name()) } else { "\"\"".into() },
            targs,
            b
        );
        self.fns.insert(id, s);
    }
}

fn analyze(out: String, prefix: String, stop: HashSet<String>) -> ControlFlow<(), ()> {
    let mut cx = Cx { stop, ..Default::default() };
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        let name = item.name().to_string();
        let last = name.rsplit("::").next().unwrap().to_string();
        if !last.starts_with(&prefix) {
            continue;
        }
        if let Ok(i) = Instance::try_from(item) {
            let id = cx.inst(i);
            roots.push(format!("{}:{}", js(&name), id));
        }
    }
    // Also list every function item of the analysed crate (for coverage and effect rules).
    while let Some((id, i)) = cx.queue.pop_front() {
        cx.func(id, i);
    }
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\"vtables\":[{}],\"roots\":{{{}}},\"endian\":{},\"types\":[\n{}\n],\"fns\":{{\n{}\n}},\"allocs\":{{{}}},\"files\":{}}}",
        cx.vtables.iter().map(|((a, b), e)| format!("[{},{},{}]", a, b, e)).collect::<Vec<_>>().join(","),
        roots.join(","),
        js(match rustc_public::target::MachineInfo::target_endianness() { rustc_public::target::Endian::Little => "little", rustc_public::target::Endian::Big => "big" }),
        cx.types.join(",\n"),
        cx.fns.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",\n"),
        cx.allocs.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",\n"),
        list(cx.files.iter(), |f| js(f)),
    );
    std::fs::write(&out, s).unwrap();
    let _ = CrateItem::kind;
    ControlFlow::Break(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let out = std::env::var("MIRX_OUT").expect("MIRX_OUT");
    let prefix = std::env::var("MIRX_PREFIX").unwrap_or("root_".into());
    let stop: HashSet<String> =
        std::env::var("MIRX_STOP").unwrap_or_default().split(';').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    args[0] = "rustc".into();
    let r = run!(&args, || analyze(out, prefix, stop));
    match r {
        Ok(()) | Err(rustc_public::CompilerError::Interrupted(())) | Err(rustc_public::CompilerError::Skipped) => {}
        Err(_) => std::process::exit(1),
    }
}
