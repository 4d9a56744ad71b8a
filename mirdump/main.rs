// MIR front end: dumps, as JSON, the resolved and monomorphised MIR of every exported function of
// the analysed crate and of everything it reaches, with types, layouts, constants, ABIs, spans.
// usage: mirdump OUT.json <rustc arguments>
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::*;
use rustc_public::crate_def::CrateDef;
use rustc_public::mir::alloc::*;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::*;
use rustc_public_bridge::IndexedVal;
use std::collections::*;
use std::fmt::Write as _;

#[derive(Clone, Debug)]
enum J { N, B(bool), I(i128), S(String), A(Vec<J>), O(Vec<(&'static str, J)>) }
fn s<T: ToString>(x: T) -> J { J::S(x.to_string()) }
fn i(x: usize) -> J { J::I(x as i128) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(x) => { let _ = write!(o, "{x}"); }
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => { o.push('['); for (k, x) in v.iter().enumerate() { if k > 0 { o.push(','); } x.w(o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (k, (n, x)) in v.iter().enumerate() { if k > 0 { o.push(','); } let _ = write!(o, "\"{n}\":"); x.w(o); } o.push('}'); }
        }
    }
}

const STOP: &[&str] = &[
    "core::panicking", "core::fmt", "std::fmt", "alloc::", "std::io", "std::sys", "std::time", "std::rt", "std::panicking", "std::alloc", "std::thread",
    "chrono::", "core::time", "std::string", "std::env", "std::fs", "core::hash", "std::hash",
    "core::unicode", "core::num::imp", "core::num::dec2flt", "std::num::imp", "std::sync", "std::boxed", "std::vec", "std::collections",
];

struct D {
    types: Vec<J>, tyidx: HashMap<Ty, usize>,
    fns: BTreeMap<String, J>, seen: HashSet<String>, work: Vec<Instance>,
    allocs: BTreeMap<String, J>, files: Vec<String>,
}

impl D {
    fn file(&mut self, f: String) -> usize {
        if let Some(p) = self.files.iter().position(|x| *x == f) { return p; }
        self.files.push(f); self.files.len() - 1
    }
    fn span(&mut self, sp: Span) -> J {
        let f = self.file(sp.get_filename().to_string());
        J::A(vec![i(f), i(sp.get_lines().start_line)])
    }
    fn layout(&mut self, ty: Ty) -> J {
        let Ok(l) = ty.layout() else { return J::N };
        let sh = l.shape();
        let f = match &sh.fields {
            FieldsShape::Arbitrary { offsets } => J::A(offsets.iter().map(|o| i(o.bytes())).collect()),
            _ => J::N,
        };
        let v = match &sh.variants {
            VariantsShape::Multiple { tag, tag_encoding, variants, .. } => {
                let prim = match tag { Scalar::Initialized { value, .. } => value, Scalar::Union { value } => value };
                let (bytes, signed) = match prim { Primitive::Int { length, signed } => (length.bits() / 8, *signed), Primitive::Pointer(_) => (8, false), Primitive::Float { length } => (match length { FloatLength::F16 => 2, FloatLength::F32 => 4, FloatLength::F64 => 8, _ => 16 }, false) };
                let mut o = vec![("bytes", i(bytes)), ("signed", J::B(signed)), ("vars", J::A(variants.iter().map(|v| J::A(v.offsets.iter().map(|o| i(o.bytes())).collect())).collect()))];
                if let TagEncoding::Niche { untagged_variant, niche_variants, niche_start } = tag_encoding {
                    o.push(("niche", J::A(vec![i(untagged_variant.to_index()), i(niche_variants.start().to_index()), i(niche_variants.end().to_index()), s(format!("{niche_start}"))])));
                }
                J::O(o)
            }
            _ => J::N,
        };
        J::O(vec![("size", i(sh.size.bytes())), ("align", i(sh.abi_align as usize)), ("off", f), ("unsized", J::B(sh.is_unsized())), ("enum", v)])
    }
    fn gargs(&mut self, a: &GenericArgs) -> J {
        let mut v = vec![];
        for g in a.0.iter() {
            match g {
                GenericArgKind::Type(t) => v.push(i(self.ty(*t))),
                GenericArgKind::Const(c) => v.push(J::O(vec![("c", c.eval_target_usize().map(|x| J::I(x as i128)).unwrap_or(J::N))])),
                _ => {}
            }
        }
        J::A(v)
    }
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&k) = self.tyidx.get(&t) { return k; }
        let id = self.types.len();
        self.types.push(J::N);
        self.tyidx.insert(t, id);
        let mut o: Vec<(&'static str, J)> = vec![("s", s(format!("{t}")))];
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => o.push(("k", s("bool"))),
                RigidTy::Char => o.push(("k", s("char"))),
                RigidTy::Int(x) => { o.push(("k", s("int"))); o.push(("bits", i(x.num_bytes() * 8))); o.push(("signed", J::B(true))); }
                RigidTy::Uint(x) => { o.push(("k", s("int"))); o.push(("bits", i(x.num_bytes() * 8))); o.push(("signed", J::B(false))); }
                RigidTy::Float(x) => { o.push(("k", s("float"))); o.push(("bits", i(match x { FloatTy::F16 => 16, FloatTy::F32 => 32, FloatTy::F64 => 64, FloatTy::F128 => 128 }))); }
                RigidTy::Adt(def, args) => {
                    o.push(("k", s("adt")));
                    o.push(("name", s(def.name())));
                    o.push(("adt", s(match def.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" })));
                    let ga = self.gargs(&args); o.push(("args", ga));
                    let mut vs = vec![];
                    for v in def.variants_iter() {
                        let mut fs = vec![];
                        for f in v.fields() { let ft = f.ty_with_args(&args); let k = self.ty(ft); fs.push(J::A(vec![s(&f.name), i(k)])); }
                        let d = if def.kind() == AdtKind::Enum { s(def.discriminant_for_variant(v.idx()).val) } else { J::N };
                        vs.push(J::O(vec![("name", s(v.name())), ("discr", d), ("fields", J::A(fs))]));
                    }
                    o.push(("variants", J::A(vs)));
                    let rp = def.repr();
                    o.push(("repr_c", J::B(format!("{rp:?}").contains("c: true"))));
                }
                RigidTy::Str => o.push(("k", s("str"))),
                RigidTy::Array(e, n) => { o.push(("k", s("array"))); let k = self.ty(e); o.push(("elem", i(k))); o.push(("len", n.eval_target_usize().map(|x| J::I(x as i128)).unwrap_or(J::N))); }
                RigidTy::Slice(e) => { o.push(("k", s("slice"))); let k = self.ty(e); o.push(("elem", i(k))); }
                RigidTy::RawPtr(e, m) => { o.push(("k", s("ptr"))); let k = self.ty(e); o.push(("to", i(k))); o.push(("mut", J::B(m == Mutability::Mut))); }
                RigidTy::Ref(_, e, m) => { o.push(("k", s("ref"))); let k = self.ty(e); o.push(("to", i(k))); o.push(("mut", J::B(m == Mutability::Mut))); }
                RigidTy::FnDef(def, args) => { o.push(("k", s("fndef"))); let c = self.callee(def, &args); o.push(("callee", c)); }
                RigidTy::FnPtr(_) => o.push(("k", s("fnptr"))),
                RigidTy::Closure(def, args) => {
                    o.push(("k", s("closure"))); o.push(("name", s(def.name())));
                    if let Ok(inst) = Instance::resolve_closure(def, &args, ClosureKind::FnOnce) { let _ = inst; }
                    // upvars: the last generic argument is their tuple
                    let mut tys: Vec<Ty> = vec![];
                    for g in args.0.iter() { if let GenericArgKind::Type(t) = g { tys.push(*t); } }
                    if let Some(up) = tys.last() { let k = self.ty(*up); o.push(("upvars", i(k))); }
                    let mut keys = vec![];
                    for kind in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                        match Instance::resolve_closure(def, &args, kind) {
                            Ok(inst) => { let key = self.need(inst); keys.push(s(key)); }
                            Err(_) => keys.push(J::N),
                        }
                    }
                    o.push(("bodies", J::A(keys)));
                }
                RigidTy::Tuple(ts) => { o.push(("k", s("tuple"))); let v = ts.iter().map(|t| i(self.ty(*t))).collect(); o.push(("elems", J::A(v))); }
                RigidTy::Never => o.push(("k", s("never"))),
                RigidTy::Dynamic(..) => o.push(("k", s("dyn"))),
                RigidTy::Pat(e, _) => { o.push(("k", s("pat"))); let k = self.ty(e); o.push(("base", i(k))); }
                _ => o.push(("k", s("other"))),
            },
            _ => o.push(("k", s("unresolved"))),
        }
        let l = self.layout(t);
        o.push(("layout", l));
        self.types[id] = J::O(o);
        id
    }
    /// growable vectors and strings are followed down to their allocation, which the analyser models
    fn followed(name: &str) -> bool {
        let n = name.trim_start_matches('<').trim_start_matches('&').trim_start_matches("mut ");
        (["std::vec::", "alloc::vec::", "std::string::String::", "std::string::String as std::iter::", "std::string::String as std::convert::From<", "std::string::String as std::ops::", "std::string::String as std::clone", "std::string::String as std::borrow",
          "std::slice::<impl [T]>", "alloc::slice::", "std::string::String as std::default", "std::string::String as std::fmt::Write", "std::string::Drain", "std::str::<impl str>", "alloc::str::", "std::result::Result::", "std::string::FromCharIterSpec", "std::string::String as std::string::", "std::borrow::Cow", "std::string::IntoChars"].iter().any(|p| n.starts_with(p))
         || n.contains(" as std::vec::") || n.contains(" as alloc::vec::") || n.contains(" as alloc::slice::") || n.contains(" as std::string::") || n.contains("ConvertVec"))
        && !n.contains("raw_vec") && (n.contains("_lossy") || !n.contains("from_utf8") && !n.contains("from_utf16"))
    }
    fn stop(name: &str) -> bool {
        if Self::followed(name) { return false; }
        let n = name.trim_start_matches('<').trim_start_matches('&').trim_start_matches("mut ");
        STOP.iter().any(|p| n.starts_with(p))
    }
    fn need(&mut self, inst: Instance) -> String {
        let key = inst.mangled_name().to_string();
        if self.seen.insert(key.clone()) { self.work.push(inst); }
        key
    }
    fn callee(&mut self, def: FnDef, args: &GenericArgs) -> J {
        let mut o = vec![("def", s(def.name()))];
        let ga = self.gargs(args);
        o.push(("args", ga));
        match Instance::resolve(def, args) {
            Ok(inst) => {
                o.push(("name", s(inst.name())));
                o.push(("idef", s(inst.def.name())));
                o.push(("kind", s(format!("{:?}", inst.kind))));
                if let Some(n) = inst.intrinsic_name() { o.push(("intr", s(n))); }
                o.push(("foreign", J::B(inst.is_foreign_item())));
                let ia = inst.args(); let ga = self.gargs(&ia); o.push(("iargs", ga));
                let key = self.need(inst);
                o.push(("key", s(key)));
            }
            Err(_) => o.push(("key", J::N)),
        }
        J::O(o)
    }
    fn alloc(&mut self, id: AllocId) -> String {
        let key = format!("{id:?}");
        if self.allocs.contains_key(&key) { return key; }
        self.allocs.insert(key.clone(), J::N);
        let g = GlobalAlloc::from(id);
        let j = match g {
            GlobalAlloc::Function(inst) => { let n = inst.name(); let d = inst.def.name(); let k = self.need(inst); J::O(vec![("k", s("fn")), ("key", s(k)), ("name", s(n)), ("idef", s(d))]) }
            GlobalAlloc::Static(sd) => J::O(vec![("k", s("static")), ("name", s(sd.name()))]),
            GlobalAlloc::Memory(a) => { let d = self.alloc_data(&a); J::O(vec![("k", s("mem")), ("data", d)]) }
            GlobalAlloc::VTable(t, _) => J::O(vec![("k", s("vtable")), ("ty", s(format!("{t}")))]),
            _ => J::O(vec![("k", s("other"))]),
        };
        self.allocs.insert(key.clone(), j);
        key
    }
    fn alloc_data(&mut self, a: &Allocation) -> J {
        let b = a.bytes.iter().map(|x| match x { Some(v) => J::I(*v as i128), None => J::N }).collect();
        let p = a.provenance.ptrs.iter().map(|(o, p)| { let k = self.alloc(p.0); J::A(vec![i(*o as usize), s(k)]) }).collect();
        J::O(vec![("bytes", J::A(b)), ("prov", J::A(p))])
    }
    fn cst(&mut self, c: &MirConst) -> J {
        let t = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => { let d = self.alloc_data(a); J::O(vec![("ty", i(t)), ("alloc", d)]) }
            ConstantKind::ZeroSized => J::O(vec![("ty", i(t)), ("zst", J::B(true))]),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => { let d = self.alloc_data(a); J::O(vec![("ty", i(t)), ("alloc", d)]) }
                TyConstKind::ZSTValue(_) => J::O(vec![("ty", i(t)), ("zst", J::B(true))]),
                _ => J::O(vec![("ty", i(t)), ("opaque", s(format!("{tc:?}")))]),
            },
            k => J::O(vec![("ty", i(t)), ("opaque", s(format!("{k:?}")))]),
        }
    }
    fn place(&mut self, p: &Place) -> J {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => { let k = self.ty(*t); J::A(vec![s("f"), i(*f), i(k)]) }
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(*l)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("ci"), i(*offset as usize), i(*min_length as usize), J::B(*from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("ss"), i(*from as usize), i(*to as usize), J::B(*from_end)]),
                ProjectionElem::Downcast(x) => J::A(vec![s("d"), i(x.to_index())]),
                ProjectionElem::OpaqueCast(t) => { let k = self.ty(*t); J::A(vec![s("oc"), i(k)]) }
            });
        }
        J::A(vec![i(p.local), J::A(v)])
    }
    fn op(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => { let x = self.place(p); J::O(vec![("copy", x)]) }
            Operand::Move(p) => { let x = self.place(p); J::O(vec![("move", x)]) }
            Operand::Constant(c) => { let x = self.cst(&c.const_); J::O(vec![("const", x)]) }
            Operand::RuntimeChecks(r) => J::O(vec![("rtc", s(format!("{r:?}")))]),
        }
    }
    fn rv(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> J {
        let ty = r.ty(locals).ok().map(|t| i(self.ty(t))).unwrap_or(J::N);
        let mut o = match r {
            Rvalue::AddressOf(k, p) => { let x = self.place(p); vec![("r", s("addr")), ("mut", J::B(matches!(k, RawPtrKind::Mut))), ("p", x)] }
            Rvalue::Ref(_, k, p) => { let x = self.place(p); vec![("r", s("ref")), ("mut", J::B(matches!(k, BorrowKind::Mut { .. }))), ("p", x)] }
            Rvalue::Reborrow(_, m, p) => { let x = self.place(p); vec![("r", s("reborrow")), ("mut", J::B(*m == Mutability::Mut)), ("p", x)] }
            Rvalue::Aggregate(k, ops) => {
                let v = ops.iter().map(|x| self.op(x)).collect();
                let mut b = vec![("r", s("agg")), ("ops", J::A(v))];
                match k {
                    AggregateKind::Adt(_, vi, _, _, fi) => { b.push(("variant", i(vi.to_index()))); b.push(("ufield", fi.map(|x| i(x)).unwrap_or(J::N))); b.push(("kind", s("adt"))); }
                    AggregateKind::Array(_) => b.push(("kind", s("array"))),
                    AggregateKind::Tuple => b.push(("kind", s("tuple"))),
                    AggregateKind::Closure(..) => b.push(("kind", s("closure"))),
                    AggregateKind::RawPtr(..) => b.push(("kind", s("rawptr"))),
                    _ => b.push(("kind", s("other"))),
                }
                b
            }
            Rvalue::BinaryOp(b, x, y) => { let (x, y) = (self.op(x), self.op(y)); vec![("r", s("bin")), ("op", s(format!("{b:?}"))), ("a", x), ("b", y)] }
            Rvalue::CheckedBinaryOp(b, x, y) => { let (x, y) = (self.op(x), self.op(y)); vec![("r", s("cbin")), ("op", s(format!("{b:?}"))), ("a", x), ("b", y)] }
            Rvalue::UnaryOp(u, x) => { let x = self.op(x); vec![("r", s("un")), ("op", s(format!("{u:?}"))), ("a", x)] }
            Rvalue::Cast(k, x, _) => { let fty = x.ty(locals).ok().map(|t| i(self.ty(t))).unwrap_or(J::N); let x = self.op(x); vec![("r", s("cast")), ("ck", s(format!("{k:?}"))), ("a", x), ("from", fty)] }
            Rvalue::CopyForDeref(p) => { let x = self.place(p); vec![("r", s("cfd")), ("p", x)] }
            Rvalue::Discriminant(p) => { let x = self.place(p); vec![("r", s("discr")), ("p", x)] }
            Rvalue::Len(p) => { let x = self.place(p); vec![("r", s("len")), ("p", x)] }
            Rvalue::Repeat(x, n) => { let x = self.op(x); vec![("r", s("repeat")), ("a", x), ("n", n.eval_target_usize().map(|x| J::I(x as i128)).unwrap_or(J::N))] }
            Rvalue::ThreadLocalRef(c) => vec![("r", s("tls")), ("name", s(c.name()))],
            Rvalue::Use(x, _) => { let x = self.op(x); vec![("r", s("use")), ("a", x)] }
        };
        o.push(("ty", ty));
        J::O(o)
    }
    fn msg(&mut self, m: &AssertMessage) -> J { s(match m {
        AssertMessage::BoundsCheck { .. } => "index out of bounds".to_string(),
        AssertMessage::Overflow(op, ..) => format!("arithmetic overflow in {op:?}"),
        AssertMessage::OverflowNeg(..) => "overflow in negation".into(),
        AssertMessage::DivisionByZero(..) => "division by zero".into(),
        AssertMessage::RemainderByZero(..) => "remainder by zero".into(),
        AssertMessage::MisalignedPointerDereference { .. } => "UB:misaligned".into(),
        AssertMessage::NullPointerDereference => "UB:nullderef".into(),
        AssertMessage::NullReferenceConstructed => "UB:nullref".into(),
        _ => "UB:other".into(),
    }) }
    fn body(&mut self, b: &Body) -> J {
        let locals: Vec<J> = b.locals().iter().map(|l| i(self.ty(l.ty))).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for x in &bb.statements {
                let sp = self.span(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(p, r) => { let (p, r) = (self.place(p), self.rv(r, b.locals())); st.push(J::O(vec![("t", s("=")), ("p", p), ("v", r), ("sp", sp)])); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); st.push(J::O(vec![("t", s("setd")), ("p", p), ("v", i(variant_index.to_index())), ("sp", sp)])); }
                    StatementKind::StorageDead(l) => st.push(J::O(vec![("t", s("dead")), ("l", i(*l))])),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => { let (a, d, n) = (self.op(&c.src), self.op(&c.dst), self.op(&c.count)); st.push(J::O(vec![("t", s("copy")), ("src", a), ("dst", d), ("n", n), ("sp", sp)])); }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => {}
                    _ => {}
                }
            }
            let sp = self.span(bb.terminator.source_info.span);
            let mut t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => vec![("t", s("goto")), ("to", i(*target))],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.op(discr);
                    let dt = discr.ty(b.locals()).ok().map(|t| i(self.ty(t))).unwrap_or(J::N);
                    let v = targets.branches().map(|(a, c)| J::A(vec![s(a), i(c)])).collect();
                    vec![("t", s("switch")), ("d", d), ("dty", dt), ("br", J::A(v)), ("else", i(targets.otherwise()))]
                }
                TerminatorKind::Return => vec![("t", s("return"))],
                TerminatorKind::Unreachable => vec![("t", s("unreachable"))],
                TerminatorKind::Resume => vec![("t", s("resume"))],
                TerminatorKind::Abort => vec![("t", s("abort"))],
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(b.locals()).ok();
                    let nd = ty.map(|t| !Instance::resolve_drop_in_place(t).is_empty_shim()).unwrap_or(true);
                    let k = ty.map(|t| i(self.ty(t))).unwrap_or(J::N);
                    let p = self.place(place);
                    let g = if nd { ty.map(|t| { let k = self.need(Instance::resolve_drop_in_place(t)); s(k) }).unwrap_or(J::N) } else { J::N };
                    vec![("t", s("drop")), ("p", p), ("ty", k), ("nonempty", J::B(nd)), ("glue", g), ("to", i(*target))]
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(b.locals()).ok().map(|t| i(self.ty(t))).unwrap_or(J::N);
                    let f = self.op(func);
                    let a = args.iter().map(|x| self.op(x)).collect();
                    let at = args.iter().map(|x| x.ty(b.locals()).ok().map(|t| i(self.ty(t))).unwrap_or(J::N)).collect();
                    let d = self.place(destination);
                    let dty = destination.ty(b.locals()).ok().map(|t| i(self.ty(t))).unwrap_or(J::N);
                    vec![("t", s("call")), ("f", f), ("fty", fty), ("args", J::A(a)), ("atys", J::A(at)), ("dest", d), ("dty", dty), ("to", target.map(|x| i(x)).unwrap_or(J::N))]
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond); let m = self.msg(msg);
                    vec![("t", s("assert")), ("c", c), ("exp", J::B(*expected)), ("msg", m), ("to", i(*target))]
                }
                TerminatorKind::InlineAsm { .. } => vec![("t", s("asm"))],
            };
            t.push(("sp", sp));
            blocks.push(J::O(vec![("s", J::A(st)), ("t", J::O(t))]));
        }
        let names = b.var_debug_info.iter().filter_map(|v| v.local().map(|l| J::A(vec![i(l), s(&v.name)]))).collect();
        J::O(vec![("locals", J::A(locals)), ("argc", i(b.arg_locals().len())), ("spread", b.spread_arg().map(|x| i(x)).unwrap_or(J::N)), ("names", J::A(names)), ("blocks", J::A(blocks))])
    }
    fn one(&mut self, inst: Instance) {
        let key = inst.mangled_name().to_string();
        let name = inst.name().to_string();
        let idef = inst.def.name().to_string();
        let krate = inst.def.krate();
        let local = krate.is_local;
        let mut o = vec![("name", s(&name)), ("idef", s(&idef)), ("krate", s(&krate.name)), ("local", J::B(local)), ("kind", s(format!("{:?}", inst.kind)))];
        if let Some(n) = inst.intrinsic_name() { o.push(("intr", s(n))); }
        if matches!(inst.kind, InstanceKind::Shim) { let ia = inst.args(); let ga = self.gargs(&ia); o.push(("iargs", ga)); }
        if matches!(inst.kind, InstanceKind::Item) && idef.rsplit("::").next().map_or(false, |x| x.starts_with(|c: char| c.is_ascii_uppercase())) {
            // a constructor of a tuple struct or variant used as a function
            if let Some(sig) = inst.ty().kind().fn_sig() { let k = self.ty(sig.skip_binder().output()); o.push(("ctor", i(k))); }
        }
        let sp = self.span(inst.def.span()); o.push(("sp", sp));
        let stop = !local && (Self::stop(&idef) || Self::stop(&name) || krate.name == "chrono" || krate.name == "alloc" && !Self::followed(&name) && !Self::followed(&idef));
        if !stop && inst.has_body() && !inst.is_foreign_item() {
            if let Some(b) = inst.body() { let j = self.body(&b); o.push(("body", j)); }
        }
        self.fns.insert(key, J::O(o));
    }
}

fn main() {
    let mut a: Vec<String> = std::env::args().collect();
    let out = a.remove(1);
    // used as RUSTC_WORKSPACE_WRAPPER: argv = [wrapper, OUT?..]; plain use: mirdump OUT rustc-args
    let r = run!(&a, || {
        let mut d = D { types: vec![], tyidx: HashMap::new(), fns: BTreeMap::new(), seen: HashSet::new(), work: vec![], allocs: BTreeMap::new(), files: vec![] };
        let mut exports = vec![];
        let mut statics = vec![];
        for it in all_local_items() {
            match it.kind() {
                ItemKind::Fn => {
                    let attrs_exported = |n: &str| !(n.starts_with("_R") || n.starts_with("_ZN"));
                    if it.requires_monomorphization() { continue; }
                    if let Ok(inst) = Instance::try_from(it) {
                        let m = inst.mangled_name().to_string();
                        if attrs_exported(&m) {
                            let mut o = vec![("sym", s(&m)), ("name", s(inst.name()))];
                            if let Some(TyKind::RigidTy(RigidTy::FnDef(def, _))) = Some(inst.ty().kind()) {
                                let sig = def.fn_sig().skip_binder();
                                o.push(("abi", s(format!("{:?}", sig.abi))));
                                let ins = sig.inputs().iter().map(|t| i(d.ty(*t))).collect();
                                o.push(("inputs", J::A(ins)));
                                let k = d.ty(sig.output()); o.push(("output", i(k)));
                            }
                            if let Ok(f) = inst.fn_abi() { o.push(("conv", s(format!("{:?}", f.conv)))); }
                            let sp = d.span(it.span()); o.push(("sp", sp));
                            exports.push(J::O(o));
                        }
                        d.need(inst);
                    }
                }
                ItemKind::Static => {
                    let sd = StaticDef::try_from(it).unwrap();
                    let t = d.ty(sd.ty());
                    let data = match sd.eval_initializer() { Ok(a) => { let m = J::B(a.mutability == Mutability::Mut); let x = d.alloc_data(&a); J::A(vec![m, x]) }, Err(_) => J::N };
                    let sp = d.span(sd.span());
                    let sym = Instance::from(sd).mangled_name().to_string();
                    statics.push(J::O(vec![("name", s(sd.name())), ("sym", s(sym)), ("ty", i(t)), ("data", data), ("sp", sp)]));
                }
                _ => {}
            }
        }
        while let Some(x) = d.work.pop() { d.one(x); if d.fns.len() > 6000 { break; } }
        let mut o = String::new();
        o.push_str("{\"exports\":"); J::A(exports).w(&mut o);
        o.push_str(",\n\"statics\":"); J::A(statics).w(&mut o);
        o.push_str(",\n\"types\":"); J::A(d.types.clone()).w(&mut o);
        o.push_str(",\n\"files\":"); J::A(d.files.iter().map(|x| s(x)).collect()).w(&mut o);
        o.push_str(",\n\"allocs\":{");
        for (k, (n, v)) in d.allocs.iter().enumerate() { if k > 0 { o.push(','); } s(n).w(&mut o); o.push(':'); v.w(&mut o); }
        o.push_str("},\n\"fns\":{");
        for (k, (n, v)) in d.fns.iter().enumerate() { if k > 0 { o.push_str(",\n"); } s(n).w(&mut o); o.push(':'); v.w(&mut o); }
        o.push_str("}}\n");
        std::fs::write(&out, o).unwrap();
        std::ops::ControlFlow::<()>::Continue(())
    });
    if r.is_err() { std::process::exit(1); }
}
