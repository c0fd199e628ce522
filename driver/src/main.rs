// A rustc driver that writes the resolved, monomorphic MIR of a binary crate as JSON.
//
// It is used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`: argv[1] is the real rustc.
// When SFX_MIR_OUT is set and the crate being compiled is the one named by SFX_CRATE, every
// instance reachable from `main` is written to SFX_MIR_OUT; bodies are included for the local
// crate and for the small combinator modules of core/alloc/std listed in `descend`.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, Error};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dump {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    ty_queue: VecDeque<Ty>,
    insts: HashMap<Instance, usize>,
    queue: VecDeque<Instance>,
    inst_order: Vec<Instance>,
    adts: HashMap<String, String>,
}

/// May the engine look inside this non-local instance?
fn descend(name: &str, krate: &str) -> bool {
    if !(krate == "core" || krate == "alloc" || krate == "std") {
        return false;
    }
    const P: &[&str] = &[
        "std::option::Option::", "std::result::Result::", "<std::option::Option<", "<std::result::Result<",
        "std::ops::", "<std::ops::", "std::convert::", "<bool>::", "std::bool::", "core::bool::",
        "std::cmp::Ordering::", "<std::cmp::Ordering", "std::cmp::Ord::", "std::cmp::PartialOrd::",
        "std::mem::take", "std::mem::replace", "std::mem::swap", "std::iter::",
        "std::collections::HashMap::", "std::collections::hash_map::", "std::collections::btree_map::",
        "std::borrow::Cow", "std::num::", "core::num::", "<&", "std::boxed::Box",
        "std::cmp::", "std::vec::from_elem", "std::str::", "core::str::", "core::slice::", "std::slice::",
        "std::fmt::Arguments", "<fn", "<[closure", "<{closure", "<std::iter::",
    ];
    P.iter().any(|p| name.starts_with(p)) || name.contains("as std::ops::Fn") || name.contains("as std::convert::")
        || name.contains("as std::ops::Try") || name.contains("as std::ops::FromResidual")
        || name.contains("as std::iter::IntoIterator")
}

impl Dump {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let s = self.ty_desc(t);
        self.ty_out[i] = s;
        i
    }

    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for x in &a.0 {
            match x {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(
                    c.eval_target_usize().map(|n| format!("{{\"const\":{n}}}")).unwrap_or("null".into()),
                ),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        format!("[{}]", v.join(","))
    }

    fn adt_name(&mut self, d: AdtDef) -> String {
        let n = d.name();
        if !self.adts.contains_key(&n) {
            self.adts.insert(n.clone(), String::new());
            let mut vs = vec![];
            let is_enum = d.kind() == AdtKind::Enum;
            for v in d.variants() {
                let fs: Vec<String> = v.fields().iter().map(|f| esc(&f.name)).collect();
                let disc = if is_enum { d.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                vs.push(format!("{{\"name\":{},\"fields\":[{}],\"discr\":{}}}", esc(&v.name()), fs.join(","), esc(&disc)));
            }
            let s = format!(
                "{{\"kind\":\"{}\",\"local\":{},\"variants\":[{}]}}",
                d.kind(),
                d.krate().is_local,
                vs.join(",")
            );
            self.adts.insert(n.clone(), s);
        }
        n
    }

    fn ty_desc(&mut self, t: Ty) -> String {
        let k = t.kind();
        let s = esc(&format!("{t}"));
        let TyKind::RigidTy(r) = k else {
            return format!("{{\"k\":\"other\",\"s\":{s}}}");
        };
        match r {
            RigidTy::Bool => "{\"k\":\"bool\"}".into(),
            RigidTy::Char => "{\"k\":\"char\"}".into(),
            RigidTy::Int(_) => format!("{{\"k\":\"int\",\"s\":{s}}}"),
            RigidTy::Uint(_) => format!("{{\"k\":\"uint\",\"s\":{s}}}"),
            RigidTy::Float(_) => format!("{{\"k\":\"float\",\"s\":{s}}}"),
            RigidTy::Str => "{\"k\":\"str\"}".into(),
            RigidTy::Never => "{\"k\":\"never\"}".into(),
            RigidTy::Adt(d, a) => {
                let n = self.adt_name(d);
                let a = self.args(&a);
                format!("{{\"k\":\"adt\",\"name\":{},\"args\":{a},\"s\":{s}}}", esc(&n))
            }
            RigidTy::Array(e, n) => {
                let e = self.ty(e);
                format!("{{\"k\":\"array\",\"e\":{e},\"n\":{}}}", n.eval_target_usize().unwrap_or(0))
            }
            RigidTy::Slice(e) => format!("{{\"k\":\"slice\",\"e\":{}}}", self.ty(e)),
            RigidTy::RawPtr(e, _) => format!("{{\"k\":\"ptr\",\"e\":{}}}", self.ty(e)),
            RigidTy::Ref(_, e, m) => {
                format!("{{\"k\":\"ref\",\"e\":{},\"mut\":{}}}", self.ty(e), m == Mutability::Mut)
            }
            RigidTy::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"e\":[{}]}}", v.join(","))
            }
            RigidTy::FnDef(d, a) => {
                let inst = Instance::resolve(d, &a).ok().map(|i| self.inst(i).to_string()).unwrap_or("null".into());
                let ar = self.args(&a);
                format!("{{\"k\":\"fndef\",\"name\":{},\"args\":{ar},\"inst\":{inst}}}", esc(&d.name()))
            }
            RigidTy::Closure(d, a) => {
                let inst = Instance::resolve_closure(d, &a, ClosureKind::FnMut)
                    .or_else(|_| Instance::resolve_closure(d, &a, ClosureKind::FnOnce))
                    .ok()
                    .map(|i| self.inst(i).to_string())
                    .unwrap_or("null".into());
                format!("{{\"k\":\"closure\",\"name\":{},\"inst\":{inst}}}", esc(&d.name()))
            }
            RigidTy::FnPtr(_) => format!("{{\"k\":\"fnptr\",\"s\":{s}}}"),
            RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{s}}}"),
            _ => format!("{{\"k\":\"other\",\"s\":{s}}}"),
        }
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(n) = self.insts.get(&i) {
            return *n;
        }
        let n = self.inst_order.len();
        self.insts.insert(i, n);
        self.inst_order.push(i);
        self.queue.push_back(i);
        n
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{l}]"),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{offset},{min_length},{from_end}]")
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{from},{to},{from_end}]"),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", self.ty(*t)),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", esc(&format!("{r:?}"))),
        }
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.alloc(a, 0, c.ty(), 0),
            ConstantKind::ZeroSized => "{\"zst\":1}".to_string(),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.alloc(a, 0, *t, 0),
                _ => "null".into(),
            },
            _ => "null".into(),
        };
        format!("{{\"t\":{t},\"v\":{v}}}")
    }

    fn uint(a: &Allocation, off: usize, n: usize) -> Option<u128> {
        a.read_partial_uint(off..off + n).ok()
    }

    fn ptr(&self, a: &Allocation, off: usize) -> Option<GlobalAlloc> {
        a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| GlobalAlloc::from(p.0))
    }

    fn alloc(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        self.alloc_(a, off, t, depth).unwrap_or_else(|| "null".into())
    }

    fn alloc_(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> Option<String> {
        if depth > 12 {
            return None;
        }
        let TyKind::RigidTy(r) = t.kind() else { return None };
        let shape = t.layout().ok()?.shape();
        let size = shape.size.bytes();
        Some(match r {
            RigidTy::Bool => format!("{{\"bool\":{}}}", Self::uint(a, off, 1)? == 1),
            RigidTy::Char => {
                let c = char::from_u32(Self::uint(a, off, 4)? as u32)?;
                format!("{{\"char\":{}}}", esc(&c.to_string()))
            }
            RigidTy::Uint(_) => format!("{{\"int\":\"{}\"}}", Self::uint(a, off, size)?),
            RigidTy::Int(_) => {
                let u = Self::uint(a, off, size)?;
                let bits = size * 8;
                let s = if bits < 128 && (u >> (bits - 1)) & 1 == 1 { u as i128 - (1i128 << bits) } else { u as i128 };
                format!("{{\"int\":\"{s}\"}}")
            }
            RigidTy::Float(FloatTy::F64) => {
                format!("{{\"float\":\"{:?}\"}}", f64::from_bits(Self::uint(a, off, 8)? as u64))
            }
            RigidTy::Float(FloatTy::F32) => {
                format!("{{\"float\":\"{:?}\"}}", f32::from_bits(Self::uint(a, off, 4)? as u32))
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let g = self.ptr(a, off);
                let ek = e.kind();
                match (g, ek) {
                    (Some(GlobalAlloc::Memory(m)), TyKind::RigidTy(RigidTy::Str)) => {
                        let n = Self::uint(a, off + 8, 8)? as usize;
                        let o = Self::uint(a, off, 8)? as usize;
                        let b: Vec<u8> = m.bytes[o..o + n].iter().map(|b| b.unwrap_or(0)).collect();
                        format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(&b)))
                    }
                    (Some(GlobalAlloc::Memory(m)), TyKind::RigidTy(RigidTy::Slice(et))) => {
                        let n = Self::uint(a, off + 8, 8)? as usize;
                        let o = Self::uint(a, off, 8)? as usize;
                        let es = et.layout().ok()?.shape().size.bytes();
                        let v: Vec<String> = (0..n).map(|i| self.alloc(&m, o + i * es, et, depth + 1)).collect();
                        format!("{{\"ref\":{{\"arr\":[{}]}}}}", v.join(","))
                    }
                    (Some(GlobalAlloc::Memory(m)), _) => {
                        let o = Self::uint(a, off, 8)? as usize;
                        let x = self.alloc(&m, o, e, depth + 1);
                        format!("{{\"ref\":{x}}}")
                    }
                    (Some(GlobalAlloc::Function(i)), _) => format!("{{\"fnptr\":{}}}", self.inst(i)),
                    (Some(GlobalAlloc::Static(d)), _) => format!("{{\"static\":{}}}", esc(&d.name())),
                    (None, TyKind::RigidTy(RigidTy::Str)) => "{\"str\":\"\"}".into(),
                    (None, TyKind::RigidTy(RigidTy::Slice(_))) => "{\"ref\":{\"arr\":[]}}".into(),
                    (None, _) if e.layout().ok()?.shape().size.bytes() == 0 => {
                        let x = self.alloc(a, 0, e, depth + 1);
                        format!("{{\"ref\":{x}}}")
                    }
                    _ => return None,
                }
            }
            RigidTy::FnPtr(_) => match self.ptr(a, off) {
                Some(GlobalAlloc::Function(i)) => format!("{{\"fnptr\":{}}}", self.inst(i)),
                _ => return None,
            },
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().ok()? as usize;
                let es = e.layout().ok()?.shape().size.bytes();
                let is_u8 = matches!(e.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8)));
                if is_u8 {
                    let b: Vec<String> = (0..n).map(|i| a.bytes[off + i].unwrap_or(0).to_string()).collect();
                    format!("{{\"bytes\":[{}]}}", b.join(","))
                } else {
                    let v: Vec<String> = (0..n).map(|i| self.alloc(a, off + i * es, e, depth + 1)).collect();
                    format!("{{\"arr\":[{}]}}", v.join(","))
                }
            }
            RigidTy::Tuple(ts) => {
                let FieldsShape::Arbitrary { offsets } = &shape.fields else {
                    return Some("{\"tuple\":[]}".into());
                };
                let mut v = vec![];
                for (i, t) in ts.iter().enumerate() {
                    v.push(self.alloc(a, off + offsets[i].bytes(), *t, depth + 1));
                }
                format!("{{\"tuple\":[{}]}}", v.join(","))
            }
            RigidTy::Adt(d, args) => {
                let name = self.adt_name(d);
                let (vi, offs): (usize, Vec<usize>) = match &shape.variants {
                    VariantsShape::Single { index } => {
                        let o = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                            _ => vec![0; d.variants()[index.to_index()].fields().len()],
                        };
                        (index.to_index(), o)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let FieldsShape::Arbitrary { offsets } = &shape.fields else { return None };
                        let to = off + offsets[*tag_field].bytes();
                        let tsz = tag_size(tag)?;
                        let has_ptr = self.ptr(a, to).is_some();
                        let raw = Self::uint(a, to, tsz)?;
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let mut r = None;
                                for (i, v) in d.variants().iter().enumerate() {
                                    let dv = d.discriminant_for_variant(v.idx()).val;
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    if dv & mask == raw {
                                        r = Some(i);
                                    }
                                }
                                r?
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                let rel = raw.wrapping_sub(*niche_start) & mask;
                                let lo = niche_variants.start().to_index() as u128;
                                let hi = niche_variants.end().to_index() as u128;
                                if !has_ptr && rel <= hi - lo { (lo + rel) as usize } else { untagged_variant.to_index() }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                    }
                    VariantsShape::Empty => return None,
                };
                let mut v = vec![];
                for (i, f) in d.variants()[vi].fields().iter().enumerate() {
                    let ft = f.ty_with_args(&args);
                    v.push(self.alloc(a, off + offs[i], ft, depth + 1));
                }
                format!("{{\"adt\":{},\"variant\":{vi},\"fields\":[{}]}}", esc(&name), v.join(","))
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => "{\"zst\":1}".into(),
            _ => return None,
        })
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", *m == Mutability::Mut, self.place(p)),
            Rvalue::Ref(_, k, p) => {
                format!("[\"ref\",{},{}]", k.to_mutable_lossy() == Mutability::Mut, self.place(p))
            }
            Rvalue::AddressOf(_, p) => format!("[\"ref\",true,{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let o = format!("[{}]", o.join(","));
                match k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",{o}]"),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",{o}]"),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let n = self.adt_name(*d);
                        let t = self.ty(d.ty_with_args(a));
                        let f = f.map(|x| x.to_string()).unwrap_or("null".into());
                        format!("[\"agg\",\"adt\",{o},{},{},{t},{f}]", esc(&n), v.to_index())
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = self.ty(Ty::new_closure(*d, a.clone()));
                        format!("[\"agg\",\"closure\",{o},{t}]")
                    }
                    _ => format!("[\"agg\",\"other\",{o}]"),
                }
            }
            Rvalue::BinaryOp(b, x, y) => {
                format!("[\"bin\",\"{b:?}\",{},{}]", self.operand(x), self.operand(y))
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                format!("[\"cbin\",\"{b:?}\",{},{}]", self.operand(x), self.operand(y))
            }
            Rvalue::UnaryOp(u, x) => format!("[\"un\",\"{u:?}\",{}]", self.operand(x)),
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{t}]", esc(&format!("{k:?}")), self.operand(o))
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => {
                format!("[\"repeat\",{},{}]", self.operand(o), n.eval_target_usize().unwrap_or(0))
            }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                let line = s.source_info.span.get_lines().start_line;
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let r = self.rvalue(r);
                        ss.push(format!("[\"=\",{},{r},{line}]", self.place(p)))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(format!("[\"sd\",{},{},{line}]", self.place(place), variant_index.to_index()))
                    }
                    _ => {}
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{target}]"),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.branches().map(|(a, b)| format!("[\"{a}\",{b}]")).collect();
                    format!("[\"switch\",{},[{}],{}]", self.operand(discr), v.join(","), targets.otherwise())
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{target}]", self.place(place)),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    let at: Vec<String> = args
                        .iter()
                        .map(|o| o.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into()))
                        .collect();
                    let t = target.map(|t| t.to_string()).unwrap_or("null".into());
                    format!(
                        "[\"call\",{f},[{}],{},{t},[{}]]",
                        a.join(","),
                        self.place(destination),
                        at.join(",")
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops): (String, Vec<&Operand>) = match msg {
                        AssertMessage::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                        AssertMessage::Overflow(op, a, b) => (format!("overflow:{op:?}"), vec![a, b]),
                        AssertMessage::OverflowNeg(a) => ("overflowneg".into(), vec![a]),
                        AssertMessage::DivisionByZero(a) => ("divzero".into(), vec![a]),
                        AssertMessage::RemainderByZero(a) => ("remzero".into(), vec![a]),
                        _ => ("other".into(), vec![]),
                    };
                    let o: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                    format!("[\"assert\",{},{expected},{},[{}],{target}]", self.operand(cond), esc(&k), o.join(","))
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("{{\"s\":[{}],\"t\":{t},\"l\":{line}}}", ss.join(",")));
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", esc(&v.name), self.place(p)));
            }
        }
        let spread = b.spread_arg().map(|s| s.to_string()).unwrap_or("null".into());
        format!(
            "{{\"argc\":{},\"spread\":{spread},\"locals\":[{}],\"names\":[{}],\"blocks\":[{}]}}",
            b.arg_locals().len(),
            locals.join(","),
            names.join(","),
            blocks.join(",\n  ")
        )
    }

    fn run(&mut self) -> Result<String, Error> {
        let Some(main) = rustc_public::entry_fn() else { return Ok(String::new()) };
        let main = Instance::try_from(main)?;
        let root = self.inst(main);
        // every monomorphic local function is a root too: the analysis sees code that is not yet called
        let mut items = vec![];
        for it in rustc_public::all_local_items() {
            if it.requires_monomorphization() {
                continue;
            }
            if let Ok(i) = Instance::try_from(it) {
                if it.kind() == rustc_public::ItemKind::Fn {
                    items.push(self.inst(i));
                }
            }
        }
        let mut out: HashMap<usize, String> = HashMap::new();
        let mut with_body = 0;
        while let Some(i) = self.queue.pop_front() {
            let id = self.insts[&i];
            let name = i.name();
            let k = i.def.krate();
            let def = i.def.name();
            let a = i.args();
            let args = self.args(&a);
            let is_local = k.is_local;
            let kind = match i.kind {
                InstanceKind::Item => "item",
                InstanceKind::Intrinsic => "intrinsic",
                InstanceKind::LlvmIntrinsic => "llvm",
                InstanceKind::Virtual { .. } => "virtual",
                InstanceKind::Shim => "shim",
            };
            let want = (is_local || descend(&name, &k.name)) && matches!(i.kind, InstanceKind::Item | InstanceKind::Shim);
            let body = if want && (i.kind == InstanceKind::Shim || i.has_body()) {
                match i.body() {
                    Some(b) => {
                        with_body += 1;
                        self.body(&b)
                    }
                    None => "null".into(),
                }
            } else {
                "null".into()
            };
            let sp = i.def.span();
            let lines = sp.get_lines();
            let file = sp.get_filename();
            out.insert(
                id,
                format!(
                    "{{\"id\":{id},\"name\":{},\"def\":{},\"crate\":{},\"local\":{is_local},\"kind\":\"{kind}\",\"args\":{args},\"file\":{},\"line\":{},\"end\":{},\"body\":{body}}}",
                    esc(&name),
                    esc(&def),
                    esc(&k.name),
                    esc(&file),
                    lines.start_line,
                    lines.end_line
                ),
            );
        }
        let mut is: Vec<String> = vec![];
        for n in 0..self.inst_order.len() {
            is.push(out.remove(&n).unwrap());
        }
        let mut ad: Vec<(&String, &String)> = self.adts.iter().collect();
        ad.sort();
        let ad: Vec<String> = ad.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        Ok(format!(
            "{{\"root\":{root},\"items\":{items:?},\"with_body\":{with_body},\"types\":[{}],\n\"adts\":{{{}}},\n\"insts\":[\n{}]}}\n",
            self.ty_out.join(",\n"),
            ad.join(",\n"),
            is.join(",\n")
        ))
    }
}

fn tag_size(s: &rustc_public::abi::Scalar) -> Option<usize> {
    use rustc_public::abi::{Primitive, Scalar};
    let p = match s {
        Scalar::Initialized { value, .. } => value,
        Scalar::Union { value } => value,
    };
    Some(match p {
        Primitive::Int { length, .. } => length.bits() / 8,
        Primitive::Float { length } => length.bits() / 8,
        Primitive::Pointer(_) => 8,
    })
}

fn analyze() -> ControlFlow<(), ()> {
    let Ok(out) = std::env::var("SFX_MIR_OUT") else { return ControlFlow::Continue(()) };
    let want = std::env::var("SFX_CRATE").unwrap_or_default();
    let lc = rustc_public::local_crate();
    if lc.name != want {
        return ControlFlow::Continue(());
    }
    let mut d = Dump {
        tys: HashMap::new(),
        ty_out: vec![],
        ty_queue: VecDeque::new(),
        insts: HashMap::new(),
        queue: VecDeque::new(),
        inst_order: vec![],
        adts: HashMap::new(),
    };
    match d.run() {
        Ok(s) if !s.is_empty() => {
            let _ = std::fs::write(&out, s);
        }
        Ok(_) => {}
        Err(e) => eprintln!("mirdump: {e:?}"),
    }
    let _ = d.ty_queue.len();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    if args.len() > 1 && std::path::Path::new(&args[1]).file_stem().map(|s| s == "rustc").unwrap_or(false) {
        args.remove(1);
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir=yes".into());
    let r = run!(&args, analyze);
    if r.is_err() {
        match r {
            Err(rustc_public::CompilerError::Skipped) => {}
            _ => std::process::exit(1),
        }
    }
}
