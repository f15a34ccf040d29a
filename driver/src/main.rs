//! rqv-driver: a rustc wrapper that dumps the monomorphic MIR reachable from
//! the contract functions of a contract crate, as JSON, for the rqv engine.
//!
//! It is used as RUSTC_WORKSPACE_WRAPPER-like wrapper: argv[1] is the real
//! rustc.  For every crate except the one named in RQV_CRATE it just compiles.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}

struct Dump {
    types: BTreeMap<usize, String>,
    type_queue: Vec<Ty>,
    type_seen: HashSet<usize>,
    fns: Vec<String>,
    fn_ids: HashMap<Instance, usize>,
    queue: VecDeque<Instance>,
    stop: Vec<String>,
    allow: Vec<String>,
    promoted_depth: usize,
    dyn_pairs: HashSet<(usize, usize)>,
    dyns: Vec<String>,
    statics: HashMap<String, String>,
}

fn matches(pats: &[String], name: &str) -> bool {
    pats.iter().any(|p| {
        if let Some(p) = p.strip_prefix('^') {
            name.starts_with(p)
        } else {
            name.contains(p.as_str())
        }
    })
}

impl Dump {
    fn ty(&mut self, t: Ty) -> String {
        let i = t.to_index();
        if self.type_seen.insert(i) {
            self.type_queue.push(t);
        }
        i.to_string()
    }
    fn drain_types(&mut self) {
        while let Some(t) = self.type_queue.pop() {
            let s = self.ty_json(t);
            self.types.insert(t.to_index(), s);
        }
    }
    fn args(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a.0.iter().filter_map(|g| g.ty().cloned()).map(|t| self.ty(t)).collect();
        list(v)
    }
    fn ty_json(&mut self, t: Ty) -> String {
        let kind = t.kind();
        let disp = esc(&format!("{t}"));
        match kind {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "{\"k\":\"bool\"}".into(),
                RigidTy::Char => "{\"k\":\"char\"}".into(),
                RigidTy::Int(i) => format!("{{\"k\":\"int\",\"n\":\"{}\"}}", format!("{i:?}").to_lowercase()),
                RigidTy::Uint(i) => format!("{{\"k\":\"uint\",\"n\":\"{}\"}}", format!("{i:?}").to_lowercase()),
                RigidTy::Float(f) => format!("{{\"k\":\"float\",\"n\":\"{}\"}}", format!("{f:?}").to_lowercase()),
                RigidTy::Str => "{\"k\":\"str\"}".into(),
                RigidTy::Never => "{\"k\":\"never\"}".into(),
                RigidTy::Adt(def, args) => {
                    let mut vs = vec![];
                    for v in def.variants() {
                        let fs: Vec<String> = v
                            .fields()
                            .iter()
                            .map(|f| { let t = f.ty_with_args(&args); format!("[{},{}]", esc(&f.name.to_string()), self.ty(t)) })
                            .collect();
                        let d = if def.kind().is_enum() { def.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                        vs.push(format!("{{\"n\":{},\"d\":\"{}\",\"f\":{}}}", esc(&v.name().to_string()), d, list(fs)));
                    }
                    let a = self.args(&args);
                    format!(
                        "{{\"k\":\"adt\",\"n\":{},\"disp\":{},\"enum\":{},\"union\":{},\"v\":{},\"args\":{}}}",
                        esc(&def.name().to_string()), disp, def.kind().is_enum(), def.kind().is_union(), list(vs), a
                    )
                }
                RigidTy::Array(e, n) => format!("{{\"k\":\"array\",\"e\":{},\"len\":{}}}", self.ty(e), n.eval_target_usize().map(|x| x as i64).unwrap_or(-1)),
                RigidTy::Slice(e) => format!("{{\"k\":\"slice\",\"e\":{}}}", self.ty(e)),
                RigidTy::RawPtr(e, m) => format!("{{\"k\":\"ptr\",\"e\":{},\"m\":{}}}", self.ty(e), m == Mutability::Mut),
                RigidTy::Ref(_, e, m) => format!("{{\"k\":\"ref\",\"e\":{},\"m\":{}}}", self.ty(e), m == Mutability::Mut),
                RigidTy::Tuple(v) => { let l: Vec<String> = v.iter().map(|t| self.ty(*t)).collect(); format!("{{\"k\":\"tuple\",\"e\":{}}}", list(l)) }
                RigidTy::FnDef(def, args) => {
                    let r = self.resolve(def, &args);
                    format!("{{\"k\":\"fndef\",\"n\":{},\"fn\":{}}}", esc(&def.name().to_string()), r)
                }
                RigidTy::Closure(def, args) => {
                    // upvar types: last generic arg is the tuple of upvars
                    let up = match args.0.last() { Some(GenericArgKind::Type(t)) => self.ty(*t), _ => "null".into() };
                    let mk = |s: &mut Self, k| Instance::resolve_closure(def, &args, k).ok().map(|i| s.inst(i).to_string()).unwrap_or("null".into());
                    let once = mk(self, ClosureKind::FnOnce);
                    format!("{{\"k\":\"closure\",\"n\":{},\"up\":{},\"once\":{}}}", esc(&def.name().to_string()), up, once)
                }
                RigidTy::Pat(b, _) => self.ty_json(b),
                RigidTy::FnPtr(_) => format!("{{\"k\":\"fnptr\",\"disp\":{}}}", disp),
                RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"disp\":{}}}", disp),
                _ => format!("{{\"k\":\"other\",\"disp\":{}}}", disp),
            },
            _ => format!("{{\"k\":\"other\",\"disp\":{}}}", disp),
        }
    }
    fn resolve(&mut self, def: FnDef, args: &GenericArgs) -> String {
        match Instance::resolve(def, args) {
            Ok(i) => self.inst(i).to_string(),
            Err(_) => "null".into(),
        }
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.fn_ids.get(&i) {
            return *x;
        }
        let id = self.fns.len();
        self.fns.push(String::new());
        self.fn_ids.insert(i, id);
        self.queue.push_back(i);
        id
    }
    fn place(&mut self, p: &Place) -> String {
        let pr: Vec<String> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{l}]"),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{offset},{min_length},{from_end}]"),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{from},{to},{from_end}]"),
                ProjectionElem::Downcast(v) => format!("[\"v\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"oc\"]".to_string(),
            })
            .collect();
        format!("[{},{}]", p.local, list(pr))
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p)),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                format!("{{\"t\":{},\"k\":{}}}", self.ty(t), self.konst(&c.const_))
            }
            Operand::RuntimeChecks(r) => format!("{{\"rc\":\"{r:?}\"}}"),
        }
    }
    fn konst(&mut self, c: &MirConst) -> String {
        match c.kind() {
            ConstantKind::Allocated(a) => self.decode(a, c.ty(), 0, 0),
            ConstantKind::ZeroSized => "{\"z\":1}".into(),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.decode(a, *t, 0, 0),
                TyConstKind::ZSTValue(_) => "{\"z\":1}".into(),
                _ => format!("{{\"unk\":{}}}", esc(&format!("{tc:?}"))),
            },
            k => format!("{{\"unk\":{}}}", esc(&format!("{k:?}"))),
        }
    }
    fn rd(a: &Allocation, off: usize, n: usize) -> Option<u128> {
        a.read_partial_uint(off..off + n).ok()
    }
    fn prov(a: &Allocation, off: usize) -> Option<GlobalAlloc> {
        a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| GlobalAlloc::from(p.0))
    }
    fn decode(&mut self, a: &Allocation, t: Ty, off: usize, depth: usize) -> String {
        if depth > 40 {
            return "{\"unk\":\"depth\"}".into();
        }
        let unk = |w: &str| format!("{{\"unk\":{}}}", esc(w));
        let shape = match t.layout() {
            Ok(l) => l.shape(),
            Err(_) => return unk("layout"),
        };
        let size = shape.size.bytes();
        let kind = t.kind();
        let Some(r) = kind.rigid() else { return unk("nonrigid") };
        match r {
            RigidTy::Bool => Self::rd(a, off, 1).map(|v| format!("{{\"b\":{}}}", v != 0)).unwrap_or(unk("uninit")),
            RigidTy::Char => Self::rd(a, off, 4).map(|v| format!("{{\"i\":\"{v}\"}}")).unwrap_or(unk("uninit")),
            RigidTy::Int(_) => Self::rd(a, off, size)
                .map(|v| {
                    let bits = size * 8;
                    let s = if bits == 128 { v as i128 } else { let sh = 128 - bits; ((v << sh) as i128) >> sh };
                    format!("{{\"i\":\"{s}\"}}")
                })
                .unwrap_or(unk("uninit")),
            RigidTy::Uint(_) => {
                if Self::prov(a, off).is_some() { return unk("ptrint") }
                Self::rd(a, off, size).map(|v| format!("{{\"i\":\"{v}\"}}")).unwrap_or(unk("uninit"))
            }
            RigidTy::Float(f) => Self::rd(a, off, size).map(|v| format!("{{\"f\":\"{v}\",\"ft\":\"{f:?}\"}}")).unwrap_or(unk("uninit")),
            RigidTy::FnDef(..) => "{\"z\":1}".into(),
            RigidTy::Pat(b, _) => self.decode(a, *b, off, depth + 1),
            RigidTy::Tuple(ts) => {
                if ts.is_empty() { return "{\"a\":[]}".into(); }
                let FieldsShape::Arbitrary { offsets } = &shape.fields else { return unk("tuple layout") };
                let v: Vec<String> = ts.iter().zip(offsets.iter()).map(|(t, o)| self.decode(a, *t, off + o.bytes(), depth + 1)).collect();
                format!("{{\"a\":{}}}", list(v))
            }
            RigidTy::Closure(_, args) => {
                let ts = match args.0.last() { Some(GenericArgKind::Type(t)) => match t.kind() { TyKind::RigidTy(RigidTy::Tuple(v)) => v, _ => vec![] }, _ => vec![] };
                let FieldsShape::Arbitrary { offsets } = &shape.fields else { return "{\"a\":[]}".into() };
                let v: Vec<String> = ts.iter().zip(offsets.iter()).map(|(t, o)| self.decode(a, *t, off + o.bytes(), depth + 1)).collect();
                format!("{{\"a\":{}}}", list(v))
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let v: Vec<String> = (0..n).map(|i| self.decode(a, *e, off + i * es, depth + 1)).collect();
                format!("{{\"a\":{}}}", list(v))
            }
            RigidTy::Adt(def, args) => {
                let args = args.clone();
                let vs = def.variants();
                if def.kind().is_union() { return unk("union"); }
                match &shape.variants {
                    VariantsShape::Single { index } => {
                        let vi = index.to_index();
                        if vi >= vs.len() { return unk("variant"); }
                        let fs = vs[vi].fields();
                        let offs: Vec<rustc_public::target::MachineSize> = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets.clone(), _ => vec![rustc_public::target::MachineSize::from_bits(0); fs.len()] };
                        let v: Vec<String> = fs.iter().zip(offs.iter()).map(|(f, o)| self.decode(a, f.ty_with_args(&args), off + o.bytes(), depth + 1)).collect();
                        format!("{{\"a\":{},\"v\":{}}}", list(v), vi)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                        let prim = match tag { rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => value.clone() };
                        let tsz = prim_size(&prim);
                        let is_ptr = matches!(prim, rustc_public::abi::Primitive::Pointer(_));
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(tv) = Self::rd(a, off + toff, tsz) else { return unk("tag") };
                                let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                match vs.iter().position(|v| def.discriminant_for_variant(v.idx()).val & mask == tv) { Some(i) => i, None => return unk("tagval") }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if is_ptr && Self::prov(a, off + toff).is_some() {
                                    untagged_variant.to_index()
                                } else {
                                    let Some(tv) = Self::rd(a, off + toff, tsz) else { return unk("tag") };
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    let rel = tv.wrapping_sub(*niche_start) & mask;
                                    let lo = niche_variants.start().to_index() as u128;
                                    let hi = niche_variants.end().to_index() as u128;
                                    if rel <= hi - lo { (rel + lo) as usize } else { untagged_variant.to_index() }
                                }
                            }
                        };
                        let fs = vs[vi].fields();
                        let offs = variants.get(vi).map(|x| x.offsets.clone()).unwrap_or_default();
                        let v: Vec<String> = fs.iter().zip(offs.iter()).map(|(f, o)| self.decode(a, f.ty_with_args(&args), off + o.bytes(), depth + 1)).collect();
                        format!("{{\"a\":{},\"v\":{}}}", list(v), vi)
                    }
                    _ => unk("variants"),
                }
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let e = *e;
                let addr = match Self::rd(a, off, 8) { Some(x) => x as usize, None => return unk("ptr") };
                let ek = e.kind();
                match Self::prov(a, off) {
                    Some(GlobalAlloc::Memory(m)) => match ek.rigid() {
                        Some(RigidTy::Str) => {
                            let n = Self::rd(a, off + 8, 8).unwrap_or(0) as usize;
                            let b: Vec<u8> = m.bytes[addr..addr + n].iter().map(|x| x.unwrap_or(0)).collect();
                            format!("{{\"s\":{}}}", esc(&String::from_utf8_lossy(&b)))
                        }
                        Some(RigidTy::Slice(el)) => {
                            let n = Self::rd(a, off + 8, 8).unwrap_or(0) as usize;
                            let el = *el;
                            let es = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                            let v: Vec<String> = (0..n).map(|i| self.decode(&m, el, addr + i * es, depth + 1)).collect();
                            format!("{{\"r\":{{\"a\":{}}},\"sl\":1}}", list(v))
                        }
                        Some(RigidTy::Dynamic(..)) => unk("dynconst"),
                        _ => format!("{{\"r\":{}}}", self.decode(&m, e, addr, depth + 1)),
                    },
                    Some(GlobalAlloc::Static(s)) => {
                        let name = s.name().to_string();
                        if !self.statics.contains_key(&name) {
                            self.statics.insert(name.clone(), "null".into());
                            let st = s.ty();
                            if tcx_foreign(&s) {
                                // a foreign static has no initialiser
                            } else if let Ok(al) = s.eval_initializer() {
                                let v = self.decode(&al, st, 0, depth + 1);
                                let ti = self.ty(st);
                                self.statics.insert(name.clone(), format!("{{\"t\":{ti},\"k\":{v}}}"));
                            }
                        }
                        format!("{{\"st\":{}}}", esc(&name))
                    }
                    Some(GlobalAlloc::Function(i)) => format!("{{\"fn\":{}}}", self.inst(i)),
                    Some(_) => unk("prov"),
                    None => {
                        // dangling pointer to a ZST or empty slice
                        match ek.rigid() {
                            Some(RigidTy::Str) => "{\"s\":\"\"}".into(),
                            Some(RigidTy::Slice(_)) => "{\"r\":{\"a\":[]},\"sl\":1}".into(),
                            _ => {
                                let z = e.layout().map(|l| l.shape().size.bytes() == 0).unwrap_or(false);
                                if z { let empty = Allocation { bytes: vec![], provenance: a.provenance.clone(), align: 1, mutability: Mutability::Not };
                                    format!("{{\"r\":{}}}", self.decode(&empty, e, 0, depth + 1)) } else { unk("nullptr") }
                            }
                        }
                    }
                }
            }
            RigidTy::FnPtr(_) => match Self::prov(a, off) {
                Some(GlobalAlloc::Function(i)) => format!("{{\"fn\":{}}}", self.inst(i)),
                _ => unk("fnptr"),
            },
            _ => unk("kind"),
        }
    }
    /// vtable entries {index: function} of an unsizing coercion to a trait object
    fn vtable(&mut self, s: Ty, t: Ty) -> String {
        fn peel(t: Ty) -> Option<Ty> {
            match t.kind() {
                TyKind::RigidTy(RigidTy::Ref(_, e, _)) | TyKind::RigidTy(RigidTy::RawPtr(e, _)) => Some(e),
                TyKind::RigidTy(RigidTy::Adt(_, a)) => a.0.iter().find_map(|g| g.ty().cloned()),
                _ => None,
            }
        }
        let (mut s, mut t) = (s, t);
        loop {
            match t.kind() {
                TyKind::RigidTy(RigidTy::Dynamic(preds, _)) => {
                    if matches!(s.kind(), TyKind::RigidTy(RigidTy::Dynamic(..))) { return String::new(); }
                    let tr = preds.iter().find_map(|p| match &p.value { ExistentialPredicate::Trait(tr) => Some(Binder::bind_with_vars(tr.clone(), p.bound_vars.clone())), _ => None });
                    let ga = GlobalAlloc::VTable(s, tr);
                    let Some(id) = ga.vtable_allocation() else { return String::new() };
                    let GlobalAlloc::Memory(m) = GlobalAlloc::from(id) else { return String::new() };
                    let mut v = vec![];
                    for (off, p) in m.provenance.ptrs.clone() {
                        if let GlobalAlloc::Function(i) = GlobalAlloc::from(p.0) {
                            let f = self.inst(i);
                            v.push(format!("\"{}\":{}", off / 8, f));
                        }
                    }
                    return format!("{{\"ty\":{},\"e\":{{{}}}}}", self.ty(s), v.join(","));
                }
                _ => match (peel(s), peel(t)) {
                    (Some(a), Some(b)) => { s = a; t = b; }
                    _ => return String::new(),
                },
            }
        }
    }
    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("{{\"addr\":{}}}", self.place(p)),
            Rvalue::Ref(_, _, p) => format!("{{\"ref\":{}}}", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("{{\"use\":{{\"c\":{}}}}}", self.place(p)),
            Rvalue::Use(o, _) => format!("{{\"use\":{}}}", self.operand(o)),
            Rvalue::CopyForDeref(p) => format!("{{\"use\":{{\"c\":{}}}}}", self.place(p)),
            Rvalue::Repeat(o, n) => format!("{{\"repeat\":{},\"n\":{}}}", self.operand(o), n.eval_target_usize().unwrap_or(0)),
            Rvalue::Len(p) => format!("{{\"len\":{}}}", self.place(p)),
            Rvalue::BinaryOp(op, a, b) => format!("{{\"bin\":\"{op:?}\",\"a\":{},\"b\":{}}}", self.operand(a), self.operand(b)),
            Rvalue::CheckedBinaryOp(op, a, b) => format!("{{\"cbin\":\"{op:?}\",\"a\":{},\"b\":{}}}", self.operand(a), self.operand(b)),
            Rvalue::UnaryOp(op, a) => format!("{{\"un\":\"{op:?}\",\"a\":{}}}", self.operand(a)),
            Rvalue::Discriminant(p) => format!("{{\"disc\":{}}}", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(PointerCoercion::Unsize) => "Unsize".to_string(),
                    CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) => "Reify".to_string(),
                    CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => "ClosureFnPtr".to_string(),
                    CastKind::PointerCoercion(c) => format!("{c:?}"),
                    k => format!("{k:?}"),
                };
                let vt = if ks == "Unsize" { o.ty(locals).ok().map(|s| self.vtable(s, *t)).unwrap_or_default() } else { String::new() };
                let vt = if vt.is_empty() { "null".to_string() } else { vt };
                format!("{{\"cast\":\"{ks}\",\"o\":{},\"t\":{},\"vt\":{vt}}}", self.operand(o), self.ty(*t))
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let os = list(os);
                match k {
                    AggregateKind::Array(_) => format!("{{\"agg\":\"array\",\"o\":{os}}}"),
                    AggregateKind::Tuple => format!("{{\"agg\":\"tuple\",\"o\":{os}}}"),
                    AggregateKind::Adt(def, v, args, _, active) => {
                        let t = def.ty_with_args(args);
                        format!("{{\"agg\":\"adt\",\"t\":{},\"v\":{},\"o\":{os},\"act\":{}}}", self.ty(t), v.to_index(), active.map(|x| x as i64).unwrap_or(-1))
                    }
                    AggregateKind::Closure(def, args) => {
                        let t = Ty::new_closure(*def, args.clone());
                        format!("{{\"agg\":\"closure\",\"t\":{},\"o\":{os}}}", self.ty(t))
                    }
                    AggregateKind::RawPtr(..) => format!("{{\"agg\":\"rawptr\",\"o\":{os}}}"),
                    _ => "{\"agg\":\"other\",\"o\":[]}".into(),
                }
            }
            Rvalue::ThreadLocalRef(_) => "{\"tls\":1}".into(),
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        st.push(format!("[\"=\",{},{}]", self.place(p), self.rvalue(r, b.locals())));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index()));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => st.push("[\"cno\"]".into()),
                    _ => {}
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("{{\"g\":{target}}}"),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, b)| format!("[\"{v}\",{b}]")).collect();
                    format!("{{\"sw\":{},\"br\":{},\"ow\":{}}}", self.operand(discr), list(br), targets.otherwise())
                }
                TerminatorKind::Return => "{\"ret\":1}".into(),
                TerminatorKind::Unreachable => "{\"unr\":1}".into(),
                TerminatorKind::Resume | TerminatorKind::Abort => "{\"resume\":1}".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(b.locals()).unwrap();
                    format!("{{\"drop\":{},\"t\":{},\"ty\":{}}}", self.place(place), target, self.ty(t))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let d = msg.description().map(|s| s.to_string()).unwrap_or("assert".into());
                    format!("{{\"assert\":{},\"exp\":{},\"msg\":{},\"t\":{},\"line\":{line}}}", self.operand(cond), expected, esc(&d), target)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(b.locals()).unwrap();
                    let mut callee = "null".to_string();
                    let mut name = String::new();
                    let mut targs = "[]".to_string();
                    let mut virt = "null".to_string();
                    if let TyKind::RigidTy(RigidTy::FnDef(def, ga)) = ft.kind() {
                        name = def.name().to_string();
                        targs = self.args(&ga);
                        if let Ok(i) = Instance::resolve(def, &ga) {
                            if let InstanceKind::Virtual { idx } = i.kind { virt = idx.to_string(); }
                            callee = self.inst(i).to_string();
                        }
                    }
                    let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    let fo = if callee == "null" { self.operand(func) } else { "null".into() };
                    format!(
                        "{{\"call\":{},\"n\":{},\"ta\":{},\"virt\":{},\"fo\":{},\"args\":{},\"dst\":{},\"t\":{},\"line\":{line}}}",
                        callee, esc(&name), targs, virt, fo, list(a), self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::InlineAsm { .. } => "{\"asm\":1}".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{}}}", list(st), t));
        }
        let names: Vec<String> = b
            .var_debug_info
            .iter()
            .filter_map(|v| v.local().map(|l| format!("[{},{}]", l, esc(&v.name.to_string()))))
            .collect();
        format!(
            "{{\"locals\":{},\"argc\":{},\"spread\":{},\"blocks\":{},\"names\":{}}}",
            list(locals), b.arg_locals().len(), b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()), list(blocks), list(names)
        )
    }
    fn process(&mut self, i: Instance) {
        let id = self.fn_ids[&i];
        let name = i.name().to_string();
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let vidx = match i.kind { InstanceKind::Virtual { idx } => idx as i64, _ => -1 };
        let def = i.def.name().to_string();
        let intr = i.intrinsic_name().map(|s| s.to_string()).unwrap_or_default();
        let args = i.args();
        let targs = self.args(&args);
        let stopped = (matches(&self.stop, &name) || matches(&self.stop, &def)) && !matches(&self.allow, &name);
        let file = i.def.span().get_filename();
        let line = i.def.span().get_lines().start_line;
        let mut body = "null".to_string();
        if !stopped && matches!(i.kind, InstanceKind::Item | InstanceKind::Shim) {
            if i.kind == InstanceKind::Shim || i.has_body() {
                if let Some(b) = i.body() {
                    body = self.body(&b);
                }
            }
        }
        self.fns[id] = format!(
            "{{\"id\":{id},\"n\":{},\"def\":{},\"kind\":\"{kind}\",\"vidx\":{vidx},\"intr\":{},\"ta\":{},\"stopped\":{stopped},\"file\":{},\"line\":{line},\"body\":{}}}",
            esc(&name), esc(&def), esc(&intr), targs, esc(&file), body
        );
    }
}

fn prim_size(p: &rustc_public::abi::Primitive) -> usize {
    use rustc_public::abi::*;
    match p {
        Primitive::Int { length, .. } => match length { IntegerLength::I8 => 1, IntegerLength::I16 => 2, IntegerLength::I32 => 4, IntegerLength::I64 => 8, IntegerLength::I128 => 16 },
        Primitive::Float { length } => match length { FloatLength::F16 => 2, FloatLength::F32 => 4, FloatLength::F64 => 8, FloatLength::F128 => 16, _ => 2 },
        Primitive::Pointer(_) => 8,
    }
}

fn read_list(var: &str) -> Vec<String> {
    std::env::var(var).ok().and_then(|p| std::fs::read_to_string(p).ok()).map(|s| s.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect()).unwrap_or_default()
}

fn analyze() -> ControlFlow<(), ()> {
    let mut d = Dump {
        types: BTreeMap::new(), type_queue: vec![], type_seen: HashSet::new(), fns: vec![], fn_ids: HashMap::new(), queue: VecDeque::new(),
        stop: read_list("RQV_STOP"), allow: read_list("RQV_ALLOW"), promoted_depth: 0, dyn_pairs: HashSet::new(), dyns: vec![], statics: HashMap::new(),
    };
    let filter = std::env::var("RQV_ROOTS").unwrap_or_default();
    let skip = std::env::var("RQV_SKIP").unwrap_or_default();
    let skip: Vec<&str> = skip.split(',').collect();
    let filt: Vec<String> = filter.split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        let name = item.name().to_string();
        let last = name.rsplit("::").next().unwrap_or("").to_string();
        if !last.starts_with("rq_") && !last.starts_with("rqb_") { continue; }
        if !filt.is_empty() && !filt.iter().any(|f| last.starts_with(f.as_str())) { continue; }
        if skip.contains(&last.as_str()) { continue; }
        if item.requires_monomorphization() { continue; }
        if let Ok(i) = Instance::try_from(item) {
            let id = d.inst(i);
            roots.push(format!("[{},{}]", esc(&name), id));
        }
    }
    loop {
        while let Some(i) = d.queue.pop_front() { d.process(i); d.drain_types(); }
        d.drain_types();
        if d.queue.is_empty() && d.type_queue.is_empty() { break; }
    }
    let _ = (&d.promoted_depth, &d.dyn_pairs, &d.dyns);
    let types: Vec<String> = d.types.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
    let st: Vec<String> = d.statics.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect();
    let out = format!("{{\"roots\":{},\"types\":{{{}}},\n\"statics\":{{{}}},\n\"fns\":[{}]}}\n", list(roots), types.join(",\n"), st.join(",\n"), d.fns.join(",\n"));
    let path = std::env::var("RQV_OUT").expect("RQV_OUT");
    std::fs::write(path, out).expect("write RQV_OUT");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as RUSTC_WRAPPER: driver rustc args...
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let target = std::env::var("RQV_CRATE").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == target);
    if is_target {
        let _ = rustc_public::run!(&args, analyze);
    } else {
        let rustc = std::env::var("RQV_RUSTC").unwrap_or("rustc".into());
        let st = std::process::Command::new(rustc).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
}

/// A static of an `extern` block has no initialiser to look at.
fn tcx_foreign(s: &rustc_public::mir::mono::StaticDef) -> bool {
    format!("{:?}", s).contains("{extern#") || s.name().contains("pyo3_ffi")
}
