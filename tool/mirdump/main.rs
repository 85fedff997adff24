// mirdump: a rustc driver that writes, for the crates named in MIRDUMP_CRATES, the
// monomorphic MIR of everything reachable from the crate's non-generic functions as
// JSON. It analyses nothing itself. Used as RUSTC_WRAPPER.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}

struct Dump {
    tys: HashMap<Ty, usize>,
    tjson: Vec<String>,
    insts: HashSet<String>,
    queue: VecDeque<(String, Instance)>,
    vts: HashMap<String, String>,
    stop: Vec<String>,
}

// types with late-bound regions cannot be given a layout
fn has_bound(t: Ty) -> bool {
    let s = format!("{:?}", t.kind());
    s.contains("ReBound") || s.contains("Bound(")
}

fn off_of(m: &rustc_public::target::MachineSize) -> usize {
    m.bytes()
}

impl Dump {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.tjson.len();
        self.tys.insert(t, i);
        self.tjson.push(String::new());
        let j = self.ty_json(t);
        self.tjson[i] = j;
        i
    }
    fn args(&mut self, a: &GenericArgs) -> String {
        arr(a
            .0
            .iter()
            .filter_map(|g| match g {
                GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                _ => None,
            })
            .collect::<Vec<_>>())
    }
    fn ty_json(&mut self, t: Ty) -> String {
        let mut lay = String::new();
        let bound = has_bound(t);
        if let Some(l) = if bound { None } else { t.layout().ok() } {
            let s = l.shape();
            let _ = write!(lay, ",\"size\":{},\"align\":{}", off_of(&s.size), s.abi_align);
            if let FieldsShape::Arbitrary { offsets, .. } = &s.fields {
                let _ = write!(lay, ",\"offs\":{}", arr(offsets.iter().map(|o| off_of(o).to_string())));
            }
            if s.is_unsized() {
                lay.push_str(",\"unsized\":true");
            }
        }
        let k = t.kind();
        let name = q(&format!("{}", t));
        let body = match k.rigid() {
            None => format!("\"k\":\"other\",\"dbg\":{}", q(&format!("{k:?}"))),
            Some(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"w\":{},\"s\":true", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"int\",\"w\":{},\"s\":false", i.num_bytes() * 8),
                RigidTy::Float(f) => format!(
                    "\"k\":\"float\",\"w\":{}",
                    match f {
                        FloatTy::F16 => 16,
                        FloatTy::F32 => 32,
                        FloatTy::F64 => 64,
                        FloatTy::F128 => 128,
                    }
                ),
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Array(e, n) => format!(
                    "\"k\":\"array\",\"e\":{},\"n\":{}",
                    self.ty(*e),
                    n.eval_target_usize().map(|x| x as i64).unwrap_or(-1)
                ),
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(*e)),
                RigidTy::Pat(e, _) => format!("\"k\":\"pat\",\"e\":{}", self.ty(*e)),
                RigidTy::RawPtr(e, m) => {
                    format!("\"k\":\"ptr\",\"raw\":true,\"mut\":{},\"e\":{}", matches!(m, Mutability::Mut), self.ty(*e))
                }
                RigidTy::Ref(_, e, m) => {
                    format!("\"k\":\"ptr\",\"raw\":false,\"mut\":{},\"e\":{}", matches!(m, Mutability::Mut), self.ty(*e))
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Dynamic(p, _) => {
                    let tr = p.iter().find_map(|x| match &x.value {
                        ExistentialPredicate::Trait(t) => Some(t.def_id.name().to_string()),
                        _ => None,
                    });
                    format!("\"k\":\"dyn\",\"trait\":{}", q(&tr.unwrap_or_default()))
                }
                RigidTy::Tuple(ts) => {
                    let f: Vec<String> = ts.iter().map(|x| self.ty(*x).to_string()).collect();
                    format!("\"k\":\"tuple\",\"f\":{}", arr(f))
                }
                RigidTy::FnDef(d, a) => {
                    let i = match Instance::resolve(*d, a) {
                        Ok(i) => self.inst(i),
                        Err(_) => String::new(),
                    };
                    format!("\"k\":\"fndef\",\"def\":{},\"inst\":{}", q(&d.name()), q(&i))
                }
                RigidTy::Closure(d, a) => {
                    let call = Instance::resolve_closure(*d, a, ClosureKind::FnOnce).ok();
                    let kinds = [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce];
                    let mut ids = vec![];
                    for k in kinds {
                        ids.push(match Instance::resolve_closure(*d, a, k) {
                            Ok(i) => q(&self.inst(i)),
                            Err(_) => "\"\"".into(),
                        });
                    }
                    let _ = call;
                    // captured variables: the tuple type that is the last generic argument
                    let up = match a.0.last() {
                        Some(GenericArgKind::Type(t)) => self.ty(*t).to_string(),
                        _ => "-1".into(),
                    };
                    format!("\"k\":\"closure\",\"def\":{},\"call\":{},\"up\":{}", q(&d.name()), arr(ids), up)
                }
                RigidTy::Adt(d, a) => {
                    let kind = match d.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Union => "union",
                        AdtKind::Struct => "struct",
                    };
                    let mut vs = vec![];
                    for v in d.variants() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(a);
                            let ft = self.ty(ft);
                            fs.push(format!("[{},{}]", q(&f.name), ft));
                        }
                        let disc = if kind == "enum" { d.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                        vs.push(format!("{{\"name\":{},\"disc\":\"{}\",\"f\":{}}}", q(&v.name()), disc, arr(fs)));
                    }
                    let mut dt = String::new();
                    if kind == "enum" {
                        let x = r.discriminant_ty();
                        dt = format!(",\"dt\":{}", self.ty(x));
                    }
                    let ar = self.args(a);
                    format!(
                        "\"k\":\"{}\",\"def\":{},\"crate\":{},\"args\":{},\"v\":{}{},\"box\":{},\"repr\":{}",
                        kind,
                        q(&d.name()),
                        q(&d.krate().name),
                        ar,
                        arr(vs),
                        dt,
                        d.is_box(),
                        q(&format!("{:?}", d.repr()))
                    )
                }
                x => format!("\"k\":\"other\",\"dbg\":{}", q(&format!("{x:?}"))),
            },
        };
        // drop glue
        let mut drop = String::new();
        if !bound && matches!(
            k.rigid(),
            Some(RigidTy::Adt(..) | RigidTy::Tuple(..) | RigidTy::Closure(..) | RigidTy::Array(..) | RigidTy::Slice(..))
        ) {
            let g = Instance::resolve_drop_in_place(t);
            if !g.is_empty_shim() {
                let id = self.inst(g);
                drop = format!(",\"drop\":{}", q(&id));
            }
        }
        format!("{{\"name\":{name},{body}{lay}{drop}}}")
    }

    fn inst(&mut self, i: Instance) -> String {
        let id = i.mangled_name().to_string();
        let id = match i.kind {
            InstanceKind::Virtual { idx } => format!("virtual:{idx}:{id}"),
            InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => format!("intrinsic:{id}"),
            InstanceKind::Shim => format!("shim:{id}:{}", i.name()),
            _ => id,
        };
        if self.insts.insert(id.clone()) {
            self.queue.push_back((id.clone(), i));
        }
        id
    }

    fn vtable(&mut self, concrete: Ty, pred: &[Binder<ExistentialPredicate>]) -> String {
        let pr = pred.iter().find_map(|x| match &x.value {
            ExistentialPredicate::Trait(t) => Some(t.clone()),
            _ => None,
        });
        let tid = self.ty(concrete);
        let key = format!("{}:{}", tid, pr.as_ref().map(|p| format!("{:?}", p)).unwrap_or_default());
        let id = format!("vt{}", {
            let n = self.vts.len();
            if self.vts.contains_key(&key) { usize::MAX } else { n }
        });
        if let Some(e) = self.vts.get(&key) {
            return e.split('|').next().unwrap().to_string();
        }
        self.vts.insert(key.clone(), format!("{id}|"));
        let mut ents = vec![];
        if let Some(p) = pr {
            let tr = p.with_self_ty(concrete);
            for e in tr.vtable_entries() {
                ents.push(match e {
                    VtblEntry::Method(i) => q(&self.inst(i)),
                    _ => "\"\"".to_string(),
                });
            }
        }
        self.vts.insert(key, format!("{id}|{{\"id\":{},\"ty\":{},\"m\":{}}}", q(&id), tid, arr(ents)));
        id
    }

    fn uint(a: &Allocation, off: usize, n: usize) -> Option<u128> {
        let mut v: u128 = 0;
        for i in (0..n).rev() {
            v = v << 8 | (a.bytes.get(off + i).copied().flatten()? as u128);
        }
        Some(v)
    }

    fn pointee(&mut self, e: Ty, a: &Allocation, off: usize, depth: usize) -> String {
        let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|x| x.1.0);
        let addr = Self::uint(a, off, 8).unwrap_or(0) as usize;
        let Some(p) = prov else {
            return format!("{{\"addr\":\"{}\"}}", addr);
        };
        match GlobalAlloc::from(p) {
            GlobalAlloc::Function(i) => format!("{{\"fn\":{}}}", q(&self.inst(i))),
            GlobalAlloc::VTable(..) => "{\"vt\":true}".into(),
            GlobalAlloc::Static(s) => {
                let nm = s.name().to_string();
                format!("{{\"static\":{}}}", q(&nm))
            }
            GlobalAlloc::Memory(m) => {
                let base = if addr < m.bytes.len() + 1 { addr } else { 0 };
                match e.kind().rigid() {
                    Some(RigidTy::Str) => {
                        let n = Self::uint(a, off + 8, 8).unwrap_or(0) as usize;
                        self.bytes(&m, base, n, "str")
                    }
                    Some(RigidTy::Slice(t)) => {
                        let n = Self::uint(a, off + 8, 8).unwrap_or(0) as usize;
                        if matches!(t.kind().rigid(), Some(RigidTy::Uint(UintTy::U8))) {
                            return self.bytes(&m, base, n, "slice");
                        }
                        let sz = t.layout().map(|l| off_of(&l.shape().size)).unwrap_or(0);
                        let vs: Vec<String> = (0..n).map(|i| self.cval(*t, &m, base + i * sz, depth + 1)).collect();
                        format!("{{\"elems\":{}}}", arr(vs))
                    }
                    Some(RigidTy::Dynamic(..)) => "{\"dynconst\":true}".into(),
                    Some(RigidTy::Adt(d, _)) if d.name().ends_with("CStr") => {
                        let n = Self::uint(a, off + 8, 8).unwrap_or(0) as usize;
                        self.bytes(&m, base, n, "cstr")
                    }
                    _ => format!("{{\"ref\":{},\"ety\":{}}}", self.cval(e, &m, base, depth + 1), self.ty(e)),
                }
            }
            _ => "{\"opaque\":true}".into(),
        }
    }
    fn bytes(&self, m: &Allocation, base: usize, n: usize, k: &str) -> String {
        format!(
            "{{\"{}\":{}}}",
            k,
            arr((0..n).map(|i| m.bytes.get(base + i).copied().flatten().unwrap_or(0).to_string()))
        )
    }

    fn cval(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> String {
        if depth > 40 {
            return "{\"opaque\":true}".into();
        }
        let shape = match t.layout() {
            Ok(l) => l.shape(),
            Err(_) => return "{\"opaque\":true}".into(),
        };
        let sz = off_of(&shape.size);
        let k = t.kind();
        let scal = |n: usize| match Self::uint(a, off, n) {
            Some(v) => format!("{{\"i\":\"{v}\"}}"),
            None => "{\"undef\":true}".into(),
        };
        match k.rigid() {
            Some(RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Float(_)) => scal(sz),
            Some(RigidTy::Pat(e, _)) => self.cval(*e, a, off, depth + 1),
            Some(RigidTy::RawPtr(e, _) | RigidTy::Ref(_, e, _)) => self.pointee(*e, a, off, depth),
            Some(RigidTy::FnPtr(_)) => self.pointee(t, a, off, depth),
            Some(RigidTy::FnDef(..) | RigidTy::Closure(..)) if sz == 0 => "{\"zst\":true}".into(),
            Some(RigidTy::Tuple(ts)) => {
                let offs = match &shape.fields {
                    FieldsShape::Arbitrary { offsets, .. } => offsets.iter().map(off_of).collect::<Vec<_>>(),
                    _ => vec![],
                };
                let f: Vec<String> =
                    ts.iter().enumerate().map(|(i, x)| self.cval(*x, a, off + offs.get(i).copied().unwrap_or(0), depth + 1)).collect();
                format!("{{\"f\":{}}}", arr(f))
            }
            Some(RigidTy::Array(e, n)) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                if matches!(e.kind().rigid(), Some(RigidTy::Uint(UintTy::U8))) {
                    return self.bytes(a, off, n, "bytes");
                }
                let es = e.layout().map(|l| off_of(&l.shape().size)).unwrap_or(0);
                let f: Vec<String> = (0..n).map(|i| self.cval(*e, a, off + i * es, depth + 1)).collect();
                format!("{{\"elems\":{}}}", arr(f))
            }
            Some(RigidTy::Adt(d, ga)) => match d.kind() {
                AdtKind::Union => "{\"opaque\":true}".into(),
                AdtKind::Struct => {
                    let offs = match &shape.fields {
                        FieldsShape::Arbitrary { offsets, .. } => offsets.iter().map(off_of).collect::<Vec<_>>(),
                        _ => vec![],
                    };
                    let fs = d.variants()[0].fields();
                    let f: Vec<String> = fs
                        .iter()
                        .enumerate()
                        .map(|(i, x)| {
                            let ft = x.ty_with_args(ga);
                            self.cval(ft, a, off + offs.get(i).copied().unwrap_or(0), depth + 1)
                        })
                        .collect();
                    format!("{{\"f\":{}}}", arr(f))
                }
                AdtKind::Enum => {
                    let vs = d.variants();
                    let (idx, offs): (usize, Vec<usize>) = match &shape.variants {
                        VariantsShape::Empty => return "{\"opaque\":true}".into(),
                        VariantsShape::Single { index } => (
                            index.to_index(),
                            match &shape.fields {
                                FieldsShape::Arbitrary { offsets, .. } => offsets.iter().map(off_of).collect(),
                                _ => vec![],
                            },
                        ),
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let to = match &shape.fields {
                                FieldsShape::Arbitrary { offsets, .. } => off_of(&offsets[*tag_field]),
                                _ => 0,
                            };
                            let tsz = match tag {
                                rustc_public::abi::Scalar::Initialized { value, .. }
                                | rustc_public::abi::Scalar::Union { value } => {
                                    off_of(&value.size(&rustc_public::target::MachineInfo::target()))
                                }
                            };
                            let isptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + to);
                            let tagv = Self::uint(a, off + to, tsz);
                            let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                            let idx = match tag_encoding {
                                TagEncoding::Direct => {
                                    let Some(tv) = tagv else { return "{\"undef\":true}".into() };
                                    match vs.iter().position(|v| d.discriminant_for_variant(v.idx()).val & mask == tv & mask) {
                                        Some(i) => i,
                                        None => return "{\"opaque\":true}".into(),
                                    }
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    if isptr {
                                        untagged_variant.to_index()
                                    } else {
                                        let Some(tv) = tagv else { return "{\"undef\":true}".into() };
                                        let rel = tv.wrapping_sub(*niche_start) & mask;
                                        let n = niche_variants.end().to_index() - niche_variants.start().to_index();
                                        if rel <= n as u128 {
                                            niche_variants.start().to_index() + rel as usize
                                        } else {
                                            untagged_variant.to_index()
                                        }
                                    }
                                }
                            };
                            (idx, variants[idx].offsets.iter().map(off_of).collect())
                        }
                    };
                    let fs = vs[idx].fields();
                    let f: Vec<String> = fs
                        .iter()
                        .enumerate()
                        .map(|(i, x)| {
                            let ft = x.ty_with_args(ga);
                            self.cval(ft, a, off + offs.get(i).copied().unwrap_or(0), depth + 1)
                        })
                        .collect();
                    format!("{{\"v\":{},\"f\":{}}}", idx, arr(f))
                }
            },
            _ if sz == 0 => "{\"zst\":true}".into(),
            _ => "{\"opaque\":true}".into(),
        }
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = self.ty(c.ty());
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.cval(c.ty(), a, 0, 0),
            ConstantKind::ZeroSized => "{\"zst\":true}".into(),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(ty, a) => self.cval(*ty, a, 0, 0),
                TyConstKind::ZSTValue(_) => "{\"zst\":true}".into(),
                x => format!("{{\"opaque\":true,\"dbg\":{}}}", q(&format!("{x:?}"))),
            },
            x => format!("{{\"opaque\":true,\"dbg\":{}}}", q(&format!("{x:?}"))),
        };
        format!("{{\"t\":{t},\"c\":{v}}}")
    }

    fn place(&mut self, p: &Place) -> String {
        let ps: Vec<String> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => "[\"*\"]".into(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{},{},{}]", offset, min_length, *from_end as u8)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, *from_end as u8),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"o\"]".into(),
            })
            .collect();
        format!("[{},{}]", p.local, arr(ps))
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"p\":{},\"m\":1}}", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => format!("{{\"rc\":{}}}", q(&format!("{r:?}"))),
        }
    }
    fn rv(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"p\":{}}}]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",{{\"p\":{}}}]", self.place(p)),
            Rvalue::Ref(_, _, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::AddressOf(_, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Discriminant(p) => {
                let t = r.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"disc\",{},{}]", self.place(p), t)
            }
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",{},{},{}]", q(&format!("{b:?}")), self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",{},{},{}]", q(&format!("{b:?}")), self.op(x), self.op(y)),
            Rvalue::UnaryOp(u, x) => format!("[\"un\",{},{}]", q(&format!("{u:?}")), self.op(x)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.op(o), n.eval_target_usize().map(|x| x as i64).unwrap_or(-1)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                let mut extra = String::new();
                if matches!(k, CastKind::PointerCoercion(PointerCoercion::Unsize)) {
                    if let Ok(from) = o.ty(locals) {
                        let f = self.ty(from);
                        extra = format!(",{}", f);
                        if let Some((c, preds)) = unsize_pair(from, *t) {
                            let vt = self.vtable(c, &preds);
                            extra = format!(",{},{}", f, q(&vt));
                        }
                    }
                } else if let Ok(from) = o.ty(locals) {
                    extra = format!(",{}", self.ty(from));
                }
                let kn = format!("{k:?}");
                if kn.contains("ClosureFnPointer") {
                    if let Ok(from) = o.ty(locals) {
                        if let Some(RigidTy::Closure(d, a)) = from.kind().rigid() {
                            if let Ok(i) = Instance::resolve_closure(*d, a, ClosureKind::FnOnce) {
                                extra = format!(",{}", q(&self.inst(i)));
                            }
                        }
                    }
                }
                format!("[\"cast\",{},{},{}{}]", q(&kn), self.op(o), ti, extra)
            }
            Rvalue::Aggregate(k, ops) => {
                let t = r.ty(locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                let os: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                let (kn, v) = match k {
                    AggregateKind::Array(_) => ("array", 0),
                    AggregateKind::Tuple => ("tuple", 0),
                    AggregateKind::Adt(_, v, _, _, active) => match active {
                        Some(f) => ("union", *f),
                        None => ("adt", v.to_index()),
                    },
                    AggregateKind::Closure(..) => ("closure", 0),
                    AggregateKind::RawPtr(..) => ("rawptr", 0),
                    _ => ("other", 0),
                };
                format!("[\"agg\",\"{}\",{},{},{}]", kn, t, v, arr(os))
            }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let locals = b.locals().to_vec();
        let lt: Vec<String> = locals.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut bs = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                let line = s.source_info.span.get_lines().start_line;
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let pj = self.place(p);
                        let rj = self.rv(r, &locals);
                        ss.push(format!("[\"=\",{},{},{}]", line, pj, rj));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(format!("[\"sd\",{},{},{}]", line, self.place(place), variant_index.to_index()))
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        ss.push(format!("[\"cno\",{},{},{},{}]", line, self.op(&c.src), self.op(&c.dst), self.op(&c.count)))
                    }
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{},{}]", line, l)),
                    _ => {}
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("\"goto\",{target}"),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    let br: Vec<String> = targets.branches().map(|(v, b)| format!("[\"{v}\",{b}]")).collect();
                    format!("\"switch\",{},{},{},{}", self.op(discr), arr(br), targets.otherwise(), t)
                }
                TerminatorKind::Return => "\"return\"".into(),
                TerminatorKind::Resume => "\"resume\"".into(),
                TerminatorKind::Abort => "\"abort\"".into(),
                TerminatorKind::Unreachable => "\"unreachable\"".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&locals).map(|t| self.ty(t) as i64).unwrap_or(-1);
                    format!("\"drop\",{},{},{}", self.place(place), target, t)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    format!("\"assert\",{},{},{},{}", self.op(cond), *expected as u8, target, q(&amsg(msg)))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let os: Vec<String> = args.iter().map(|o| self.op(o)).collect();
                    format!(
                        "\"call\",{},{},{},{}",
                        self.op(func),
                        arr(os),
                        self.place(destination),
                        target.map(|t| t as i64).unwrap_or(-1)
                    )
                }
                TerminatorKind::InlineAsm { .. } => "\"asm\"".into(),
            };
            bs.push(format!("{{\"s\":{},\"t\":[{},{}]}}", arr(ss), line, t));
        }
        format!(
            "\"nargs\":{},\"locals\":{},\"spread\":{},\"blocks\":{}",
            b.arg_locals().len(),
            arr(lt),
            b.spread_arg().map(|x| x as i64).unwrap_or(-1),
            arr(bs)
        )
    }
}

fn amsg(m: &AssertMessage) -> String {
    match m {
        AssertMessage::BoundsCheck { .. } => "index out of bounds".into(),
        AssertMessage::Overflow(b, ..) => format!("arithmetic overflow ({b:?})"),
        AssertMessage::OverflowNeg(_) => "arithmetic overflow (Neg)".into(),
        AssertMessage::DivisionByZero(_) => "division by zero".into(),
        AssertMessage::RemainderByZero(_) => "remainder by zero".into(),
        AssertMessage::MisalignedPointerDereference { .. } => "ub:misaligned pointer".into(),
        AssertMessage::NullPointerDereference => "ub:null pointer dereference".into(),
        AssertMessage::NullReferenceConstructed => "ub:null reference".into(),
        AssertMessage::InvalidEnumConstruction(_) => "ub:invalid enum value".into(),
        x => format!("{x:?}"),
    }
}

// the concrete type and the dyn predicates of an unsizing coercion
fn unsize_pair(from: Ty, to: Ty) -> Option<(Ty, Vec<Binder<ExistentialPredicate>>)> {
    let fk = from.kind();
    let tk = to.kind();
    match (fk.rigid()?, tk.rigid()?) {
        (RigidTy::Ref(_, a, _) | RigidTy::RawPtr(a, _), RigidTy::Ref(_, b, _) | RigidTy::RawPtr(b, _)) => {
            if let Some(RigidTy::Dynamic(p, _)) = b.kind().rigid() {
                if !matches!(a.kind().rigid(), Some(RigidTy::Dynamic(..))) {
                    return Some((*a, p.clone()));
                }
            }
            None
        }
        (RigidTy::Adt(d, a), RigidTy::Adt(e, b)) if d == e => {
            for (x, y) in a.0.iter().zip(b.0.iter()) {
                if let (GenericArgKind::Type(x), GenericArgKind::Type(y)) = (x, y) {
                    if let Some(RigidTy::Dynamic(p, _)) = y.kind().rigid() {
                        if !matches!(x.kind().rigid(), Some(RigidTy::Dynamic(..))) {
                            return Some((*x, p.clone()));
                        }
                    }
                    if let Some(r) = unsize_pair(*x, *y) {
                        return Some(r);
                    }
                }
            }
            None
        }
        _ => None,
    }
}

fn analyse() -> ControlFlow<()> {
    let stop = std::env::var("MIRDUMP_STOP").unwrap_or_default();
    let mut d = Dump {
        tys: HashMap::new(),
        tjson: vec![],
        insts: HashSet::new(),
        queue: VecDeque::new(),
        vts: HashMap::new(),
        stop: std::fs::read_to_string(&stop).unwrap_or_default().lines().map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect(),
    };
    let mut roots = vec![];
    let mut statics = vec![];
    for it in rustc_public::all_local_items() {
        if matches!(it.kind(), ItemKind::Static) {
            statics.push(it.name().to_string());
        }
        if !matches!(it.kind(), ItemKind::Fn) || it.requires_monomorphization() {
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            let id = d.inst(i);
            let sig = it.ty();
            let mut sj = String::from("null");
            if let Some(s) = sig.kind().fn_sig() {
                let s = s.skip_binder();
                let ins: Vec<String> = s.inputs().iter().map(|t| d.ty(*t).to_string()).collect();
                let o = d.ty(s.output());
                sj = format!("{{\"in\":{},\"out\":{},\"abi\":{}}}", arr(ins), o, q(&format!("{:?}", s.abi)));
            }
            let mut an: Vec<(u16, String)> = vec![];
            if let Some(b) = i.body() {
                for v in &b.var_debug_info {
                    if let Some(k) = v.argument_index {
                        an.push((k, v.name.to_string()));
                    }
                }
            }
            an.sort();
            an.dedup_by_key(|x| x.0);
            roots.push(format!(
                "{{\"name\":{},\"inst\":{},\"sym\":{},\"sig\":{},\"names\":{}}}",
                q(&it.name()),
                q(&id),
                q(&i.mangled_name()),
                sj,
                arr(an.iter().map(|x| format!("[{},{}]", x.0, q(&x.1))))
            ));
        }
    }
    let mut fns = vec![];
    while let Some((id, i)) = d.queue.pop_front() {
        let dname = format!("{}", i.def_name());
        let full = i.name().to_string();
        let span = i.def_span();
        let ln = span.get_lines();
        let ty_args = d.args(&i.args());
        let mut head = format!(
            "{}:{{\"name\":{},\"def\":{},\"crate\":{},\"file\":{},\"line\":{},\"args\":{},\"kind\":{}",
            q(&id),
            q(&full),
            q(&dname),
            q(&i.def_crate()),
            q(&span.get_filename()),
            ln.start_line,
            ty_args,
            q(&format!("{:?}", i.kind))
        );
        if let Some(n) = i.intrinsic_name() {
            let _ = write!(head, ",\"intrinsic\":{}", q(&n));
        }
        let stopped = d.stop.iter().any(|s| if let Some(p) = s.strip_suffix('*') { dname.starts_with(p) } else { dname == *s });
        let virt = matches!(i.kind, InstanceKind::Virtual { .. });
        if !stopped && !virt && (i.has_body() || matches!(i.kind, InstanceKind::Shim)) {
            if let Some(b) = i.body() {
                let bj = d.body(&b);
                head.push(',');
                head.push_str(&bj);
            }
        }
        head.push('}');
        fns.push(head);
    }
    let vts: Vec<String> = d.vts.values().map(|v| v.split_once('|').unwrap().1.to_string()).filter(|s| !s.is_empty()).collect();
    let vts: Vec<String> = {
        let mut v = vts;
        v.sort();
        v
    };
    let out = format!(
        "{{\"crate\":{},\"roots\":{},\"types\":{},\"vtables\":{},\"statics\":{},\"fns\":{{{}}}}}",
        q(&rustc_public::local_crate().name),
        arr(roots),
        arr(d.tjson),
        arr(vts),
        arr(statics.iter().map(|s| q(s))),
        fns.join(",\n")
    );
    let dir = std::env::var("MIRDUMP_OUT").unwrap();
    std::fs::write(format!("{dir}/{}.json", rustc_public::local_crate().name), out).unwrap();
    ControlFlow::Continue(())
}

trait InstExt {
    fn def_name(&self) -> String;
    fn def_span(&self) -> Span;
    fn def_crate(&self) -> String;
}
impl InstExt for Instance {
    fn def_name(&self) -> String {
        rustc_public::CrateItem::try_from(*self).map(|c| c.name().to_string()).unwrap_or_else(|_| format!("shim {}", self.name()))
    }
    fn def_span(&self) -> Span {
        self.def.span()
    }
    fn def_crate(&self) -> String {
        self.def.krate().name.to_string()
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    // RUSTC_WRAPPER: args[0] is the real rustc
    let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    if !want.split(',').any(|w| w == name) {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    args[0] = "rustc".into();
    let r = run!(&args, || analyse());
    if r.is_err() {
        std::process::exit(1);
    }
}

trait VIdx {
    fn to_index(&self) -> usize;
}
impl VIdx for VariantIdx {
    fn to_index(&self) -> usize {
        let s = format!("{self:?}");
        let d: String = s.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
        d.parse().unwrap()
    }
}
