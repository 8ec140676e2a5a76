// rustc_private driver: dumps the monomorphic MIR of the crate being compiled (and of every generic
// library instance it reaches, up to a cut list) as JSON.  It never executes any of the dumped code.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx {
    tys: HashMap<Ty, usize>,
    ty_json: Vec<String>,
    inst: HashMap<Instance, usize>,
    inst_list: Vec<Instance>,
    queue: VecDeque<usize>,
    fn_json: BTreeMap<usize, String>,
    cut: Vec<String>,
}

fn list<T>(v: &[T], mut f: impl FnMut(&T) -> String) -> String {
    let items: Vec<String> = v.iter().map(|x| f(x)).collect();
    format!("[{}]", items.join(","))
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) { return *i; }
        let id = self.ty_json.len();
        self.tys.insert(t, id);
        self.ty_json.push(String::new());
        let j = self.ty_build(t);
        self.ty_json[id] = j;
        id
    }
    fn gargs(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a.0.iter().filter_map(|g| match g {
            GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
            GenericArgKind::Const(c) => Some(match c.eval_target_usize() { Ok(n) => format!("{{\"c\":{}}}", n), _ => "null".into() }),
            _ => None,
        }).collect();
        format!("[{}]", v.join(","))
    }
    fn ty_build(&mut self, t: Ty) -> String {
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "{\"k\":\"bool\"}".into(),
                RigidTy::Char => "{\"k\":\"char\"}".into(),
                RigidTy::Int(i) => format!("{{\"k\":\"int\",\"signed\":true,\"bits\":{}}}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("{{\"k\":\"int\",\"signed\":false,\"bits\":{}}}", i.num_bytes() * 8),
                RigidTy::Float(_) => "{\"k\":\"float\"}".into(),
                RigidTy::Str => "{\"k\":\"str\"}".into(),
                RigidTy::Never => "{\"k\":\"never\"}".into(),
                RigidTy::Tuple(v) => { let f = v.iter().map(|x| self.ty(*x).to_string()).collect::<Vec<_>>().join(","); format!("{{\"k\":\"tuple\",\"f\":[{}]}}", f) }
                RigidTy::Ref(_, x, m) => { let i = self.ty(x); format!("{{\"k\":\"ref\",\"t\":{},\"mut\":{}}}", i, matches!(m, Mutability::Mut)) }
                RigidTy::RawPtr(x, m) => { let i = self.ty(x); format!("{{\"k\":\"ptr\",\"t\":{},\"mut\":{}}}", i, matches!(m, Mutability::Mut)) }
                RigidTy::Slice(x) => { let i = self.ty(x); format!("{{\"k\":\"slice\",\"t\":{}}}", i) }
                RigidTy::Array(x, n) => { let i = self.ty(x); format!("{{\"k\":\"array\",\"t\":{},\"n\":{}}}", i, n.eval_target_usize().map(|n| n.to_string()).unwrap_or("null".into())) }
                RigidTy::Adt(d, a) => {
                    let g = self.gargs(&a);
                    let name = d.name();
                    let mut vs = vec![];
                    for v in d.variants_iter() {
                        let discr = if d.kind().is_enum() { d.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                        let fs: Vec<String> = v.fields().iter().map(|f| format!("[{},{}]", js(&f.name), self.ty(f.ty_with_args(&a)))).collect();
                        vs.push(format!("{{\"name\":{},\"discr\":{},\"f\":[{}]}}", js(&v.name()), discr, fs.join(",")));
                    }
                    format!("{{\"k\":\"adt\",\"name\":{},\"kind\":\"{}\",\"args\":{},\"v\":[{}]}}", js(&name), d.kind(), g, vs.join(","))
                }
                RigidTy::FnDef(d, a) => {
                    let g = self.gargs(&a);
                    let i = Instance::resolve(d, &a).ok().map(|i| self.instance(i).to_string()).unwrap_or("null".into());
                    format!("{{\"k\":\"fndef\",\"path\":{},\"args\":{},\"inst\":{}}}", js(&d.name()), g, i)
                }
                RigidTy::Closure(d, a) => {
                    let inst = Instance::resolve_closure(d, &a, ClosureKind::FnOnce).ok().map(|i| self.instance(i).to_string()).unwrap_or("null".into());
                    let body = Instance::resolve_closure(d, &a, ClosureKind::Fn).ok().map(|i| self.instance(i).to_string()).unwrap_or("null".into());
                    format!("{{\"k\":\"closure\",\"name\":{},\"inst\":{},\"body\":{}}}", js(&d.name()), inst, body)
                }
                RigidTy::FnPtr(_) => "{\"k\":\"fnptr\"}".into(),
                RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"name\":{}}}", js(&t.to_string())),
                RigidTy::Pat(x, _) => { let i = self.ty(x); format!("{{\"k\":\"pat\",\"t\":{}}}", i) }
                _ => format!("{{\"k\":\"other\",\"name\":{}}}", js(&t.to_string())),
            },
            _ => format!("{{\"k\":\"other\",\"name\":{}}}", js(&t.to_string())),
        }
    }
    fn instance(&mut self, i: Instance) -> usize {
        if let Some(n) = self.inst.get(&i) { return *n; }
        let n = self.inst_list.len();
        self.inst.insert(i, n);
        self.inst_list.push(i);
        self.queue.push_back(n);
        n
    }
    fn span(&mut self, s: rustc_public::ty::Span) -> String {
        let l = s.get_lines();
        js(&format!("{}:{}", s.get_filename(), l.start_line))
    }
    fn place(&mut self, p: &Place) -> String {
        let mut pr = vec![];
        for e in &p.projection {
            pr.push(match e {
                ProjectionElem::Deref => "\"*\"".into(),
                ProjectionElem::Field(i, t) => { let t = self.ty(*t); format!("[\"f\",{},{}]", i, t) }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => format!("[\"ci\",{},{},{}]", offset, from_end, min_length),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"oc\"]".into(),
                #[allow(unreachable_patterns)]
                _ => "[\"?\"]".into(),
            });
        }
        format!("[{},[{}]]", p.local, pr.join(","))
    }
    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> Option<String> {
        if depth > 12 { return None; }
        let shape = t.layout().ok()?.shape();
        let size = shape.size.bytes();
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => { let n = a.read_partial_uint(off..off + size).ok()?; Some(format!("{{\"s\":{}}}", n)) }
                RigidTy::Int(_) => {
                    let n = a.read_partial_uint(off..off + size).ok()?;
                    let bits = size * 8;
                    let v = if bits < 128 && (n >> (bits - 1)) & 1 == 1 { (n as i128) - (1i128 << bits) } else { n as i128 };
                    Some(format!("{{\"s\":{}}}", v))
                }
                RigidTy::Tuple(fs) => {
                    let offs: Vec<usize> = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![0; fs.len()] };
                    let mut v = vec![];
                    for (i, f) in fs.iter().enumerate() { v.push(self.decode(a, off + offs.get(i).copied().unwrap_or(0), *f, depth + 1)?); }
                    let tid = self.ty(t);
                    Some(format!("{{\"agg\":[{}],\"v\":0,\"ty\":{}}}", v.join(","), tid))
                }
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().ok()?;
                    if n > 4096 { return None; }
                    let es = e.layout().ok()?.shape().size.bytes();
                    let mut v = vec![];
                    for i in 0..n as usize { v.push(self.decode(a, off + i * es, e, depth + 1)?); }
                    Some(format!("{{\"arr\":[{}]}}", v.join(",")))
                }
                RigidTy::Ref(_, inner, _) | RigidTy::RawPtr(inner, _) => {
                    let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off)?.1;
                    let base = a.read_partial_uint(off..off + 8).ok()? as usize;
                    match GlobalAlloc::from(prov.0) {
                        GlobalAlloc::Memory(m) => match inner.kind() {
                            TyKind::RigidTy(RigidTy::Str) => {
                                let len = a.read_partial_uint(off + 8..off + 16).ok()? as usize;
                                let b = m.raw_bytes().ok()?;
                                Some(format!("{{\"str\":{}}}", js(&String::from_utf8_lossy(&b[base..base + len]))))
                            }
                            TyKind::RigidTy(RigidTy::Slice(e)) => {
                                let len = a.read_partial_uint(off + 8..off + 16).ok()? as usize;
                                if len > 4096 { return None; }
                                let es = e.layout().ok()?.shape().size.bytes();
                                let mut v = vec![];
                                for i in 0..len { v.push(self.decode(&m, base + i * es, e, depth + 1)?); }
                                Some(format!("{{\"refarr\":[{}]}}", v.join(",")))
                            }
                            _ => { let x = self.decode(&m, base, inner, depth + 1)?; Some(format!("{{\"ref\":{}}}", x)) }
                        },
                        GlobalAlloc::Function(i) => { let n = self.instance(i); Some(format!("{{\"fnptr\":{}}}", n)) }
                        GlobalAlloc::Static(s) => {
                            let init = if base == 0 { s.eval_initializer().ok().and_then(|m| self.decode(&m, 0, inner, depth + 1)) } else { None };
                            Some(match init {
                                Some(x) => format!("{{\"static\":{},\"init\":{}}}", js(&s.name()), x),
                                None => format!("{{\"static\":{}}}", js(&s.name())),
                            })
                        }
                        _ => None,
                    }
                }
                RigidTy::FnPtr(_) => {
                    let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off)?.1;
                    match GlobalAlloc::from(prov.0) { GlobalAlloc::Function(i) => { let n = self.instance(i); Some(format!("{{\"fnptr\":{}}}", n)) } _ => None }
                }
                RigidTy::FnDef(..) | RigidTy::Closure(..) => { let n = self.ty(t); Some(format!("{{\"zst\":{}}}", n)) }
                RigidTy::Adt(d, ga) => {
                    let vi = match &shape.variants {
                        VariantsShape::Empty => return None,
                        VariantsShape::Single { index } => (*index, None),
                        VariantsShape::Multiple { tag_encoding, tag_field, variants, tag } => {
                            let offs = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect::<Vec<_>>(), _ => vec![0] };
                            let to = off + offs[*tag_field];
                            let tsz = match tag { rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => value.size(&rustc_public::target::MachineInfo::target()).bytes() };
                            let isptr = a.provenance.ptrs.iter().any(|(o, _)| *o == to);
                            let mut val = None;
                            if !isptr { val = a.read_partial_uint(to..to + tsz).ok(); }
                            let idx = match tag_encoding {
                                TagEncoding::Direct => { let v = val?; d.variants_iter().map(|x| x.idx()).find(|i| { let dv = d.discriminant_for_variant(*i).val; let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 }; dv & mask == v })? }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    match val {
                                        None => *untagged_variant,
                                        Some(v) => {
                                            let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                            let rel = v.wrapping_sub(*niche_start) & mask;
                                            let st = niche_variants.start().to_index() as u128; let en = niche_variants.end().to_index() as u128;
                                            if rel <= en - st { d.variants_iter().map(|x| x.idx()).find(|i| i.to_index() as u128 == st + rel)? } else { *untagged_variant }
                                        }
                                    }
                                }
                            };
                            let vf = variants[idx.to_index()].offsets.iter().map(|o| o.bytes()).collect::<Vec<_>>();
                            (idx, Some(vf))
                        }
                    };
                    let (idx, offs) = vi;
                    let offs = match offs { Some(o) => o, None => match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![0; 8] } };
                    let variant = d.variants_iter().find(|v| v.idx() == idx)?;
                    let mut v = vec![];
                    for (i, f) in variant.fields().iter().enumerate() { v.push(self.decode(a, off + offs.get(i).copied().unwrap_or(0), f.ty_with_args(&ga), depth + 1)?); }
                    let tid = self.ty(t);
                    Some(format!("{{\"agg\":[{}],\"v\":{},\"ty\":{}}}", v.join(","), idx.to_index(), tid))
                }
                _ => None,
            },
            _ => None,
        }
    }
    fn constant(&mut self, c: &ConstOperand) -> String {
        let t = c.const_.ty();
        let tid = self.ty(t);
        let v = match c.const_.kind() {
            ConstantKind::ZeroSized => format!("{{\"zst\":{}}}", tid),
            ConstantKind::Allocated(a) => self.decode(a, 0, t, 0).unwrap_or("null".into()),
            ConstantKind::Ty(tc) => match tc.kind() { TyConstKind::Value(t2, a) => self.decode(a, 0, *t2, 0).unwrap_or("null".into()), TyConstKind::ZSTValue(t2) => format!("{{\"zst\":{}}}", self.ty(*t2)), _ => "null".into() },
            _ => "null".into(),
        };
        format!("[\"k\",{},{}]", tid, v)
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.constant(c),
            Operand::RuntimeChecks(_) => "[\"rc\"]".into(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(bk, BorrowKind::Mut { .. })),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::BinaryOp(b, x, y) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => format!("[\"cbin\",\"{:?}\",{},{}]", b, self.op(x), self.op(y)),
            Rvalue::UnaryOp(u, x) => format!("[\"un\",\"{:?}\",{}]", u, self.op(x)),
            Rvalue::Cast(k, x, t) => { let t = self.ty(*t); format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), self.op(x), t) }
            Rvalue::Repeat(x, n) => format!("[\"rep\",{},{}]", self.op(x), n.eval_target_usize().map(|n| n.to_string()).unwrap_or("null".into())),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::Aggregate(k, ops) => {
                let o = ops.iter().map(|x| self.op(x)).collect::<Vec<_>>().join(",");
                let kk = match k {
                    AggregateKind::Array(_) => "[\"array\"]".into(),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, _) => { let t = Ty::from_rigid_kind(RigidTy::Adt(*d, a.clone())); let t = self.ty(t); format!("[\"adt\",{},{}]", t, v.to_index()) }
                    AggregateKind::Closure(d, a) => { let t = Ty::from_rigid_kind(RigidTy::Closure(*d, a.clone())); let t = self.ty(t); format!("[\"closure\",{}]", t) }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".into(),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},[{}]]", kk, o)
            }
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let locals = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect::<Vec<_>>().join(",");
        let mut names = vec![];
        for v in &b.var_debug_info { if let Some(l) = v.local() { names.push(format!("[{},{}]", l, js(&v.name))); } }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(p, r) => { let p = self.place(p); let r = self.rvalue(r); st.push(format!("[\"=\",{},{},{}]", p, r, sp)) }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); st.push(format!("[\"sd\",{},{},{}]", p, variant_index.to_index(), sp)) }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => {}
                    StatementKind::Intrinsic(_) => st.push(format!("[\"intr\",{}]", sp)),
                    _ => {}
                }
            }
            let sp = self.span(bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br = targets.branches().map(|(v, b)| format!("[{},{}]", v, b)).collect::<Vec<_>>().join(",");
                    format!("[\"switch\",{},[{}],{}]", self.op(discr), br, targets.otherwise())
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Resume | TerminatorKind::Abort => "[\"resume\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(place); format!("[\"drop\",{},{}]", p, target) }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let d = msg.description().map(|s| s.to_string()).unwrap_or(match msg { AssertMessage::BoundsCheck { .. } => "index out of bounds".into(), _ => "assert".into() });
                    format!("[\"assert\",{},{},{},{}]", self.op(cond), expected, js(&d), target)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let mut callee = "null".to_string();
                    if let Operand::Constant(c) = func {
                        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = c.const_.ty().kind() {
                            callee = match Instance::resolve(d, &a) { Ok(i) => self.instance(i).to_string(), Err(_) => js(&d.name()) };
                        }
                    }
                    let f = self.op(func);
                    let ar = args.iter().map(|x| self.op(x)).collect::<Vec<_>>().join(",");
                    let d = self.place(destination);
                    format!("[\"call\",{},{},[{}],{},{}]", callee, f, ar, d, target.map(|t| t.to_string()).unwrap_or("null".into()))
                }
                _ => "[\"other\"]".into(),
            };
            blocks.push(format!("{{\"s\":[{}],\"t\":{},\"sp\":{}}}", st.join(","), t, sp));
        }
        format!("\"argc\":{},\"locals\":[{}],\"names\":[{}],\"blocks\":[{}]", b.arg_locals().len(), locals, names.join(","), blocks.join(",\n"))
    }
    fn process(&mut self, n: usize) {
        let i = self.inst_list[n];
        let (path, args, local) = match i.ty().kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => (d.name(), self.gargs(&a), d.krate().is_local),
            TyKind::RigidTy(RigidTy::Closure(d, _)) => (d.name(), "[]".into(), d.krate().is_local),
            _ => (i.name(), "[]".into(), false),
        };
        let kind = match i.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim", _ => "other" };
        let ty = self.ty(i.ty());
        let mut s = format!("{{\"id\":{},\"name\":{},\"path\":{},\"args\":{},\"local\":{},\"kind\":\"{}\",\"ty\":{}", n, js(&i.name()), js(&path), args, local, kind, ty);
        let cut = !local && self.cut.iter().any(|c| path.starts_with(c.as_str()));
        if !cut && !matches!(i.kind, InstanceKind::Intrinsic | InstanceKind::Virtual { .. }) {
            if i.has_body() {
                if let Some(b) = i.body() {
                    let sp = self.span(b.span);
                    let _ = write!(s, ",\"span\":{},", sp);
                    let bj = self.body(&b);
                    s.push_str(&bj);
                }
            }
        } else if cut { s.push_str(",\"cut\":true"); }
        s.push('}');
        self.fn_json.insert(n, s);
    }
}

fn analyze() -> ControlFlow<()> {
    let cutf = std::env::var("MIRDUMP_CUT").unwrap_or_default();
    let mut cx = Cx { tys: HashMap::new(), ty_json: vec![], inst: HashMap::new(), inst_list: vec![], queue: VecDeque::new(), fn_json: BTreeMap::new(),
        cut: cutf.split('|').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect() };
    let mut roots = vec![];
    let mut statics = vec![];
    let mut generic = vec![];
    for it in rustc_public::all_local_items() {
        match it.kind() {
            rustc_public::ItemKind::Fn => {
                if it.requires_monomorphization() { generic.push(js(&it.name())); continue; }
                if let Ok(i) = Instance::try_from(it) { roots.push(cx.instance(i)); }
            }
            rustc_public::ItemKind::Static => statics.push(js(&format!("{} {}", it.name(), it.span().diagnostic()))),
            _ => {}
        }
    }
    while let Some(n) = cx.queue.pop_front() { cx.process(n); }
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let fns: Vec<String> = cx.fn_json.values().cloned().collect();
    let s = format!("{{\"types\":[{}],\n\"roots\":{},\n\"statics\":[{}],\n\"generic\":[{}],\n\"fns\":[{}]}}\n", cx.ty_json.join(",\n"), list(&roots, |r| r.to_string()), statics.join(","), generic.join(","), fns.join(",\n"));
    std::fs::write(out, s).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let r = run!(&args, analyze);
    std::process::exit(if r.is_ok() { 0 } else { 1 });
}
