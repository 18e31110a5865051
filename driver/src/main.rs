//! ressa-mir: a RUSTC_WORKSPACE_WRAPPER that type-checks a crate exactly as the
//! real build does and dumps its monomorphised MIR (resolved callees, decoded
//! constants, type tables) as JSON.  Nothing is executed; all decisions are taken
//! by the analyses in ../engine over this dump.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;

extern crate rustc_public_bridge;
use rustc_public_bridge::IndexedVal;
use rustc_public::abi::{FieldsShape, Scalar, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::*;
use std::collections::HashMap;
use std::fmt::Write as _;

enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{}\":", k);
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn u(x: usize) -> J {
    J::I(x as i128)
}

struct Cx {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<J>,
    insts: HashMap<Instance, usize>,
    inst_list: Vec<Instance>,
    root_name: HashMap<usize, bool>,
}

fn crate_of(i: &Instance) -> String {
    i.def.krate().name
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(J::Null);
        let j = self.ty_j(t);
        self.ty_out[i] = j;
        i
    }
    fn args_j(&mut self, a: &GenericArgs) -> J {
        let mut v = vec![];
        for x in &a.0 {
            if let GenericArgKind::Type(t) = x {
                let i = self.ty(*t);
                v.push(u(i));
            }
        }
        J::A(v)
    }
    fn ty_j(&mut self, t: Ty) -> J {
        let kind = t.kind();
        let TyKind::RigidTy(r) = kind else {
            return J::O(vec![("k", s("other")), ("s", s(format!("{:?}", kind)))]);
        };
        match r {
            RigidTy::Bool => J::O(vec![("k", s("bool"))]),
            RigidTy::Char => J::O(vec![("k", s("char"))]),
            RigidTy::Int(i) => J::O(vec![("k", s("int")), ("s", s(format!("{:?}", i)))]),
            RigidTy::Uint(i) => J::O(vec![("k", s("uint")), ("s", s(format!("{:?}", i)))]),
            RigidTy::Float(_) => J::O(vec![("k", s("float"))]),
            RigidTy::Str => J::O(vec![("k", s("str"))]),
            RigidTy::Never => J::O(vec![("k", s("never"))]),
            RigidTy::Array(e, n) => {
                let e = self.ty(e);
                let n = n.eval_target_usize().map(|x| J::I(x as i128)).unwrap_or(J::Null);
                J::O(vec![("k", s("array")), ("e", u(e)), ("n", n)])
            }
            RigidTy::Slice(e) => {
                let e = self.ty(e);
                J::O(vec![("k", s("slice")), ("e", u(e))])
            }
            RigidTy::RawPtr(e, _) => {
                let e = self.ty(e);
                J::O(vec![("k", s("ptr")), ("e", u(e))])
            }
            RigidTy::Ref(_, e, m) => {
                let e = self.ty(e);
                J::O(vec![("k", s("ref")), ("e", u(e)), ("mut", J::B(m == Mutability::Mut))])
            }
            RigidTy::Tuple(v) => {
                let v = v.iter().map(|x| u(self.ty(*x))).collect();
                J::O(vec![("k", s("tuple")), ("es", J::A(v))])
            }
            RigidTy::FnDef(d, a) => {
                let a2 = self.args_j(&a);
                J::O(vec![("k", s("fndef")), ("name", s(d.name())), ("args", a2)])
            }
            RigidTy::FnPtr(_) => J::O(vec![("k", s("fnptr"))]),
            RigidTy::Closure(d, a) => {
                let mut ups = vec![];
                // captured variable types: last generic arg is the upvar tuple
                if let Some(GenericArgKind::Type(t)) = a.0.last() {
                    if let TyKind::RigidTy(RigidTy::Tuple(v)) = t.kind() {
                        for x in v {
                            ups.push(u(self.ty(x)));
                        }
                    }
                }
                let mut bodies = vec![];
                for k in [ClosureKind::FnOnce] {
                    if let Ok(i) = Instance::resolve_closure(d, &a, k) {
                        bodies.push(u(self.inst(i)));
                    }
                }
                // the by-ref body
                let mut kindi = J::Null;
                if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::Fn) {
                    kindi = u(self.inst(i));
                } else if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnMut) {
                    kindi = u(self.inst(i));
                }
                J::O(vec![
                    ("k", s("closure")),
                    ("name", s(d.name())),
                    ("ups", J::A(ups)),
                    ("once", J::A(bodies)),
                    ("body", kindi),
                ])
            }
            RigidTy::Adt(d, a) => {
                let name = d.name();
                let args = self.args_j(&a);
                let kind = match d.kind() {
                    AdtKind::Enum => "enum",
                    AdtKind::Struct => "struct",
                    AdtKind::Union => "union",
                };
                let mut vars = vec![];
                for v in d.variants() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(&a);
                        let fi = self.ty(ft);
                        fs.push(J::A(vec![s(f.name.clone()), u(fi)]));
                    }
                    let dv = if kind == "enum" { d.discriminant_for_variant(v.idx()).val as i128 } else { 0 };
                    vars.push(J::O(vec![("name", s(v.name())), ("discr", J::I(dv)), ("fields", J::A(fs))]));
                }
                J::O(vec![
                    ("k", s("adt")),
                    ("name", s(name)),
                    ("kind", s(kind)),
                    ("box", J::B(d.is_box())),
                    ("args", args),
                    ("vars", J::A(vars)),
                    ("s", s(format!("{}", t))),
                ])
            }
            o => J::O(vec![("k", s("other")), ("s", s(format!("{:?}", o)))]),
        }
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.insts.get(&i) {
            return *x;
        }
        let n = self.inst_list.len();
        self.insts.insert(i, n);
        self.inst_list.push(i);
        n
    }

    // ---------- constants ----------
    fn konst(&mut self, c: &MirConst) -> J {
        let ty = c.ty();
        let ti = self.ty(ty);
        let v = match c.kind() {
            ConstantKind::ZeroSized => self.zst(ty),
            ConstantKind::Allocated(a) => self.decode(a, 0, ty),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(n) => J::O(vec![("int", J::I(n as i128))]),
                Err(_) => J::O(vec![("opaque", s(format!("{:?}", tc)))]),
            },
            o => J::O(vec![("opaque", s(format!("{:?}", o)))]),
        };
        J::A(vec![s("k"), v, u(ti)])
    }
    fn zst(&mut self, ty: Ty) -> J {
        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = ty.kind() {
            match Instance::resolve(d, &a) {
                Ok(i) => {
                    let n = self.inst(i);
                    return J::O(vec![("fn", u(n)), ("def", s(d.name()))]);
                }
                Err(_) => {
                    let args = self.args_j(&a);
                    return J::O(vec![("fnunres", s(d.name())), ("args", args)]);
                }
            }
        }
        let t = self.ty(ty);
        J::O(vec![("zst", u(t))])
    }
    fn prov(&self, a: &Allocation, off: usize) -> Option<GlobalAlloc> {
        for (o, p) in &a.provenance.ptrs {
            if *o == off {
                return Some(GlobalAlloc::from(p.0));
            }
        }
        None
    }
    fn rd(&self, a: &Allocation, off: usize, n: usize) -> Option<u128> {
        a.read_partial_uint(off..off + n).ok()
    }
    fn decode(&mut self, a: &Allocation, off: usize, ty: Ty) -> J {
        let opq = |x: &str| J::O(vec![("opaque", s(x))]);
        let Ok(lay) = ty.layout() else { return opq("nolayout") };
        let sh = lay.shape();
        let size = sh.size.bytes();
        let TyKind::RigidTy(r) = ty.kind() else { return opq("nonrigid") };
        match r {
            RigidTy::Bool => match self.rd(a, off, 1) {
                Some(x) => J::O(vec![("bool", J::B(x != 0))]),
                None => opq("uninit"),
            },
            RigidTy::Char => match self.rd(a, off, 4) {
                Some(x) => J::O(vec![("char", J::I(x as i128))]),
                None => opq("uninit"),
            },
            RigidTy::Uint(_) => match self.rd(a, off, size) {
                Some(x) => J::O(vec![("int", J::I(x as i128))]),
                None => opq("uninit"),
            },
            RigidTy::Int(_) => match self.rd(a, off, size) {
                Some(x) => {
                    let sh = 128 - size * 8;
                    J::O(vec![("int", J::I(((x << sh) as i128) >> sh))])
                }
                None => opq("uninit"),
            },
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let Some(g) = self.prov(a, off) else { return opq("ptr-noprov") };
                let inner_off = self.rd(a, off, 8).unwrap_or(0) as usize;
                match g {
                    GlobalAlloc::Memory(m) => match e.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let len = self.rd(a, off + 8, 8).unwrap_or(0) as usize;
                            let b: Option<Vec<u8>> =
                                m.bytes[inner_off..inner_off + len].iter().copied().collect();
                            match b {
                                Some(b) => J::O(vec![("str", s(String::from_utf8_lossy(&b).into_owned()))]),
                                None => opq("uninit str"),
                            }
                        }
                        TyKind::RigidTy(RigidTy::Slice(el)) => {
                            let len = self.rd(a, off + 8, 8).unwrap_or(0) as usize;
                            let st = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                            let mut v = vec![];
                            for k in 0..len.min(4096) {
                                v.push(self.decode(&m, inner_off + k * st, el));
                            }
                            J::O(vec![("ref", J::O(vec![("arr", J::A(v))]))])
                        }
                        _ => {
                            let v = self.decode(&m, inner_off, e);
                            J::O(vec![("ref", v)])
                        }
                    },
                    GlobalAlloc::Function(i) => {
                        let n = self.inst(i);
                        J::O(vec![("fnptr", u(n))])
                    }
                    GlobalAlloc::Static(d) => J::O(vec![("static", s(d.name()))]),
                    _ => opq("vtable"),
                }
            }
            RigidTy::Array(el, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let st = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let mut v = vec![];
                for k in 0..n.min(4096) {
                    v.push(self.decode(a, off + k * st, el));
                }
                J::O(vec![("arr", J::A(v))])
            }
            RigidTy::Tuple(es) => {
                let FieldsShape::Arbitrary { offsets } = sh.fields else {
                    return if es.is_empty() { J::O(vec![("tuple", J::A(vec![]))]) } else { opq("tup") };
                };
                let mut v = vec![];
                for (k, e) in es.iter().enumerate() {
                    v.push(self.decode(a, off + offsets[k].bytes(), *e));
                }
                J::O(vec![("tuple", J::A(v))])
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => self.zst(ty),
            RigidTy::FnPtr(_) => match self.prov(a, off) {
                Some(GlobalAlloc::Function(i)) => {
                    let n = self.inst(i);
                    J::O(vec![("fnptr", u(n))])
                }
                _ => opq("fnptr"),
            },
            RigidTy::Adt(d, ga) => {
                let ti = self.ty(ty);
                let vars = d.variants();
                let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Single { index } => {
                        let offs = match &sh.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect(),
                            FieldsShape::Union(n) => vec![0; n.get()],
                            _ => vec![],
                        };
                        (index.to_index(), offs)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let FieldsShape::Arbitrary { offsets } = &sh.fields else { return opq("tagfields") };
                        let toff = off + offsets[*tag_field].bytes();
                        let p = match tag {
                            Scalar::Initialized { value, .. } => value,
                            Scalar::Union { value } => value,
                        };
                        let tsz = p.size(&rustc_public::target::MachineInfo::target()).bytes();
                        let is_ptr_prov = self.prov(a, toff).is_some();
                        let Some(tagv) = self.rd(a, toff, tsz) else { return opq("uninit tag") };
                        let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let mut f = None;
                                for v in &vars {
                                    if d.discriminant_for_variant(v.idx()).val & mask == tagv {
                                        f = Some(v.idx().to_index());
                                    }
                                }
                                let Some(f) = f else { return opq("bad discr") };
                                f
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let lo = niche_variants.start().to_index() as u128;
                                let hi = niche_variants.end().to_index() as u128;
                                let rel = tagv.wrapping_sub(*niche_start) & mask;
                                if !is_ptr_prov && rel <= hi - lo {
                                    (lo + rel) as usize
                                } else {
                                    untagged_variant.to_index()
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|x| x.bytes()).collect())
                    }
                    VariantsShape::Empty => return opq("empty"),
                };
                let mut fs = vec![];
                if d.kind() == AdtKind::Union {
                    return opq("union");
                }
                for (k, f) in vars[vi].fields().iter().enumerate() {
                    let ft = f.ty_with_args(&ga);
                    let o = offs.get(k).copied().unwrap_or(0);
                    fs.push(self.decode(a, off + o, ft));
                }
                J::O(vec![("adt", u(ti)), ("var", u(vi)), ("fields", J::A(fs))])
            }
            _ => opq("unsupported"),
        }
    }

    // ---------- bodies ----------
    fn place(&mut self, p: &Place) -> J {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(*t);
                    J::A(vec![s("f"), u(*i), u(t)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), u(*l)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), J::I(*offset as i128), J::I(*min_length as i128), J::B(*from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), J::I(*from as i128), J::I(*to as i128), J::B(*from_end)])
                }
                ProjectionElem::Downcast(v) => J::A(vec![s("d"), u(v.to_index())]),
                ProjectionElem::OpaqueCast(_) => J::A(vec![s("oc")]),
            });
        }
        J::A(vec![u(p.local), J::A(v)])
    }
    fn op(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => {
                let p = self.place(p);
                J::A(vec![s("c"), p])
            }
            Operand::Move(p) => {
                let p = self.place(p);
                J::A(vec![s("m"), p])
            }
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(_) => J::A(vec![s("k"), J::O(vec![("bool", J::B(true))]), J::Null]),
        }
    }
    fn rv(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> J {
        match r {
            Rvalue::AddressOf(_, p) | Rvalue::Ref(_, _, p) => {
                let m = match r {
                    Rvalue::Ref(_, BorrowKind::Mut { .. }, _) => true,
                    _ => false,
                };
                let p = self.place(p);
                J::A(vec![s("ref"), p, J::B(m)])
            }
            Rvalue::Aggregate(k, ops) => {
                let t = r.ty(locals).ok().map(|t| self.ty(t));
                let ops: Vec<J> = ops.iter().map(|o| self.op(o)).collect();
                let (kn, vi, fi) = match k {
                    AggregateKind::Array(_) => ("array", 0, None),
                    AggregateKind::Tuple => ("tuple", 0, None),
                    AggregateKind::Adt(_, v, _, _, f) => ("adt", v.to_index(), *f),
                    AggregateKind::Closure(..) => ("closure", 0, None),
                    AggregateKind::RawPtr(..) => ("rawptr", 0, None),
                    _ => ("other", 0, None),
                };
                J::A(vec![
                    s("agg"),
                    s(kn),
                    u(vi),
                    J::A(ops),
                    t.map(u).unwrap_or(J::Null),
                    fi.map(u).unwrap_or(J::Null),
                ])
            }
            Rvalue::BinaryOp(b, x, y) => {
                let (x, y) = (self.op(x), self.op(y));
                J::A(vec![s("bin"), s(format!("{:?}", b)), x, y])
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                let (x, y) = (self.op(x), self.op(y));
                J::A(vec![s("cbin"), s(format!("{:?}", b)), x, y])
            }
            Rvalue::UnaryOp(b, x) => {
                let x = self.op(x);
                J::A(vec![s("un"), s(format!("{:?}", b)), x])
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(locals).ok().map(|t| self.ty(t)).map(u).unwrap_or(J::Null);
                let o = self.op(o);
                let t = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{:?}", k)), o, u(t), from])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                J::A(vec![s("use"), J::A(vec![s("c"), p])])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(locals).ok().map(|t| self.ty(t)).map(u).unwrap_or(J::Null);
                let p = self.place(p);
                J::A(vec![s("discr"), p, t])
            }
            Rvalue::Len(p) => {
                let p = self.place(p);
                J::A(vec![s("len"), p])
            }
            Rvalue::Repeat(o, c) => {
                let o = self.op(o);
                let n = c.eval_target_usize().map(|x| J::I(x as i128)).unwrap_or(J::Null);
                J::A(vec![s("repeat"), o, n])
            }
            Rvalue::Use(o, _) => {
                let o = self.op(o);
                J::A(vec![s("use"), o])
            }
            Rvalue::ThreadLocalRef(c) => J::A(vec![s("tls"), s(c.name())]),
            Rvalue::Reborrow(..) => J::A(vec![s("other")]),
        }
    }
    fn line(&self, sp: &Span) -> J {
        u(sp.get_lines().start_line)
    }
    fn body(&mut self, b: &Body) -> J {
        let locals: Vec<J> = b.locals().iter().map(|l| u(self.ty(l.ty))).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pj = self.place(p);
                names.push(J::A(vec![s(v.name.clone()), pj, v.argument_index.map(|x| u(x as usize)).unwrap_or(J::Null)]));
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for st in &bb.statements {
                match &st.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        let r = self.rv(r, b.locals());
                        let l = self.line(&st.source_info.span);
                        ss.push(J::A(vec![s("="), p, r, l]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        ss.push(J::A(vec![s("sd"), p, u(variant_index.to_index())]));
                    }
                    StatementKind::StorageDead(l) => ss.push(J::A(vec![s("sdead"), u(*l)])),
                    _ => {}
                }
            }
            let ln = bb.terminator.source_info.span.get_lines().start_line; let l = u(ln);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => J::A(vec![s("goto"), u(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(b.locals()).ok().map(|t| self.ty(t)).map(u).unwrap_or(J::Null);
                    let d = self.op(discr);
                    let br: Vec<J> = targets
                        .branches()
                        .map(|(v, t)| J::A(vec![J::I(v as i128), u(t)]))
                        .collect();
                    J::A(vec![s("switch"), d, J::A(br), u(targets.otherwise()), t])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Resume => J::A(vec![s("resume")]),
                TerminatorKind::Abort => J::A(vec![s("abort")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(b.locals()).ok().map(|t| self.ty(t)).map(u).unwrap_or(J::Null);
                    let p = self.place(place);
                    J::A(vec![s("drop"), p, u(*target), t])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func);
                    let a: Vec<J> = args.iter().map(|x| self.op(x)).collect();
                    let at: Vec<J> = args
                        .iter()
                        .map(|x| x.ty(b.locals()).ok().map(|t| self.ty(t)).map(u).unwrap_or(J::Null))
                        .collect();
                    let d = self.place(destination);
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        d,
                        target.map(u).unwrap_or(J::Null),
                        l,
                        J::A(at),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond);
                    let (mk, mo) = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            ("BoundsCheck".to_string(), vec![self.op(len), self.op(index)])
                        }
                        AssertMessage::Overflow(o, a, b) => {
                            (format!("Overflow{:?}", o), vec![self.op(a), self.op(b)])
                        }
                        o => (format!("{:?}", o).split('(').next().unwrap().to_string(), vec![]),
                    };
                    J::A(vec![s("assert"), c, J::B(*expected), u(*target), s(mk), J::A(mo), l])
                }
                TerminatorKind::InlineAsm { .. } => J::A(vec![s("asm")]),
            };
            blocks.push(J::A(vec![J::A(ss), t, u(ln)]));
        }
        let li = b.span.get_lines();
        J::O(vec![
            ("nargs", u(b.arg_locals().len())),
            ("spread", b.spread_arg().map(|x| u(x)).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
            ("file", s(b.span.get_filename())),
            ("l0", u(li.start_line)),
            ("l1", u(li.end_line)),
        ])
    }
}

fn want_body(krate: &str, name: &str) -> bool {
    if krate == "ressa" || krate == "ress" || krate == "resast" {
        return true;
    }
    const P: &[&str] = &[
        "option::", "result::", "ops::", "convert::", "cmp::", "clone::", "mem::", "borrow::", "boxed::", "string::", "str::",
        "char::", "iter::", "slice::", "vec::", "fmt::", "default::", "num::", "bool::", "array::",
    ];
    let n = name.trim_start_matches('<');
    for c in ["std::", "core::", "alloc::"] {
        if let Some(r) = n.strip_prefix(c) {
            return P.iter().any(|p| r.starts_with(p));
        }
    }
    // inherent impls on primitives: "<impl ...>::"
    krate == "core" || krate == "alloc" || krate == "std"
}

fn dump(out: &str) {
    let mut cx = Cx {
        tys: HashMap::new(),
        ty_out: vec![],
        insts: HashMap::new(),
        inst_list: vec![],
        root_name: HashMap::new(),
    };
    let items = all_local_items();
    // DefaultCommentHandler type to instantiate the handler parameter with
    let mut handler: Option<Ty> = None;
    for t in items.iter() {
        let _ = t;
    }
    let mut generic = vec![];
    let mut statics = vec![];
    let mut noninst = vec![];
    // find DefaultCommentHandler through trait impls
    for imp in local_crate().trait_impls() {
        let tr = imp.trait_impl();
        let st = tr.value.self_ty();
        if let TyKind::RigidTy(RigidTy::Adt(d, _)) = st.kind() {
            if d.name().ends_with("DefaultCommentHandler") {
                handler = Some(st);
            }
        }
    }
    for it in items.iter() {
        match it.kind() {
            ItemKind::Fn => {}
            ItemKind::Static => {
                statics.push(s(it.name()));
                continue;
            }
            _ => continue,
        }
        let t = it.ty();
        match t.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                let mut ok = true;
                let na: Vec<GenericArgKind> = a
                    .0
                    .iter()
                    .map(|g| match g {
                        GenericArgKind::Type(t) => match t.kind() {
                            TyKind::Param(p) => {
                                if p.name == "CH" && handler.is_some() {
                                    GenericArgKind::Type(handler.unwrap())
                                } else {
                                    ok = false;
                                    g.clone()
                                }
                            }
                            _ => g.clone(),
                        },
                        GenericArgKind::Lifetime(_) => GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased }),
                        _ => g.clone(),
                    })
                    .collect();
                if ok {
                    match Instance::resolve(d, &GenericArgs(na)) {
                        Ok(i) => {
                            let n = cx.inst(i);
                            cx.root_name.insert(n, true);
                        }
                        Err(_) => noninst.push(s(it.name())),
                    }
                } else {
                    noninst.push(s(it.name()));
                    if let Some(b) = it.body() {
                        let bj = cx.body(&b);
                        generic.push(J::O(vec![("name", s(it.name())), ("body", bj)]));
                    }
                }
            }
            _ => {}
        }
    }
    let mut inst_out = vec![];
    let mut k = 0;
    while k < cx.inst_list.len() {
        let i = cx.inst_list[k];
        let krate = crate_of(&i);
        let full = i.name();
        let path = i.def.def_id().name();
        let mut fields = vec![
            ("id", u(k)),
            ("name", s(full.clone())),
            ("path", s(path.clone())),
            ("crate", s(krate.clone())),
            ("root", J::B(cx.root_name.contains_key(&k))),
            (
                "kind",
                s(match i.kind {
                    InstanceKind::Item => "item",
                    InstanceKind::Intrinsic => "intrinsic",
                    InstanceKind::LlvmIntrinsic => "llvm",
                    InstanceKind::Virtual { .. } => "virtual",
                    InstanceKind::Shim => "shim",
                }),
            ),
        ];
        let a = i.args();
        let aj = cx.args_j(&a);
        fields.push(("args", aj));
        if want_body(&krate, &path) && k < 6000 {
            let b = i.body();
            if let Some(b) = b {
                let bj = cx.body(&b);
                fields.push(("body", bj));
            }
        }
        inst_out.push(J::O(fields));
        k += 1;
    }
    let items_j: Vec<J> = items
        .iter()
        .map(|it| J::A(vec![s(it.name()), s(format!("{:?}", it.kind()))]))
        .collect();
    let j = J::O(vec![
        ("crate", s(local_crate().name)),
        ("items", J::A(items_j)),
        ("statics", J::A(statics)),
        ("noninst", J::A(noninst)),
        ("generic", J::A(generic)),
        ("insts", J::A(inst_out)),
        ("types", J::A(std::mem::take(&mut cx.ty_out))),
    ]);
    let mut o = String::new();
    j.w(&mut o);
    let tmp = format!("{}.tmp", out);
    std::fs::write(&tmp, o).expect("write dump");
    std::fs::rename(&tmp, out).expect("rename dump");
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc path
    if args.len() > 1 && (args[1].ends_with("rustc")) {
        args.remove(1);
    }
    let target = std::env::var("RESSA_MIR_CRATE").unwrap_or_else(|_| "ressa".into());
    let out = std::env::var("RESSA_MIR_OUT").unwrap_or_default();
    let mut is_target = false;
    for w in args.windows(2) {
        if w[0] == "--crate-name" && w[1] == target {
            is_target = true;
        }
    }
    if args.iter().any(|a| a == "--test") {
        is_target = false;
    }
    if !is_target || out.is_empty() {
        let real = std::env::var("RESSA_MIR_RUSTC").unwrap_or_else(|_| "rustc".into());
        let st = std::process::Command::new(real).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    let r = run!(&args, || -> ControlFlow<()> {
        dump(&out);
        ControlFlow::Continue(())
    });
    match r {
        Ok(_) => std::process::exit(0),
        Err(e) => {
            eprintln!("ressa-mir: {:?}", e);
            std::process::exit(1)
        }
    }
}
