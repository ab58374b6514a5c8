//! Monomorphic MIR dump (starting at the `pub fn`s of the harness crate).
use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public_bridge::IndexedVal;
use serde_json::{json, Value};
use std::collections::{HashMap, VecDeque};

pub struct Cx {
    tys: HashMap<Ty, usize>,
    tyj: Vec<Value>,
    tyq: VecDeque<Ty>,
    insts: HashMap<Instance, usize>,
    instj: Vec<Value>,
    iq: VecDeque<Instance>,
    vts: HashMap<(Ty, String), Value>,
    target: String,
    harness: String,
}

fn line(span: &Span) -> usize {
    span.get_lines().start_line
}

impl Cx {
    pub fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.tyj.len();
        self.tys.insert(t, i);
        self.tyj.push(Value::Null);
        self.tyq.push_back(t);
        i
    }

    fn args(&mut self, a: &GenericArgs) -> Value {
        let v: Vec<Value> = a
            .0
            .iter()
            .map(|k| match k {
                GenericArgKind::Lifetime(_) => json!({"l":1}),
                GenericArgKind::Type(t) => json!({"t": self.ty(*t)}),
                GenericArgKind::Const(c) => match c.eval_target_usize() {
                    Ok(n) => json!({"c": n}),
                    Err(_) => json!({"c": null}),
                },
            })
            .collect();
        Value::Array(v)
    }

    fn ty_json(&mut self, t: Ty) -> Value {
        let kind = t.kind();
        let TyKind::RigidTy(r) = &kind else {
            return json!({"k":"other","n":format!("{:?}", kind).chars().take(60).collect::<String>()});
        };
        match r {
            RigidTy::Bool => json!({"k":"bool"}),
            RigidTy::Char => json!({"k":"char"}),
            RigidTy::Int(i) => json!({"k":"int","n":format!("{:?}", i).to_lowercase()}),
            RigidTy::Uint(i) => json!({"k":"uint","n":format!("{:?}", i).to_lowercase()}),
            RigidTy::Float(i) => json!({"k":"float","n":format!("{:?}", i).to_lowercase()}),
            RigidTy::Str => json!({"k":"str"}),
            RigidTy::Never => json!({"k":"never"}),
            RigidTy::Array(e, n) => json!({"k":"array","t":self.ty(*e),"len":n.eval_target_usize().ok()}),
            RigidTy::Slice(e) => json!({"k":"slice","t":self.ty(*e)}),
            RigidTy::RawPtr(e, m) => json!({"k":"ptr","t":self.ty(*e),"m":*m==Mutability::Mut}),
            RigidTy::Ref(_, e, m) => json!({"k":"ref","t":self.ty(*e),"m":*m==Mutability::Mut}),
            RigidTy::Tuple(ts) => {
                let v: Vec<usize> = ts.iter().map(|x| self.ty(*x)).collect();
                json!({"k":"tuple","ts":v})
            }
            RigidTy::FnDef(d, a) => {
                let args = self.args(a);
                let inst = Instance::resolve(*d, a).ok().map(|i| self.inst(i));
                json!({"k":"fndef","n":d.name().to_string(),"crate":d.krate().name.to_string(),"args":args,"i":inst})
            }
            RigidTy::FnPtr(s) => {
                let s = s.clone().skip_binder();
                let ins: Vec<usize> = s.inputs().iter().map(|x| self.ty(*x)).collect();
                let out = self.ty(s.output());
                json!({"k":"fnptr","in":ins,"out":out})
            }
            RigidTy::Closure(d, a) => {
                let n = a.0.len();
                let kind_ty = a.0[n - 3].expect_ty().kind();
                let ck = match kind_ty.rigid() {
                    Some(RigidTy::Int(IntTy::I8)) => ClosureKind::Fn,
                    Some(RigidTy::Int(IntTy::I16)) => ClosureKind::FnMut,
                    _ => ClosureKind::FnOnce,
                };
                let ups: Vec<usize> = match a.0[n - 1].expect_ty().kind().rigid() {
                    Some(RigidTy::Tuple(ts)) => ts.iter().map(|x| self.ty(*x)).collect(),
                    _ => vec![],
                };
                let ckn = format!("{:?}", ck);
                let inst = if d.krate().name.to_string() == self.target
                    || d.krate().name.to_string() == self.harness
                {
                    Instance::resolve_closure(*d, a, ck).ok().map(|i| self.inst(i))
                } else {
                    None
                };
                json!({"k":"closure","n":d.name().to_string(),"i":inst,"up":ups,"ck":ckn})
            }
            RigidTy::Dynamic(ps, _) => {
                let v: Vec<String> = ps
                    .iter()
                    .filter_map(|p| match &p.value {
                        ExistentialPredicate::Trait(t) => Some(t.def_id.name().to_string()),
                        ExistentialPredicate::AutoTrait(t) => Some(t.name().to_string()),
                        _ => None,
                    })
                    .collect();
                json!({"k":"dyn","traits":v})
            }
            RigidTy::Adt(d, a) => {
                let name = d.name().to_string();
                let krate = d.krate().name.to_string();
                let args = self.args(a);
                let expand = krate == self.target
                    || krate == self.harness
                    || d.kind() == AdtKind::Enum
                    || name.contains("ops::Range")
                    || name.contains("NonNull")
                    || name.contains("boxed::Box")
                    || name.contains("Unique")
                    || name.contains("Wrapping")
                    || name.contains("PhantomData");
                let mut vs = vec![];
                if expand {
                    for v in d.variants() {
                        let fs: Vec<Value> = v
                            .fields()
                            .iter()
                            .map(|f| json!([f.name.to_string(), self.ty(f.ty_with_args(a))]))
                            .collect();
                        let dis = if d.kind() == AdtKind::Enum {
                            d.discriminant_for_variant(v.idx()).val
                        } else {
                            0
                        };
                        vs.push(json!({"n":v.name().to_string(),"d":dis.to_string(),"f":fs}));
                    }
                }
                json!({"k":"adt","n":name,"crate":krate,"args":args,"kind":format!("{}",d.kind()),"v":vs,"exp":expand})
            }
            _ => json!({"k":"other"}),
        }
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.insts.get(&i) {
            return *x;
        }
        let x = self.instj.len();
        self.insts.insert(i, x);
        self.instj.push(Value::Null);
        self.iq.push_back(i);
        x
    }

    fn decode(&mut self, alloc: &Allocation, off: usize, t: Ty, depth: usize) -> Value {
        if depth > 12 {
            return json!({"u":"depth"});
        }
        let kind = t.kind();
        let Some(r) = kind.rigid() else { return json!({"u":1}) };
        let rd = |n: usize| alloc.read_partial_uint(off..off + n).ok();
        match r {
            RigidTy::Bool => match rd(1) {
                Some(b) => json!({"b": b != 0}),
                None => json!({"u":1}),
            },
            RigidTy::Char => match rd(4) {
                Some(b) => json!({"c": b.to_string()}),
                None => json!({"u":1}),
            },
            RigidTy::Int(i) => {
                let n = i.num_bytes();
                match rd(n) {
                    Some(b) => {
                        let sh = 128 - 8 * n as u32;
                        let v = if sh == 0 { b as i128 } else { ((b << sh) as i128) >> sh };
                        json!({"i": v.to_string()})
                    }
                    None => json!({"u":1}),
                }
            }
            RigidTy::Uint(i) => match rd(i.num_bytes()) {
                Some(b) => json!({"i": b.to_string()}),
                None => json!({"u":1}),
            },
            RigidTy::Float(FloatTy::F64) => match rd(8) {
                Some(b) => json!({"f": (b as u64).to_string()}),
                None => json!({"u":1}),
            },
            RigidTy::Float(FloatTy::F32) => match rd(4) {
                Some(b) => json!({"f": (f32::from_bits(b as u32) as f64).to_bits().to_string()}),
                None => json!({"u":1}),
            },
            RigidTy::FnPtr(_) | RigidTy::Ref(..) | RigidTy::RawPtr(..) => {
                let prov = alloc.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                let Some(id) = prov else { return json!({"u":"ptr"}) };
                let addr = rd(8).unwrap_or(0) as usize;
                match GlobalAlloc::from(id) {
                    GlobalAlloc::Function(i) => json!({"fn": self.inst(i)}),
                    GlobalAlloc::Static(s) => json!({"static": s.name().to_string()}),
                    GlobalAlloc::Memory(m) => {
                        let inner = match r {
                            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => *e,
                            _ => return json!({"u":"fnptr"}),
                        };
                        let ik = inner.kind();
                        match ik.rigid() {
                            Some(RigidTy::Str) => {
                                let len = alloc.read_partial_uint(off + 8..off + 16).unwrap_or(0) as usize;
                                let b: Vec<u8> =
                                    m.bytes[addr..addr + len].iter().map(|x| x.unwrap_or(0)).collect();
                                json!({"s": String::from_utf8_lossy(&b).to_string()})
                            }
                            Some(RigidTy::Slice(e)) => {
                                let len = alloc.read_partial_uint(off + 8..off + 16).unwrap_or(0) as usize;
                                let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                                let v: Vec<Value> =
                                    (0..len).map(|k| self.decode(&m, addr + k * sz, *e, depth + 1)).collect();
                                json!({"r": {"a": v}})
                            }
                            Some(RigidTy::Dynamic(..)) => json!({"u":"dyn"}),
                            _ => json!({"r": self.decode(&m, addr, inner, depth + 1)}),
                        }
                    }
                    _ => json!({"u":"alloc"}),
                }
            }
            RigidTy::Array(e, n) => {
                let len = n.eval_target_usize().unwrap_or(0) as usize;
                let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                if len > 4096 {
                    return json!({"u":"big"});
                }
                let v: Vec<Value> = (0..len).map(|k| self.decode(alloc, off + k * sz, *e, depth + 1)).collect();
                json!({"a": v})
            }
            RigidTy::Tuple(ts) => {
                let Ok(l) = t.layout() else { return json!({"u":1}) };
                let FieldsShape::Arbitrary { offsets } = l.shape().fields else {
                    return json!({"g":[]});
                };
                let v: Vec<Value> = ts
                    .iter()
                    .enumerate()
                    .map(|(k, e)| self.decode(alloc, off + offsets[k].bytes(), *e, depth + 1))
                    .collect();
                json!({"g": v})
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => json!({"z":1}),
            RigidTy::Adt(d, a) => {
                let Ok(l) = t.layout() else { return json!({"u":1}) };
                let sh = l.shape();
                let (vi, offsets): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Empty => return json!({"u":"empty"}),
                    VariantsShape::Single { index } => {
                        let o = match &sh.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect(),
                            _ => vec![0; 8],
                        };
                        (index.to_index(), o)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &sh.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                            _ => 0,
                        };
                        let prim = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } => *value,
                            rustc_public::abi::Scalar::Union { value } => *value,
                        };
                        let tsz = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
                        let has_prov = alloc.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                        let tv = alloc.read_partial_uint(off + toff..off + toff + tsz).ok();
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(tv) = tv else { return json!({"u":"tag"}) };
                                let m = if tsz == 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                match d
                                    .variants()
                                    .iter()
                                    .find(|v| d.discriminant_for_variant(v.idx()).val & m == tv)
                                {
                                    Some(v) => v.idx().to_index(),
                                    None => return json!({"u":"tag"}),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if has_prov {
                                    untagged_variant.to_index()
                                } else {
                                    let Some(tv) = tv else { return json!({"u":"tag"}) };
                                    let m = if tsz == 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    let rel = tv.wrapping_sub(*niche_start) & m;
                                    let s = niche_variants.start().to_index() as u128;
                                    let e = niche_variants.end().to_index() as u128;
                                    if rel <= e - s {
                                        (rel + s) as usize
                                    } else {
                                        untagged_variant.to_index()
                                    }
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|x| x.bytes()).collect())
                    }
                };
                let vs = d.variants();
                let Some(v) = vs.get(vi) else { return json!({"u":"variant"}) };
                let fs: Vec<Value> = v
                    .fields()
                    .iter()
                    .enumerate()
                    .map(|(k, f)| {
                        let o = offsets.get(k).copied().unwrap_or(0);
                        self.decode(alloc, off + o, f.ty_with_args(a), depth + 1)
                    })
                    .collect();
                json!({"v": vi, "f": fs})
            }
            _ => json!({"u":1}),
        }
    }

    fn cnst(&mut self, c: &ConstOperand) -> Value {
        let k = &c.const_;
        let t = k.ty();
        let tid = self.ty(t);
        let v = match k.kind() {
            ConstantKind::ZeroSized => json!({"z":1}),
            ConstantKind::Allocated(a) => self.decode(a, 0, t, 0),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t2, a) => self.decode(&a.clone(), 0, *t2, 0),
                TyConstKind::ZSTValue(_) => json!({"z":1}),
                _ => json!({"u":"tyconst"}),
            },
            _ => json!({"u":"unevaluated"}),
        };
        json!(["c", tid, v])
    }

    fn place(&mut self, p: &Place) -> Value {
        let pr: Vec<Value> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => json!("*"),
                ProjectionElem::Field(i, t) => json!(["f", i, self.ty(*t)]),
                ProjectionElem::Index(l) => json!(["i", l]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    json!(["ci", offset, min_length, from_end])
                }
                ProjectionElem::Subslice { from, to, from_end } => json!(["ss", from, to, from_end]),
                ProjectionElem::Downcast(v) => json!(["dc", v.to_index()]),
                ProjectionElem::OpaqueCast(_) => json!(["oc"]),
            })
            .collect();
        json!([p.local, pr])
    }

    fn op(&mut self, o: &Operand) -> Value {
        match o {
            Operand::Copy(p) => json!(["p", self.place(p)]),
            Operand::Move(p) => json!(["m", self.place(p)]),
            Operand::Constant(c) => self.cnst(c),
            Operand::RuntimeChecks(_) => json!(["rc"]),
        }
    }

    fn ops(&mut self, o: &[Operand]) -> Value {
        Value::Array(o.iter().map(|x| self.op(x)).collect())
    }

    fn note_unsize(&mut self, from: Ty, to: Ty) {
        fn pointee(t: Ty) -> Option<Ty> {
            match t.kind().rigid()? {
                RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => Some(*e),
                RigidTy::Adt(d, a) if d.is_box() => a.0.first().and_then(|x| x.ty().copied()),
                RigidTy::Adt(_, a) => a.0.first().and_then(|x| x.ty().copied()),
                _ => None,
            }
        }
        let (Some(f), Some(t)) = (pointee(from), pointee(to)) else { return };
        let k = t.kind();
        if !matches!(k.rigid(), Some(RigidTy::Dynamic(..))) {
            return;
        }
        let Some(tr) = k.trait_principal() else { return };
        let mut targs = vec![];
        for a in tr.value.generic_args.0.iter() {
            if !matches!(a, GenericArgKind::Lifetime(_)) {
                targs.push(self.args(&GenericArgs(vec![a.clone()]))[0].clone());
            }
        }
        let name = format!("{}|{}", tr.value.def_id.name(), Value::Array(targs));
        if self.vts.contains_key(&(f, name.clone())) {
            return;
        }
        let krate = tr.value.def_id.krate().name.to_string();
        let v = if krate == self.target || krate == self.harness {
            let tref: Binder<TraitRef> = tr.with_self_ty(f);
            let es: Vec<Value> = tref.value
                .vtable_entries()
                .iter()
                .map(|e| match e {
                    VtblEntry::Method(i) => json!(self.inst(*i)),
                    _ => Value::Null,
                })
                .collect();
            Value::Array(es)
        } else {
            Value::Null
        };
        self.vts.insert((f, name), v);
    }

    fn rv(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> Value {
        match r {
            Rvalue::Use(o, _) => json!(["use", self.op(o)]),
            Rvalue::Ref(_, k, p) => json!(["ref", matches!(k, BorrowKind::Mut { .. }), self.place(p)]),
            Rvalue::AddressOf(k, p) => json!(["addr", matches!(k, RawPtrKind::Mut), self.place(p)]),
            Rvalue::CopyForDeref(p) => json!(["use", ["p", self.place(p)]]),
            Rvalue::Reborrow(_, m, p) => json!(["ref", *m == Mutability::Mut, self.place(p)]),
            Rvalue::BinaryOp(o, a, b) => json!(["bin", format!("{:?}", o), self.op(a), self.op(b)]),
            Rvalue::CheckedBinaryOp(o, a, b) => json!(["cbin", format!("{:?}", o), self.op(a), self.op(b)]),
            Rvalue::UnaryOp(o, a) => json!(["un", format!("{:?}", o), self.op(a)]),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(locals).ok();
                let ks = match k {
                    CastKind::PointerCoercion(c) => format!("{:?}", c),
                    k => format!("{:?}", k),
                };
                if ks.starts_with("Unsize") {
                    if let Some(f) = from {
                        self.note_unsize(f, *t);
                    }
                }
                let fid = from.map(|f| self.ty(f));
                json!(["cast", ks, self.op(o), self.ty(*t), fid])
            }
            Rvalue::Discriminant(p) => json!(["discr", self.place(p)]),
            Rvalue::Len(p) => json!(["len", self.place(p)]),
            Rvalue::Repeat(o, n) => json!(["rep", self.op(o), n.eval_target_usize().ok()]),
            Rvalue::ThreadLocalRef(_) => json!(["tls"]),
            Rvalue::Aggregate(k, os) => {
                let kj = match k {
                    AggregateKind::Array(t) => json!(["array", self.ty(*t)]),
                    AggregateKind::Tuple => json!(["tuple"]),
                    AggregateKind::Adt(d, v, a, _, fi) => {
                        let t = self.ty(d.ty_with_args(a));
                        json!(["adt", t, v.to_index(), fi])
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = self.ty(Ty::new_closure(*d, a.clone()));
                        json!(["closure", t])
                    }
                    AggregateKind::RawPtr(..) => json!(["rawptr"]),
                    _ => json!(["other"]),
                };
                json!(["agg", kj, self.ops(os)])
            }
        }
    }

    fn body(&mut self, b: &Body) -> Value {
        let locals = b.locals().to_vec();
        let ltys: Vec<usize> = locals.iter().map(|l| self.ty(l.ty)).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        ss.push(json!(["=", self.place(p), self.rv(r, &locals), line(&s.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(json!(["sd", self.place(place), variant_index.to_index()]));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => {
                        ss.push(json!(["copy_nonoverlapping", line(&s.source_info.span)]));
                    }
                    _ => {}
                }
            }
            let sp = &bb.terminator.source_info.span;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => json!(["goto", target]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<Value> = targets.branches().map(|(v, t)| json!([v.to_string(), t])).collect();
                    let ty = discr.ty(&locals).ok().map(|t| self.ty(t));
                    json!(["switch", self.op(discr), br, targets.otherwise(), ty, line(sp)])
                }
                TerminatorKind::Return => json!(["ret"]),
                TerminatorKind::Unreachable => json!(["unreach"]),
                TerminatorKind::Resume => json!(["resume"]),
                TerminatorKind::Abort => json!(["abort"]),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(&locals).ok().map(|t| self.ty(t));
                    json!(["drop", self.place(place), target, ty])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                        AssertMessage::Overflow(o, _, _) => format!("overflow {:?}", o),
                        m => format!("{:?}", m).chars().take(20).collect(),
                    };
                    json!(["assert", self.op(cond), expected, m, target, line(sp)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func);
                    json!(["call", f, self.ops(args), self.place(destination), target, line(sp), func.ty(&locals).ok().map(|t| self.ty(t))])
                }
                _ => json!(["other"]),
            };
            blocks.push(json!({"s": ss, "t": t}));
        }
        let vars: Vec<Value> = b
            .var_debug_info
            .iter()
            .filter_map(|v| match &v.value {
                VarDebugInfoContents::Place(p) => Some(json!([v.name.to_string(), self.place(p)])),
                _ => None,
            })
            .collect();
        json!({"locals": ltys, "argc": b.arg_locals().len(), "blocks": blocks, "vars": vars, "spread": b.spread_arg()})
    }

    fn inst_json(&mut self, i: Instance) -> Value {
        let krate = i.def.krate().name.to_string();
        let name = i.def.name().to_string();
        let args = self.args(&i.args());
        let sp = i.def.span();
        let local = krate == self.target || krate == self.harness;
        let mut follow = local && matches!(i.kind, InstanceKind::Item) || local && matches!(i.kind, InstanceKind::Shim);
        // small, purely structural std combinators are analysed from their MIR
        if !local && matches!(i.kind, InstanceKind::Item) {
            const INLINE: &[&str] = &[
                "std::option::Option::<T>::",
                "std::result::Result::<T, E>::",
                "core::option::Option::<T>::",
                "core::result::Result::<T, E>::",
                "core::bool::",
                "std::mem::replace",
                "std::mem::swap",
                "std::mem::take",
            ];
            follow = INLINE.iter().any(|p| name.starts_with(p));
        }
        let kind = match i.kind {
            InstanceKind::Item => json!("item"),
            InstanceKind::Intrinsic => json!("intrinsic"),
            InstanceKind::LlvmIntrinsic => json!("llvm"),
            InstanceKind::Virtual { idx } => json!(["virtual", idx]),
            InstanceKind::Shim => json!("shim"),
        };
        let iname = i.intrinsic_name();
        let body = if follow { i.body().map(|b| self.body(&b)) } else { None };
        json!({"n": name, "full": i.name().to_string(), "crate": krate, "args": args, "kind": kind, "intr": iname.map(|s| s.to_string()),
               "file": sp.get_filename().to_string(), "line": line(&sp), "endline": sp.get_lines().end_line, "body": body, "m": i.mangled_name().to_string()})
    }
}

pub fn dump(_tcx: TyCtxt<'_>, target: &str, harness: &str) -> Value {
    let mut cx = Cx {
        tys: HashMap::new(),
        tyj: vec![],
        tyq: VecDeque::new(),
        insts: HashMap::new(),
        instj: vec![],
        iq: VecDeque::new(),
        vts: HashMap::new(),
        target: target.into(),
        harness: harness.into(),
    };
    let mut roots = serde_json::Map::new();
    for it in rustc_public::all_local_items() {
        if it.requires_monomorphization() || !matches!(it.kind(), rustc_public::ItemKind::Fn) {
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            let x = cx.inst(i);
            roots.insert(it.name().to_string(), json!(x));
        }
    }
    // all impl methods of the analysed crate that are callable without type parameters
    for c in rustc_public::find_crates(target) {
        for f in c.fn_defs() {
            if f.generics_of().params.is_empty() && f.generics_of().parent_count == 0 {
                if let Ok(i) = Instance::resolve(f, &GenericArgs(vec![])) {
                    cx.inst(i);
                }
            }
        }
    }
    loop {
        if let Some(i) = cx.iq.pop_front() {
            let v = cx.inst_json(i);
            let x = cx.insts[&i];
            cx.instj[x] = v;
        } else if let Some(t) = cx.tyq.pop_front() {
            let v = cx.ty_json(t);
            let x = cx.tys[&t];
            cx.tyj[x] = v;
        } else {
            break;
        }
    }
    let mut vts = vec![];
    let entries: Vec<((Ty, String), Value)> = cx.vts.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    for ((t, n), v) in entries {
        vts.push(json!({"ty": cx.ty(t), "trait": n, "m": v}));
    }
    json!({"types": cx.tyj, "insts": cx.instj, "roots": roots, "vtables": vts})
}
