//! MIR exporter: runs as a rustc wrapper on the harness crate and writes, as JSON, the
//! monomorphic MIR of everything reachable from the harness' `#[no_mangle]`/public
//! functions (type-resolved callees, decoded constants, type layouts by field name).
#![feature(rustc_private)]
#![allow(unused_imports)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_public::abi::*;
use rustc_public::CrateDefType;
use rustc_public_bridge::IndexedVal;
use rustc_public::crate_def::CrateDef;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: rustc_middle::ty::TyCtxt<'tcx>,
    stop: Vec<String>,
    descend: Vec<String>,
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    ty_todo: VecDeque<Ty>,
    insts: HashMap<String, usize>,
    inst_todo: VecDeque<(usize, Instance)>,
    inst_out: Vec<String>,
    statics: HashMap<String, Option<String>>,
    depth: usize,
    repl: HashMap<String, rustc_span::def_id::DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let s = self.ty_json(t);
        self.ty_out[i] = s;
        i
    }
    fn args_json(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a
            .0
            .iter()
            .filter_map(|x| match x {
                GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                _ => None,
            })
            .collect();
        format!("[{}]", v.join(","))
    }
    fn ty_json(&mut self, t: Ty) -> String {
        let disp = js(&format!("{}", t));
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => r#"{"k":"bool"}"#.into(),
                RigidTy::Char => r#"{"k":"char"}"#.into(),
                RigidTy::Int(i) => format!(r#"{{"k":"int","b":{}}}"#, i.num_bytes()),
                RigidTy::Uint(i) => format!(r#"{{"k":"uint","b":{}}}"#, i.num_bytes()),
                RigidTy::Float(f) => format!(r#"{{"k":"float","n":{}}}"#, js(&format!("{:?}", f))),
                RigidTy::Str => r#"{"k":"str"}"#.into(),
                RigidTy::Never => r#"{"k":"never"}"#.into(),
                RigidTy::Slice(e) => format!(r#"{{"k":"slice","e":{}}}"#, self.ty(e)),
                RigidTy::Array(e, n) => {
                    format!(r#"{{"k":"array","e":{},"n":{}}}"#, self.ty(e), n.eval_target_usize().unwrap_or(0))
                }
                RigidTy::Ref(_, e, m) => {
                    format!(r#"{{"k":"ref","e":{},"m":{}}}"#, self.ty(e), matches!(m, Mutability::Mut))
                }
                RigidTy::RawPtr(e, m) => {
                    format!(r#"{{"k":"ptr","e":{},"m":{}}}"#, self.ty(e), matches!(m, Mutability::Mut))
                }
                RigidTy::Tuple(v) => {
                    let x: Vec<String> = v.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!(r#"{{"k":"tuple","f":[{}]}}"#, x.join(","))
                }
                RigidTy::FnDef(d, a) => {
                    let inst = match Instance::resolve(d, &a) {
                        Ok(i) => self.inst(i).to_string(),
                        Err(_) => "null".into(),
                    };
                    format!(r#"{{"k":"fndef","s":{},"i":{}}}"#, disp, inst)
                }
                RigidTy::Closure(d, a) => {
                    let inst = match Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                        Ok(i) => i,
                        Err(_) => return format!(r#"{{"k":"closure","s":{}}}"#, disp),
                    };
                    // the closure body itself: resolve with the closure's own kind
                    let kind = {
                        let it = rustc_internal::internal(self.tcx, t);
                        match it.kind() {
                            rustc_middle::ty::TyKind::Closure(_, ca) => ca.as_closure().kind(),
                            _ => unreachable!(),
                        }
                    };
                    let own = match kind {
                        rustc_middle::ty::ClosureKind::Fn => ClosureKind::Fn,
                        rustc_middle::ty::ClosureKind::FnMut => ClosureKind::FnMut,
                        rustc_middle::ty::ClosureKind::FnOnce => ClosureKind::FnOnce,
                    };
                    let _ = inst;
                    let ups: Vec<Ty> = {
                        let it = rustc_internal::internal(self.tcx, t);
                        match it.kind() {
                            rustc_middle::ty::TyKind::Closure(_, ca) => {
                                ca.as_closure().upvar_tys().iter().map(|t| rustc_internal::stable(t)).collect()
                            }
                            _ => unreachable!(),
                        }
                    };
                    let ups: Vec<String> = ups.into_iter().map(|t| self.ty(t).to_string()).collect();
                    let i = Instance::resolve_closure(d, &a, own.clone()).unwrap();
                    let ii = self.inst(i);
                    format!(
                        r#"{{"k":"closure","s":{},"i":{},"ck":{},"f":[{}]}}"#,
                        disp,
                        ii,
                        js(&format!("{:?}", own)),
                        ups.join(",")
                    )
                }
                RigidTy::Adt(d, a) => {
                    let name = d.name().to_string();
                    let krate = d.krate().name.to_string();
                    let mut vs = vec![];
                    let is_enum = matches!(d.kind(), AdtKind::Enum);
                    let shallow = name.starts_with("std::fmt") || name.starts_with("core::fmt");
                    if !shallow {
                        for v in d.variants() {
                            let mut fs = vec![];
                            for f in v.fields() {
                                let ft = f.ty_with_args(&a);
                                fs.push(format!("[{},{}]", js(&f.name.to_string()), self.ty(ft)));
                            }
                            let dv = if is_enum { d.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                            vs.push(format!(r#"{{"n":{},"d":{},"f":[{}]}}"#, js(&v.name().to_string()), dv, fs.join(",")));
                        }
                    }
                    // user Drop impl
                    let dropi = {
                        let it = rustc_internal::internal(self.tcx, t);
                        let mut r = "null".to_string();
                        if let rustc_middle::ty::TyKind::Adt(ad, ia) = it.kind() {
                            if let Some(dt) = self.tcx.adt_destructor(ad.did()) {
                                if self.tcx.crate_name(dt.did.krate).as_str() == "svgdom" {
                                    let inst = rustc_middle::ty::Instance::expect_resolve(
                                        self.tcx,
                                        rustc_middle::ty::TypingEnv::fully_monomorphized(),
                                        dt.did,
                                        ia,
                                        rustc_span::DUMMY_SP,
                                    );
                                    let si: Instance = rustc_internal::stable(inst);
                                    r = self.inst(si).to_string();
                                }
                            }
                        }
                        r
                    };
                    let aj = self.args_json(&a);
                    format!(
                        r#"{{"k":"adt","n":{},"c":{},"s":{},"e":{},"a":{},"v":[{}],"drop":{}}}"#,
                        js(&name),
                        js(&krate),
                        disp,
                        is_enum,
                        aj,
                        vs.join(","),
                        dropi
                    )
                }
                RigidTy::FnPtr(_) => r#"{"k":"fnptr"}"#.into(),
                RigidTy::Dynamic(..) => format!(r#"{{"k":"dyn","s":{}}}"#, disp),
                _ => format!(r#"{{"k":"other","s":{}}}"#, disp),
            },
            _ => format!(r#"{{"k":"other","s":{}}}"#, disp),
        }
    }
    fn inst(&mut self, i: Instance) -> usize {
        let key = format!("{}|{:?}", i.mangled_name(), i.kind);
        if let Some(n) = self.insts.get(&key) {
            return *n;
        }
        let n = self.inst_out.len();
        self.insts.insert(key, n);
        self.inst_out.push(String::new());
        self.inst_todo.push_back((n, i));
        n
    }
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"c\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", VariantIdx::to_index(v)),
                ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", self.ty(*t)),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }
    fn const_json(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        match c.kind() {
            ConstantKind::ZeroSized => format!(r#"["z",{}]"#, ti),
            ConstantKind::Allocated(a) => {
                let v = self.decode(t, a, 0, 0);
                format!(r#"["c",{},{}]"#, ti, v)
            }
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(v) => format!(r#"["c",{},["i",{}]]"#, ti, v),
                Err(_) => format!(r#"["c",{},["?"]]"#, ti),
            },
            _ => format!(r#"["c",{},["?"]]"#, ti),
        }
    }
    fn rd(&self, a: &Allocation, off: usize, n: usize) -> Option<u128> {
        if off + n > a.bytes.len() {
            return None;
        }
        let mut r = 0u128;
        for k in (0..n).rev() {
            match a.bytes[off + k] {
                Some(b) => r = (r << 8) | b as u128,
                None => return None,
            }
        }
        Some(r)
    }
    fn ptr(&self, a: &Allocation, off: usize) -> Option<(GlobalAlloc, usize)> {
        for (o, p) in &a.provenance.ptrs {
            if *o == off {
                let d = self.rd(a, off, 8)? as usize;
                return Some((GlobalAlloc::from(p.0), d));
            }
        }
        None
    }
    /// Decode a constant of type `t` stored at `off` into a JSON value.
    fn decode(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> String {
        if depth > 12 {
            return "[\"?\"]".into();
        }
        let unk = || "[\"?\"]".to_string();
        let TyKind::RigidTy(r) = t.kind() else { return unk() };
        match r {
            RigidTy::Bool => self.rd(a, off, 1).map(|v| format!("[\"i\",{}]", v)).unwrap_or_else(unk),
            RigidTy::Char => self.rd(a, off, 4).map(|v| format!("[\"i\",{}]", v)).unwrap_or_else(unk),
            RigidTy::Uint(u) => self.rd(a, off, u.num_bytes()).map(|v| format!("[\"i\",{}]", v)).unwrap_or_else(unk),
            RigidTy::Int(u) => {
                let n = u.num_bytes();
                match self.rd(a, off, n) {
                    Some(v) => {
                        let sh = 128 - 8 * n as u32;
                        format!("[\"i\",{}]", ((v << sh) as i128) >> sh)
                    }
                    None => unk(),
                }
            }
            RigidTy::Float(FloatTy::F64) => {
                self.rd(a, off, 8).map(|v| format!("[\"f\",{}]", js(&format!("{:?}", f64::from_bits(v as u64))))).unwrap_or_else(unk)
            }
            RigidTy::Float(FloatTy::F32) => {
                self.rd(a, off, 4).map(|v| format!("[\"f\",{}]", js(&format!("{:?}", f32::from_bits(v as u32))))).unwrap_or_else(unk)
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let Some((ga, d)) = self.ptr(a, off) else { return unk() };
                let mem = match ga {
                    GlobalAlloc::Memory(m) => m,
                    GlobalAlloc::Static(s) => {
                        let name = s.name().to_string();
                        if !self.statics.contains_key(&name) {
                            self.statics.insert(name.clone(), None);
                            if let Ok(m) = s.eval_initializer() {
                                let st = s.ty();
                                let v = self.decode(st, &m, 0, depth + 1);
                                let ti = self.ty(st);
                                self.statics.insert(name.clone(), Some(format!("[{},{}]", ti, v)));
                            }
                        }
                        return format!("[\"static\",{},{}]", js(&name), d);
                    }
                    GlobalAlloc::Function(i) => return format!("[\"fnptr\",{}]", self.inst(i)),
                    _ => return unk(),
                };
                match e.kind() {
                    TyKind::RigidTy(RigidTy::Str) => {
                        let Some(len) = self.rd(a, off + 8, 8) else { return unk() };
                        let b: Option<Vec<u8>> = mem.bytes[d..d + len as usize].iter().copied().collect();
                        match b.and_then(|b| String::from_utf8(b).ok()) {
                            Some(s) => format!("[\"s\",{}]", js(&s)),
                            None => unk(),
                        }
                    }
                    TyKind::RigidTy(RigidTy::Slice(el)) => {
                        let Some(len) = self.rd(a, off + 8, 8) else { return unk() };
                        let Ok(l) = el.layout() else { return unk() };
                        let sz = l.shape().size.bytes();
                        let v: Vec<String> =
                            (0..len as usize).map(|k| self.decode(el, &mem, d + k * sz, depth + 1)).collect();
                        format!("[\"r\",[\"a\",[{}]]]", v.join(","))
                    }
                    _ => format!("[\"r\",{}]", self.decode(e, &mem, d, depth + 1)),
                }
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let Ok(l) = e.layout() else { return unk() };
                let sz = l.shape().size.bytes();
                let v: Vec<String> = (0..n).map(|k| self.decode(e, a, off + k * sz, depth + 1)).collect();
                format!("[\"a\",[{}]]", v.join(","))
            }
            RigidTy::Tuple(fs) => {
                let Ok(l) = t.layout() else { return unk() };
                let sh = l.shape();
                let FieldsShape::Arbitrary { offsets } = &sh.fields else {
                    return if fs.is_empty() { "[\"v\",0,[]]".into() } else { unk() };
                };
                let offs: Vec<usize> = offsets.iter().map(|o| o.bytes()).collect();
                let v: Vec<String> =
                    fs.iter().zip(offs).map(|(f, o)| self.decode(*f, a, off + o, depth + 1)).collect();
                format!("[\"v\",0,[{}]]", v.join(","))
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => "[\"v\",0,[]]".into(),
            RigidTy::Adt(d, args) => {
                let Ok(l) = t.layout() else { return unk() };
                let sh = l.shape();
                let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Empty => return unk(),
                    VariantsShape::Single { index } => {
                        let o = match &sh.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                            _ => vec![],
                        };
                        (VariantIdx::to_index(index), o)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let FieldsShape::Arbitrary { offsets } = &sh.fields else { return unk() };
                        let to = offsets[*tag_field].bytes();
                        let prim = match tag {
                            Scalar::Initialized { value, .. } | Scalar::Union { value } => value,
                        };
                        let tsz = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
                        let is_ptr = self.ptr(a, off + to).is_some();
                        let tagv = if is_ptr { None } else { self.rd(a, off + to, tsz) };
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(tv) = tagv else { return unk() };
                                let mut r = None;
                                for v in d.variants() {
                                    let dv = d.discriminant_for_variant(v.idx()).val;
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    if dv & mask == tv {
                                        r = Some(VariantIdx::to_index(&v.idx()));
                                    }
                                }
                                match r {
                                    Some(r) => r,
                                    None => return unk(),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let uv = VariantIdx::to_index(untagged_variant);
                                match tagv {
                                    None => uv,
                                    Some(tv) => {
                                        let s = VariantIdx::to_index(niche_variants.start());
                                        let e = VariantIdx::to_index(niche_variants.end());
                                        let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                        let rel = tv.wrapping_sub(*niche_start) & mask;
                                        if rel <= (e - s) as u128 {
                                            s + rel as usize
                                        } else {
                                            uv
                                        }
                                    }
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                    }
                };
                let vd = d.variants().into_iter().nth(vi).unwrap();
                let mut v = vec![];
                for (k, f) in vd.fields().iter().enumerate() {
                    let ft = f.ty_with_args(&args);
                    let o = offs.get(k).copied().unwrap_or(0);
                    v.push(self.decode(ft, a, off + o, depth + 1));
                }
                format!("[\"v\",{},[{}]]", vi, v.join(","))
            }
            _ => unk(),
        }
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.const_json(&c.const_)),
            Operand::RuntimeChecks(_) => "[\"rc\"]".into(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Ref(_, bk, p) => {
                format!("[\"ref\",{},{}]", self.place(p), matches!(bk.to_mutable_lossy(), Mutability::Mut))
            }
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let t = r.ty(locals).ok();
                let ti = t.map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                let (kind, vi, af) = match k {
                    AggregateKind::Array(_) => ("array", 0, None),
                    AggregateKind::Tuple => ("tuple", 0, None),
                    AggregateKind::Adt(_, v, _, _, af) => ("adt", VariantIdx::to_index(v), *af),
                    AggregateKind::Closure(..) => ("closure", 0, None),
                    AggregateKind::RawPtr(..) => ("rawptr", 0, None),
                    _ => ("other", 0, None),
                };
                format!(
                    "[\"agg\",\"{}\",{},{},[{}],{}]",
                    kind,
                    ti,
                    vi,
                    ops.join(","),
                    af.map(|x| x.to_string()).unwrap_or("null".into())
                )
            }
            Rvalue::BinaryOp(op, a, b) => {
                let t = a.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"bin\",\"{:?}\",{},{},{}]", op, self.operand(a), self.operand(b), t)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let t = a.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"cbin\",\"{:?}\",{},{},{}]", op, self.operand(a), self.operand(b), t)
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(a), t)
            }
            Rvalue::Cast(k, o, t) => {
                let f = o.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"cast\",{},{},{},{}]", js(&format!("{:?}", k)), self.operand(o), self.ty(*t), f)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(locals).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                format!("[\"discr\",{},{}]", self.place(p), t)
            }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => {
                format!("[\"rep\",{},{}]", self.operand(o), n.eval_target_usize().unwrap_or(0))
            }
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::ThreadLocalRef(_) => "[\"?\"]".into(),
        }
    }
    fn span(&self, s: &rustc_public::ty::Span) -> String {
        let f = s.get_filename().to_string();
        let f = f.rsplit("/src/").next().map(|x| format!("src/{}", x)).unwrap_or(f.clone());
        format!("{}:{}", f, s.get_lines().start_line)
    }
    fn should_descend(&self, krate: &str, path: &str) -> bool {
        for d in &self.descend {
            if path.starts_with(d.as_str()) {
                return true;
            }
        }
        for s in &self.stop {
            if path.starts_with(s.as_str()) {
                return false;
            }
        }
        matches!(krate, "svgdom" | "harness" | "core" | "alloc" | "std")
    }
    fn emit_inst(&mut self, n: usize, i: Instance) {
        let ii = rustc_internal::internal(self.tcx, i);
        let did = ii.def_id();
        let krate = self.tcx.crate_name(did.krate).to_string();
        let path = self.tcx.def_path_str(did);
        let name = i.name().to_string();
        let kind = format!("{:?}", i.kind);
        let intr = match i.kind {
            InstanceKind::Intrinsic => i.intrinsic_name().map(|s| s.to_string()),
            _ => None,
        };
        let is_closure = self.tcx.is_closure_like(did) && matches!(i.kind, InstanceKind::Item);
        // self type of trait/inherent impl and trait name, to let the models key on them
        let mut trait_ = String::new();
        let mut item = String::new();
        if let Some(ai) = self.tcx.opt_associated_item(did) {
            item = ai.name().to_string();
            if let Some(tr) = self.tcx.trait_of_assoc(did) {
                trait_ = self.tcx.def_path_str(tr);
            } else if let Some(im) = self.tcx.impl_of_assoc(did) {
                if let Some(tr) = self.tcx.impl_opt_trait_id(im) {
                    trait_ = self.tcx.def_path_str(tr);
                }
            }
        }
        let args = self.args_json(&i.args());
        let mut out = format!(
            r#"{{"name":{},"path":{},"crate":{},"kind":{},"intr":{},"clo":{},"trait":{},"item":{},"args":{}"#,
            js(&name),
            js(&path),
            js(&krate),
            js(&kind),
            intr.as_ref().map(|s| js(s)).unwrap_or("null".into()),
            is_closure,
            js(&trait_),
            js(&item),
            args
        );
        let virt = matches!(i.kind, InstanceKind::Virtual { .. });
        let sig = i.ty().kind().fn_sig();
        if let Some(s) = sig {
            let s = s.skip_binder();
            let o = self.ty(s.output());
            let inp: Vec<String> = s.inputs().iter().map(|t| self.ty(*t).to_string()).collect();
            let _ = write!(out, r#","out":{},"in":[{}]"#, o, inp.join(","));
        }
        {
            let ii = rustc_internal::internal(self.tcx, i);
            let did = ii.def_id();
            if matches!(i.kind, InstanceKind::Item) {
                if let rustc_hir::def::DefKind::Ctor(of, rustc_hir::def::CtorKind::Fn) = self.tcx.def_kind(did) {
                    let k = match of {
                        rustc_hir::def::CtorOf::Struct => 0,
                        rustc_hir::def::CtorOf::Variant => {
                            let v = self.tcx.parent(did);
                            let ad = self.tcx.adt_def(self.tcx.parent(v));
                            ad.variant_index_with_id(v).as_usize()
                        }
                    };
                    let _ = write!(out, r#","ctor":{}"#, k);
                }
            }
        }
        if let Some(f) = self.fmt_of(&path, i) {
            let k = self.inst(f);
            let _ = write!(out, r#","fmt":{}"#, k);
        }
        if !virt && intr.is_none() && self.should_descend(&krate, &path) {
            let i = self.default_of(i).or_else(|| self.special_of(i)).unwrap_or(i);
            if std::env::var("MIRDUMP_TRACE").is_ok() { eprintln!("body {}", i.name()); }
            if let Some(b) = i.body() {
                let s = self.body_json(&b);
                let _ = write!(out, r#","body":{}"#, s);
            }
        }
        out.push('}');
        self.inst_out[n] = out;
    }
    /// The formatting function behind `Argument::new_display::<T>` (and `new_debug`, `to_string`), for ADTs.
    fn fmt_of(&self, path: &str, i: Instance) -> Option<Instance> {
        let tr = match path {
            "core::fmt::rt::Argument::<'_>::new_display" | "<T as std::string::ToString>::to_string" | "xmlwriter::XmlWriter::write_attribute" => "Display",
            "core::fmt::rt::Argument::<'_>::new_debug" => "Debug",
            _ => return None,
        };
        let ii = rustc_internal::internal(self.tcx, i);
        let mut t = ii.args.iter().filter_map(|a| a.as_type()).next()?;
        loop {
            match t.kind() {
                rustc_middle::ty::TyKind::Ref(_, e, _) => t = *e,
                rustc_middle::ty::TyKind::Adt(ad, args) if matches!(self.tcx.def_path_str(ad.did()).as_str(), "std::cell::Ref" | "std::cell::RefMut" | "std::rc::Rc" | "std::boxed::Box") => match args.types().next() { Some(x) => t = x, None => break },
                _ => break,
            }
        }
        if !matches!(t.kind(), rustc_middle::ty::TyKind::Adt(..)) {
            return None;
        }
        let tr = self.tcx.get_diagnostic_item(rustc_span::Symbol::intern(tr))?;
        let m = *self.tcx.associated_item_def_ids(tr).first()?;
        let args = self.tcx.mk_args(&[t.into()]);
        let r = rustc_middle::ty::Instance::try_resolve(self.tcx, rustc_middle::ty::TypingEnv::fully_monomorphized(), m, args).ok()??;
        Some(rustc_internal::stable(r))
    }
    /// Instance of a harness function with the given type arguments, if they fit its generics.
    fn subst<'a>(&self, d: rustc_span::def_id::DefId, tys: &[rustc_middle::ty::Ty<'tcx>]) -> Option<Instance> {
        let g = self.tcx.generics_of(d);
        let mut it = tys.iter();
        let mut args: Vec<rustc_middle::ty::GenericArg<'tcx>> = vec![];
        for k in 0..g.count() {
            match g.param_at(k, self.tcx).kind {
                rustc_middle::ty::GenericParamDefKind::Lifetime => args.push(self.tcx.lifetimes.re_erased.into()),
                rustc_middle::ty::GenericParamDefKind::Type { .. } => args.push((*it.next()?).into()),
                _ => return None,
            }
        }
        if it.next().is_some() {
            return None;
        }
        Some(rustc_internal::stable(rustc_middle::ty::Instance::new_raw(d, self.tcx.mk_args(&args))))
    }
    /// For std iterators that override provided `Iterator` methods with raw-pointer code,
    /// export the provided (default) method body instead: same meaning, analysable MIR.
    fn default_of(&self, i: Instance) -> Option<Instance> {
        let ii = rustc_internal::internal(self.tcx, i);
        let did = ii.def_id();
        let tcx = self.tcx;
        let k = tcx.crate_name(did.krate);
        if !matches!(k.as_str(), "core" | "alloc" | "std") || !matches!(i.kind, InstanceKind::Item) {
            return None;
        }
        let ai = tcx.opt_associated_item(did)?;
        let name = ai.name();
        if matches!(name.as_str(), "next" | "next_back" | "size_hint" | "len") {
            return None;
        }
        let im = tcx.impl_of_assoc(did)?;
        let tr = tcx.impl_opt_trait_id(im)?;
        let trp = tcx.def_path_str(tr);
        if trp != "std::iter::Iterator" && trp != "std::iter::DoubleEndedIterator" {
            return None;
        }
        let sp = tcx.def_path_str(did);
        if !(sp.starts_with("<std::slice::") || sp.starts_with("<std::vec::") || sp.starts_with("<std::str::")) {
            return None;
        }
        let tref = tcx.impl_trait_ref(im).instantiate(tcx, ii.args).skip_norm_wip();
        let n = tcx.generics_of(im).count();
        let own: Vec<_> = ii.args.iter().skip(n).collect();
        if let Some(m) = self.repl.get(&format!("m_{}", name)) {
            let tys: Vec<_> = std::iter::once(tref.args[0]).chain(own.iter().copied()).filter_map(|a: rustc_middle::ty::GenericArg| a.as_type()).collect();
            return self.subst(*m, &tys);
        }
        if !matches!(name.as_str(), "try_fold" | "rfold" | "try_rfold" | "rfind" | "nth_back" | "by_ref") {
            return None;
        }
        let ti = ai.trait_item_def_id()?;
        if !tcx.defaultness(ti).has_value() {
            return None;
        }
        let args = tcx.mk_args_from_iter(tref.args.iter().chain(own));
        Some(rustc_internal::stable(rustc_middle::ty::Instance::new_raw(ti, args)))
    }
    /// `collect`/`extend` of vectors: export a plain loop from the harness instead.
    fn special_of(&self, i: Instance) -> Option<Instance> {
        let ii = rustc_internal::internal(self.tcx, i);
        let p = self.tcx.def_path_str(ii.def_id());
        let (m, sel): (&str, &[usize]) = match p.as_str() {
            "<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter" => ("m_vec_from_iter", &[0, 1]),
            "<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend" => ("m_vec_extend", &[0, 2]),
            "<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend" => ("m_vec_extend_ref", &[0, 2]),
            x if x.starts_with("<std::string::String as std::iter::FromIterator<") && x.ends_with("::from_iter") => ("m_string_from_iter", &[0]),
            x if x.starts_with("<std::string::String as std::iter::Extend<") && x.ends_with("::extend") => ("m_string_extend", &[0]),
            "std::iter::Iterator::nth" => ("m_nth", &[0]),
            "std::vec::Vec::<T, A>::dedup" => ("m_vec_dedup", &[0]),
            "std::vec::Vec::<T, A>::dedup_by_key" => ("m_vec_dedup_by_key", &[0, 2, 3]),
            "std::vec::Vec::<T, A>::dedup_by" => ("m_vec_dedup_by", &[0, 2]),
            "core::slice::<impl [T]>::contains" => ("m_slice_contains", &[0]),
            "std::slice::<impl [T]>::sort_by" | "core::slice::<impl [T]>::sort_unstable_by" => ("m_slice_sort_by", &[0, 1]),
            "std::slice::<impl [T]>::sort_by_key" | "core::slice::<impl [T]>::sort_unstable_by_key" | "std::slice::<impl [T]>::sort_by_cached_key" => ("m_slice_sort_by_key", &[0, 1, 2]),
            "std::slice::<impl [T]>::sort" | "core::slice::<impl [T]>::sort_unstable" => ("m_slice_sort", &[0]),
            "xmlwriter::XmlWriter::write_attribute_raw" => ("m_write_attribute_raw", &[0]),
            "core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq" => ("m_slice_eq", &[0, 1]),
            "std::vec::Vec::<T, A>::split_off" => ("m_vec_split_off", &[0]),
            "std::vec::Vec::<T, A>::resize" => ("m_vec_resize", &[0]),
            "std::iter::Iterator::zip" => ("m_zip", &[0, 1]),
            "<std::iter::Zip<A, B> as std::iter::Iterator>::next" => ("m_zip_next", &[0, 1]),
            "std::string::String::retain" => ("m_string_retain", &[0]),
            "std::collections::HashMap::<K, V, S, A>::insert" | "std::collections::HashMap::<K, V, S>::insert" | "std::collections::BTreeMap::<K, V, A>::insert" => ("m_map_insert", &[0, 1]),
            "std::collections::HashMap::<K, V, S, A>::entry" | "std::collections::HashMap::<K, V, S>::entry" | "std::collections::BTreeMap::<K, V, A>::entry" => ("m_map_entry", &[0, 1]),
            _ => {
                let ty: Vec<_> = ii.args.iter().filter_map(|a| a.as_type()).collect();
                let fnlike = |t: rustc_middle::ty::Ty| matches!(t.kind(), rustc_middle::ty::TyKind::Closure(..) | rustc_middle::ty::TyKind::FnDef(..) | rustc_middle::ty::TyKind::FnPtr(..));
                let last = p.rsplit("::").next().unwrap_or("");
                let q = last.trim_end_matches('>');
                if p.contains("<impl str>::") && ty.len() == 1 && fnlike(ty[0]) {
                    let m = match q {
                        "replace" => "m_str_replace_f",
                        "find" => "m_str_find_f",
                        "rfind" => "m_str_rfind_f",
                        "contains" => "m_str_contains_f",
                        "starts_with" => "m_str_starts_with_f",
                        "ends_with" => "m_str_ends_with_f",
                        "trim_matches" => "m_str_trim_f",
                        "trim_start_matches" | "trim_left_matches" => "m_str_trim_start_f",
                        "trim_end_matches" | "trim_right_matches" => "m_str_trim_end_f",
                        "split" => "m_str_split_f",
                        _ => return None,
                    };
                    (m, &[0])
                } else if p.starts_with("std::collections::HashMap::<") || p.starts_with("std::collections::BTreeMap::<") {
                    let m = match q { "get" => "m_map_get", "get_mut" => "m_map_get_mut", "contains_key" => "m_map_contains", "remove" => "m_map_remove", _ => return None };
                    // the query type is the last type argument
                    let n = ty.len();
                    if n < 3 { return None; }
                    let d = self.repl.get(m)?;
                    return self.subst(*d, &[ty[0], ty[1], ty[n - 1]]);
                } else if p.starts_with("std::collections::HashSet::<") || p.starts_with("std::collections::BTreeSet::<") {
                    let n = ty.len();
                    let d = match q { "insert" => self.repl.get("m_set_insert")?, "contains" => self.repl.get("m_set_contains")?, "remove" => self.repl.get("m_set_remove")?, _ => return None };
                    if n < 1 { return None; }
                    return if q == "insert" { self.subst(*d, &[ty[0]]) } else { self.subst(*d, &[ty[0], ty[n - 1]]) };
                } else if p.contains("std::iter::FromIterator") && p.contains("for std::collections::") || p.starts_with("<std::collections::") && p.contains("FromIterator") {
                    let n = ty.len();
                    let (m, a) = if p.contains("Map<") { ("m_map_from_iter", vec![ty[0], ty[1], ty[n - 1]]) } else { ("m_set_from_iter", vec![ty[0], ty[n - 1]]) };
                    let d = self.repl.get(m)?;
                    return self.subst(*d, &a);
                } else if p.starts_with("std::collections::hash_map::Entry::<") || p.starts_with("std::collections::btree_map::Entry::<") {
                    let (m, a) = match q { "or_insert" => ("m_entry_or_insert", vec![ty[0], ty[1]]), "or_insert_with" => ("m_entry_or_insert_with", vec![ty[0], ty[1], ty[ty.len() - 1]]), "or_default" => ("m_entry_or_default", vec![ty[0], ty[1]]), _ => return None };
                    let d = self.repl.get(m)?;
                    return self.subst(*d, &a);
                } else {
                    return None;
                }
            }
        };
        let d = self.repl.get(m)?;
        let tys: Vec<_> = ii.args.types().collect();
        let sel: Option<Vec<_>> = sel.iter().map(|k| tys.get(*k).copied()).collect();
        self.subst(*d, &sel?)
    }
    fn body_json(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names: Vec<String> = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names.push(format!("[{},{}]", l, js(&v.name.to_string())));
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        st.push(format!(
                            "[\"=\",{},{},{}]",
                            self.place(p),
                            self.rvalue(r, b.locals()),
                            js(&self.span(&s.source_info.span))
                        ));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"sd\",{},{}]", self.place(place), VariantIdx::to_index(variant_index)));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        st.push(format!("[\"assume\",{}]", self.operand(o)));
                    }
                    StatementKind::Intrinsic(_) => st.push("[\"?\"]".into()),
                    _ => {}
                }
            }
            let sp = js(&self.span(&bb.terminator.source_info.span));
            let unw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => b.to_string(),
                _ => "null".into(),
            };
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    let dt = discr.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("[\"sw\",{},[{}],{},{},{}]", self.operand(discr), v.join(","), targets.otherwise(), dt, sp)
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, unwind } => {
                    let t = place.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!("[\"drop\",{},{},{},{},{}]", self.place(place), target, t, unw(unwind), sp)
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    let at: Vec<String> = args
                        .iter()
                        .map(|o| o.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into()))
                        .collect();
                    let ft = func.ty(b.locals()).ok();
                    let mut callee = "null".to_string();
                    if let Some(t) = ft {
                        if let TyKind::RigidTy(RigidTy::FnDef(d, ga)) = t.kind() {
                            if let Ok(i) = Instance::resolve(d, &ga) {
                                callee = self.inst(i).to_string();
                            }
                        }
                    }
                    let fo = if callee == "null" { self.operand(func) } else { "null".into() };
                    let dt = destination.ty(b.locals()).map(|t| self.ty(t).to_string()).unwrap_or("null".into());
                    format!(
                        "[\"call\",{},[{}],{},{},{},{},{},[{}],{}]",
                        callee,
                        a.join(","),
                        self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into()),
                        unw(unwind),
                        sp,
                        fo,
                        at.join(","),
                        dt
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "BoundsCheck".to_string(),
                        AssertMessage::Overflow(op, ..) => format!("Overflow({:?})", op),
                        AssertMessage::OverflowNeg(_) => "OverflowNeg".into(),
                        AssertMessage::DivisionByZero(_) => "DivisionByZero".into(),
                        AssertMessage::RemainderByZero(_) => "RemainderByZero".into(),
                        x => format!("{:?}", x).chars().take(30).collect(),
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{},{}]",
                        self.operand(cond),
                        expected,
                        js(&m),
                        target,
                        unw(unwind),
                        sp
                    )
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("[[{}],{},{}]", st.join(","), t, sp));
        }
        let spread = rustc_spread(b);
        format!(
            r#"{{"argc":{},"spread":{},"locals":[{}],"names":[{}],"span":{},"blocks":[{}]}}"#,
            b.arg_locals().len(),
            spread.map(|s| s.to_string()).unwrap_or("null".into()),
            locals.join(","),
            names.join(","),
            js(&self.span(&b.span)),
            blocks.join(",\n")
        )
    }
}
fn rustc_spread(b: &Body) -> Option<usize> {
    b.spread_arg()
}

fn dump(tcx: rustc_middle::ty::TyCtxt<'_>) -> ControlFlow<()> {
    let out = match std::env::var("MIRDUMP_OUT") {
        Ok(o) => o,
        Err(_) => return ControlFlow::Continue(()),
    };
    let rd = |k: &str| -> Vec<String> {
        std::env::var(k)
            .ok()
            .and_then(|f| std::fs::read_to_string(f).ok())
            .map(|s| s.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect())
            .unwrap_or_default()
    };
    let mut cx = Cx {
        tcx,
        stop: rd("MIRDUMP_STOP"),
        descend: rd("MIRDUMP_DESCEND"),
        tys: HashMap::new(),
        ty_out: vec![],
        ty_todo: VecDeque::new(),
        insts: HashMap::new(),
        inst_todo: VecDeque::new(),
        inst_out: vec![],
        statics: HashMap::new(),
        depth: 0,
        repl: HashMap::new(),
    };
    let _ = (&cx.ty_todo, cx.depth);
    for d in tcx.hir_crate_items(()).definitions() {
        if tcx.def_kind(d).is_fn_like() && !tcx.is_closure_like(d.to_def_id()) {
            let n = tcx.item_name(d.to_def_id()).to_string();
            if n.starts_with("m_") {
                cx.repl.insert(n, d.to_def_id());
            }
        }
    }
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        if !matches!(item.kind(), rustc_public::ItemKind::Fn) || item.requires_monomorphization() {
            continue;
        }
        if let Ok(i) = Instance::try_from(item) {
            let n = cx.inst(i);
            roots.push(format!("[{},{}]", js(&item.name().to_string()), n));
        }
    }
    while let Some((n, i)) = cx.inst_todo.pop_front() {
        cx.emit_inst(n, i);
    }
    let st: Vec<String> = cx
        .statics
        .iter()
        .map(|(k, v)| format!("{}:{}", js(k), v.clone().unwrap_or("null".into())))
        .collect();
    let s = format!(
        "{{\"roots\":[{}],\n\"types\":[\n{}\n],\n\"statics\":{{{}}},\n\"insts\":[\n{}\n]}}\n",
        roots.join(","),
        cx.ty_out.join(",\n"),
        st.join(",\n"),
        cx.inst_out.join(",\n")
    );
    let tmp = format!("{}.tmp", out);
    std::fs::write(&tmp, s).expect("write");
    std::fs::rename(&tmp, &out).expect("rename");
    ControlFlow::Continue(())
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc path.
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let crate_name = args.windows(2).find(|w| w[0] == "--crate-name").map(|w| w[1].clone());
    if crate_name.as_deref() != Some("harness") {
        let mut c = std::process::Command::new("rustc");
        c.args(&args[1..]);
        std::process::exit(c.status().expect("rustc").code().unwrap_or(1));
    }
    let r = rustc_public::run_with_tcx!(&args, dump);
    match r {
        Ok(_) => {}
        Err(rustc_public::CompilerError::Skipped) => {}
        Err(e) => {
            eprintln!("mirdump: {:?}", e);
            std::process::exit(1);
        }
    }
}
