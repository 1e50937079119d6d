// MIR extraction driver. Used as RUSTC_WRAPPER; for the crates named in TMI_MIR_CRATES it
// runs the ordinary compiler front end and then writes the resolved program (types, bodies,
// constants, resolved callees) as JSON to $TMI_MIR_OUT/<crate>.json.
// It decides nothing: the deciding analyses read the JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_abi::{FieldIdx, VariantIdx};
use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => { let _ = write!(out, "\\u{:04x}", c as u32); }
            c => out.push(c),
        }
    }
    out.push('"');
}
fn js(s: &str) -> String { let mut o = String::new(); esc(s, &mut o); o }

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<Option<String>>,
    ty_queue: VecDeque<(usize, Ty<'tcx>)>,
    insts: HashMap<Instance<'tcx>, usize>,
    inst_list: Vec<Instance<'tcx>>,
    inst_out: Vec<String>,
    skip: Vec<String>,
    mono: bool,
    /// statics the body being written refers to
    statics: std::collections::BTreeSet<String>,
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) { return *i; }
        let i = self.ty_out.len();
        self.ty_out.push(None);
        self.tys.insert(t, i);
        self.ty_queue.push_back((i, t));
        i
    }
    fn path(&self, d: DefId) -> String { with_no_trimmed_paths!(self.tcx.def_path_str(d)) }
    fn drain_tys(&mut self) {
        while let Some((i, t)) = self.ty_queue.pop_front() {
            let s = self.ty_json(t);
            self.ty_out[i] = Some(s);
        }
    }
    fn ty_list(&mut self, ts: impl Iterator<Item = Ty<'tcx>>) -> String {
        let v: Vec<String> = ts.map(|t| self.ty(t).to_string()).collect();
        format!("[{}]", v.join(","))
    }
    fn ty_json(&mut self, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let disp = js(&with_no_trimmed_paths!(t.to_string()));
        let mut size = String::from("null");
        if self.mono {
            if let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) { size = format!("{},\"al\":{}", l.size.bytes(), l.align.abi.bytes()); }
        }
        let body = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".into(),
            ty::Char => "\"k\":\"char\"".into(),
            ty::Str => "\"k\":\"str\"".into(),
            ty::Never => "\"k\":\"never\"".into(),
            ty::Int(i) => format!("\"k\":\"int\",\"n\":\"{}\"", i.name_str()),
            ty::Uint(i) => format!("\"k\":\"uint\",\"n\":\"{}\"", i.name_str()),
            ty::Float(f) => format!("\"k\":\"float\",\"n\":\"{}\"", f.name_str()),
            ty::Adt(def, args) => {
                let name = js(&self.path(def.did()));
                let targs = self.ty_list(args.types());
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let mut vs = Vec::new();
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val } else { 0 };
                    let mut fs = Vec::new();
                    for f in v.fields.iter() {
                        let fty = tcx.type_of(f.did).instantiate(tcx, args).skip_norm_wip();
                        let fty = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(fty)).unwrap_or(fty);
                        let fid = self.ty(fty);
                        let vis = if f.vis.is_public() { 1 } else { 0 };
                        fs.push(format!("[{},{},{}]", js(f.name.as_str()), fid, vis));
                    }
                    vs.push(format!("{{\"n\":{},\"d\":\"{}\",\"f\":[{}]}}", js(v.name.as_str()), discr, fs.join(",")));
                }
                format!("\"k\":\"adt\",\"n\":{},\"ak\":\"{}\",\"a\":{},\"v\":[{}]", name, kind, targs, vs.join(","))
            }
            ty::Ref(_, to, m) => { let i = self.ty(*to); format!("\"k\":\"ref\",\"to\":{},\"m\":{}", i, m.is_mut() as u8) }
            ty::RawPtr(to, m) => { let i = self.ty(*to); format!("\"k\":\"ptr\",\"to\":{},\"m\":{}", i, m.is_mut() as u8) }
            ty::Tuple(ts) => { let l = self.ty_list(ts.iter()); format!("\"k\":\"tuple\",\"e\":{}", l) }
            ty::Array(e, n) => { let i = self.ty(*e); let n = n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into()); format!("\"k\":\"array\",\"e\":{},\"len\":{}", i, n) }
            ty::Slice(e) => { let i = self.ty(*e); format!("\"k\":\"slice\",\"e\":{}", i) }
            ty::FnDef(d, args) => {
                let tl = self.ty_list(args.skip_binder().types());
                format!("\"k\":\"fndef\",\"n\":{},\"a\":{}", js(&self.path(*d)), tl)
            }
            ty::Closure(d, args) => {
                let ups = self.ty_list(args.as_closure().upvar_tys().iter());
                format!("\"k\":\"closure\",\"n\":{},\"u\":{}", js(&self.path(*d)), ups)
            }
            ty::Coroutine(d, args) => {
                let ups = self.ty_list(args.as_coroutine().upvar_tys().iter());
                format!("\"k\":\"coroutine\",\"n\":{},\"u\":{}", js(&self.path(*d)), ups)
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".into(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".into(),
            ty::Param(_) => "\"k\":\"param\"".into(),
            _ => "\"k\":\"other\"".into(),
        };
        format!("{{{},\"s\":{},\"sz\":{}}}", body, disp, size)
    }

    fn note_static(&mut self, d: rustc_hir::def_id::DefId) {
        let tcx = self.tcx;
        let fz = tcx.type_of(d).instantiate_identity().skip_norm_wip().is_freeze(tcx, TypingEnv::fully_monomorphized());
        let s = format!("[{},{},{},{}]", js(&self.path(d)), tcx.is_mutable_static(d) as u8, fz as u8, tcx.is_thread_local_static(d) as u8);
        self.statics.insert(s);
    }
    fn note_alloc(&mut self, a: rustc_middle::mir::interpret::AllocId, seen: &mut std::collections::HashSet<rustc_middle::mir::interpret::AllocId>) {
        if !seen.insert(a) { return; }
        match self.tcx.global_alloc(a) {
            GlobalAlloc::Static(d) => self.note_static(d),
            GlobalAlloc::Memory(m) => for p in m.inner().provenance().ptrs().values() { self.note_alloc(p.alloc_id(), seen); },
            _ => {}
        }
    }
    fn konst(&mut self, val: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth == 0 {
            match val {
                ConstValue::Scalar(Scalar::Ptr(p, _)) => self.note_alloc(p.provenance.alloc_id(), &mut Default::default()),
                ConstValue::Slice { alloc_id, .. } | ConstValue::Indirect { alloc_id, .. } => self.note_alloc(alloc_id, &mut Default::default()),
                _ => {}
            }
        }
        if depth > 12 { return "[\"deep\"]".into(); }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                if let Some(si) = self.scalar(val, t) {
                    return match t.kind() {
                        ty::Int(_) => format!("[\"int\",{}]", js(&si.to_int(si.size()).to_string())),
                        _ => format!("[\"int\",{}]", js(&si.to_bits(si.size()).to_string())),
                    };
                }
                "[\"opaque\"]".into()
            }
            ty::Pat(base, _) => self.konst(val, *base, depth + 1),
            ty::FnDef(..) | ty::Closure(..) => "[\"zst\"]".into(),
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                match inner.kind() {
                    ty::Str => {
                        if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                            if let Ok(s) = std::str::from_utf8(b) { return format!("[\"str\",{}]", js(s)); }
                        }
                        if let Some((aid, off, Some(n))) = self.fatptr(val) {
                            if let GlobalAlloc::Memory(a) = tcx.global_alloc(aid) {
                                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + n) as usize);
                                if let Ok(s) = std::str::from_utf8(b) { return format!("[\"str\",{}]", js(s)); }
                            }
                        }
                        "[\"opaque\"]".into()
                    }
                    ty::Slice(e) => {
                        if let Some((aid, off, Some(n))) = self.fatptr(val) {
                            return self.seq(aid, off, n, *e, depth);
                        }
                        "[\"opaque\"]".into()
                    }
                    ty::Dynamic(..) => "[\"opaque\"]".into(),
                    _ => {
                        if let Some((aid, off, _)) = self.fatptr(val) {
                            match tcx.global_alloc(aid) {
                                GlobalAlloc::Memory(_) => {
                                    if let ty::Array(e, n) = inner.kind() {
                                        if let Some(n) = n.try_to_target_usize(tcx) {
                                            let s = self.seq(aid, off, n, *e, depth);
                                            return format!("[\"ref\",{}]", s);
                                        }
                                    }
                                    let s = self.konst(ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::from_bytes(off) }, *inner, depth + 1);
                                    return format!("[\"ref\",{}]", s);
                                }
                                GlobalAlloc::Static(d) => return format!("[\"static\",{}]", js(&self.path(d))),
                                GlobalAlloc::Function { instance } => { let i = self.inst(instance); return format!("[\"fnptr\",{}]", i); }
                                _ => {}
                            }
                        }
                        "[\"opaque\"]".into()
                    }
                }
            }
            ty::FnPtr(..) => {
                if let Some((aid, _, _)) = self.fatptr(val) {
                    if let GlobalAlloc::Function { instance } = tcx.global_alloc(aid) { let i = self.inst(instance); return format!("[\"fnptr\",{}]", i); }
                }
                "[\"opaque\"]".into()
            }
            ty::Array(e, n) => {
                if let Some(n) = n.try_to_target_usize(tcx) {
                    if let ConstValue::Indirect { alloc_id, offset } = val {
                        return self.seq(alloc_id, offset.bytes(), n, *e, depth);
                    }
                    if n == 0 { return "[\"arr\",[]]".into(); }
                }
                self.destr(val, t, depth)
            }
            ty::Adt(def, _) if def.is_union() => "[\"opaque\"]".into(),
            ty::Adt(..) | ty::Tuple(_) => self.destr(val, t, depth),
            _ => "[\"opaque\"]".into(),
        }
    }
    fn seq(&mut self, aid: rustc_middle::mir::interpret::AllocId, off: u64, n: u64, e: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if let GlobalAlloc::Memory(a) = tcx.global_alloc(aid) {
            if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + n) as usize);
                let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
                return format!("[\"bytes\",\"{}\"]", h);
            }
            if let Ok(l) = tcx.layout_of(self.env.as_query_input(e)) {
                if n > 4096 { return "[\"opaque\"]".into(); }
                let sz = l.size.bytes();
                let v: Vec<String> = (0..n).map(|i| self.konst(ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::from_bytes(off + i * sz) }, e, depth + 1)).collect();
                return format!("[\"arr\",[{}]]", v.join(","));
            }
        }
        "[\"opaque\"]".into()
    }
    fn scalar(&self, val: ConstValue, t: Ty<'tcx>) -> Option<ty::ScalarInt> {
        match val {
            ConstValue::Scalar(Scalar::Int(i)) => Some(i),
            ConstValue::Indirect { alloc_id, offset } => {
                let l = self.tcx.layout_of(self.env.as_query_input(t)).ok()?;
                if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) {
                    let a = a.inner();
                    let r = offset.bytes() as usize..(offset.bytes() + l.size.bytes()) as usize;
                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(r);
                    let mut buf = [0u8; 16];
                    buf[..b.len()].copy_from_slice(b);
                    return ty::ScalarInt::try_from_uint(u128::from_le_bytes(buf), l.size);
                }
                None
            }
            _ => None,
        }
    }
    // (alloc, offset, metadata)
    fn fatptr(&self, val: ConstValue) -> Option<(rustc_middle::mir::interpret::AllocId, u64, Option<u64>)> {
        match val {
            ConstValue::Scalar(Scalar::Ptr(p, _)) => { let (prov, off) = p.into_raw_parts(); Some((prov.alloc_id(), off.bytes(), None)) }
            ConstValue::Slice { alloc_id, meta } => Some((alloc_id, 0, Some(meta))),
            ConstValue::Indirect { alloc_id, offset } => {
                if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) {
                    let a = a.inner();
                    let o = offset.bytes() as usize;
                    let prov = a.provenance().get_ptr(offset)?;
                    let rd = |o: usize| -> u64 { let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + 8); u64::from_le_bytes(b.try_into().unwrap()) };
                    let addr = rd(o);
                    let meta = if a.size().bytes() as usize >= o + 16 { Some(rd(o + 8)) } else { None };
                    return Some((prov.alloc_id(), addr, meta));
                }
                None
            }
            _ => None,
        }
    }
    fn destr(&mut self, val: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        if let ty::Adt(d, _) = t.kind() {
            if d.is_enum() && d.variants().is_empty() { return "[\"opaque\"]".into(); }
        }
        if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(val, t) {
            let fields: Vec<(ConstValue, Ty<'tcx>)> = d.fields.iter().map(|x| *x).collect();
            let fs: Vec<String> = fields.into_iter().map(|(v, ft)| self.konst(v, ft, depth + 1)).collect();
            return format!("[\"adt\",{},[{}]]", d.variant.map(|v| v.as_u32()).unwrap_or(0), fs.join(","));
        }
        "[\"opaque\"]".into()
    }

    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(k) = self.insts.get(&i) { return *k; }
        let k = self.inst_list.len();
        self.insts.insert(i, k);
        self.inst_list.push(i);
        k
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = Vec::new();
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"d\"".to_string(),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); format!("[\"f\",{},{}]", f.as_u32(), t) }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end as u8),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end as u8),
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.as_u32()),
                _ => "[\"x\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local.as_u32(), v.join(","))
    }
    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let tid = self.ty(t);
                let v = match t.kind() {
                    ty::FnDef(d, args) => {
                        let r = self.resolve(*d, args.skip_binder());
                        format!("[\"fn\",{}]", r)
                    }
                    _ => match c.const_.eval(self.tcx, self.env, c.span) {
                        Ok(v) => self.konst(v, t, 0),
                        Err(_) => "[\"opaque\"]".into(),
                    },
                };
                let name = match c.const_ { Const::Unevaluated(u, _) if u.promoted.is_none() => js(&self.path(u.def)), _ => "null".into() };
                format!("[\"k\",{},{},{}]", tid, v, name)
            }
            Operand::RuntimeChecks(_) => "[\"rc\"]".into(),
        }
    }
    // -> {"p":path,"i":inst or null,"t":trait-path,"kind":..}
    fn resolve(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let p = self.path(d);
        let mut inst = "null".to_string();
        let mut kind = "item";
        let mut rp = "null".to_string();
        if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, d, args) {
            kind = match i.def { InstanceKind::Item(_) => "item", InstanceKind::Intrinsic(_) => "intrinsic", InstanceKind::Virtual(..) => "virtual", _ => "shim" };
            rp = js(&self.path(i.def_id()));
            inst = self.inst(i).to_string();
        }
        let tr = tcx.trait_of_assoc(d).map(|t| js(&self.path(t))).unwrap_or("null".into());
        let targs = self.ty_list(args.types());
        let krate = js(tcx.crate_name(d.krate).as_str());
        format!("{{\"p\":{},\"i\":{},\"rp\":{},\"kind\":\"{}\",\"tr\":{},\"a\":{},\"cr\":{}}}", js(&p), inst, rp, kind, tr, targs, krate)
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => { let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into()); format!("[\"repeat\",{},{}]", self.operand(o), n) }
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }) as u8, self.place(p)),
            Rvalue::ThreadLocalRef(d) => { self.note_static(*d); format!("[\"tls\",{}]", js(&self.path(*d))) }
            Rvalue::RawPtr(k, p) => format!("[\"rawptr\",{},{}]", matches!(k, RawPtrKind::Mut) as u8, self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let kn = match k {
                    CastKind::PointerCoercion(c, _) => format!("coerce:{:?}", c),
                    k => format!("{:?}", k),
                };
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", js(&kn), self.operand(o), t)
            }
            Rvalue::BinaryOp(op, b) => format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(&b.0), self.operand(&b.1)),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let os = os.join(",");
                match &**k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); format!("[\"agg\",\"array\",{},0,[{}]]", t, os) }
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",0,0,[{}]]", os),
                    AggregateKind::Adt(d, v, args, _, active) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), args);
                        let t = self.ty(t);
                        if let Some(a) = active { return format!("[\"agg\",\"union\",{},{},[{}]]", t, a.as_u32(), os); }
                        format!("[\"agg\",\"adt\",{},{},[{}]]", t, v.as_u32(), os)
                    }
                    AggregateKind::Closure(d, args) => { let t = self.ty(Ty::new_closure(self.tcx, *d, args)); format!("[\"agg\",\"closure\",{},0,[{}]]", t, os) }
                    AggregateKind::Coroutine(d, args) => { let t = self.ty(Ty::new_coroutine(self.tcx, *d, args)); let k = if self.mono { self.inst(Instance::new_raw(*d, args)).to_string() } else { "0".to_string() }; format!("[\"agg\",\"coroutine\",{},{},[{}]]", t, k, os) }
                    AggregateKind::RawPtr(t, _) => { let t = self.ty(*t); format!("[\"agg\",\"rawptr\",{},0,[{}]]", t, os) }
                    _ => "[\"opaque\"]".into(),
                }
            }
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
        }
    }
    fn unwind(&self, u: &UnwindAction) -> String {
        match u { UnwindAction::Cleanup(b) => b.as_u32().to_string(), _ => "null".into() }
    }
    fn body(&mut self, b: &Body<'tcx>, name: &str, extra: &str) -> String {
        self.statics.clear();
        let mut locals = Vec::new();
        for l in b.local_decls.iter() { let t = self.ty(l.ty); locals.push(t.to_string()); }
        let mut names = Vec::new();
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value { let pl = self.place(p); names.push(format!("[{},{}]", js(v.name.as_str()), pl)); }
        }
        let mut blocks = Vec::new();
        for bb in b.basic_blocks.iter() {
            let mut st = Vec::new();
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(a) => { let (p, r) = &**a; let pj = self.place(p); let rj = self.rvalue(r); let sp = self.span(s.source_info.span); st.push(format!("[\"=\",{},{},{}]", pj, rj, js(&sp))); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let pj = self.place(place); st.push(format!("[\"sd\",{},{}]", pj, variant_index.as_u32())); }
                    StatementKind::Intrinsic(i) => {
                        if let NonDivergingIntrinsic::CopyNonOverlapping(c) = &**i { let a = self.operand(&c.src); let b2 = self.operand(&c.dst); let n = self.operand(&c.count); st.push(format!("[\"cno\",{},{},{}]", a, b2, n)); }
                    }
                    StatementKind::StorageDead(l) if self.mono => st.push(format!("[\"x\",{}]", l.as_u32())),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = js(&self.span(t.source_info.span));
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let dti = self.ty(dt);
                    let o = self.operand(discr);
                    let ts: Vec<String> = targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.as_u32())).collect();
                    format!("[\"switch\",{},{},[{}],{}]", o, dti, ts.join(","), targets.otherwise().as_u32())
                }
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::CoroutineDrop => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(&b.local_decls, self.tcx).ty; let pti = self.ty(pt);
                    let p = self.place(place); format!("[\"drop\",{},{},{},{}]", p, pti, target.as_u32(), self.unwind(unwind))
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(func);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node)).collect();
                    let d = self.place(destination);
                    let dt = destination.ty(&b.local_decls, self.tcx).ty; let dti = self.ty(dt);
                    format!("[\"call\",{},[{}],{},{},{},{}]", f, a.join(","), d, target.map(|t| t.as_u32().to_string()).unwrap_or("null".into()), self.unwind(unwind), dti)
                }
                TerminatorKind::TailCall { .. } => "[\"tailcall\"]".into(),
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let c = self.operand(cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => { let l = self.operand(len); let i = self.operand(index); format!("[\"bounds\",{},{}]", l, i) }
                        AssertKind::Overflow(op, l, r) => { let l = self.operand(l); let r = self.operand(r); format!("[\"overflow\",\"{:?}\",{},{}]", op, l, r) }
                        AssertKind::OverflowNeg(o) => { let o = self.operand(o); format!("[\"overflow_neg\",{}]", o) }
                        AssertKind::DivisionByZero(o) => { let o = self.operand(o); format!("[\"div0\",{}]", o) }
                        AssertKind::RemainderByZero(o) => { let o = self.operand(o); format!("[\"rem0\",{}]", o) }
                        AssertKind::ResumedAfterReturn(_) | AssertKind::ResumedAfterPanic(_) => "[\"resumed\"]".into(),
                        _ => "[\"otherassert\"]".into(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", c, *expected as u8, m, target.as_u32(), self.unwind(unwind))
                }
                TerminatorKind::Yield { value, resume, .. } => { let v = self.operand(value); format!("[\"yield\",{},{}]", v, resume.as_u32()) }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("{{\"c\":{},\"s\":[{}],\"t\":{},\"sp\":{}}}", bb.is_cleanup as u8, st.join(","), tj, sp));
        }
        let spread = b.spread_arg.map(|l| l.as_u32().to_string()).unwrap_or("null".into());
        let statics: Vec<String> = self.statics.iter().cloned().collect();
        let extra = format!("{extra},\"st\":[{}]", statics.join(","));
        format!("{{\"name\":{},\"argc\":{},\"spread\":{},\"locals\":[{}],\"names\":[{}],\"blocks\":[{}],\"span\":{}{}}}",
            js(name), b.arg_count, spread, locals.join(","), names.join(","), blocks.join(",\n"), js(&self.span(b.span)), extra)
    }
    fn inst_json(&mut self, i: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        let did = i.def_id();
        let path = self.path(did);
        let krate = tcx.crate_name(did.krate).to_string();
        let name = with_no_trimmed_paths!(i.to_string());
        let kind = match i.def { InstanceKind::Item(_) => "item".to_string(), InstanceKind::Intrinsic(_) => "intrinsic".into(), InstanceKind::Virtual(..) => "virtual".into(), InstanceKind::LlvmIntrinsic(..) => "llvm".into(), InstanceKind::Shim(s) => { let d = format!("{:?}", s); format!("shim:{}", d.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("")) } };
        let tr = tcx.impl_of_assoc(did).and_then(|im| tcx.impl_opt_trait_ref(im)).map(|t| js(&self.path(t.skip_binder().def_id))).or_else(|| tcx.trait_of_assoc(did).map(|t| js(&self.path(t)))).unwrap_or("null".into());
        let targs = self.ty_list(i.args.types());
        let unsafe_ = matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(did).skip_binder().safety().is_unsafe();
        let vis = if did.is_local() || true { if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) { tcx.visibility(did).is_public() } else { false } } else { false };
        let head = format!("\"path\":{},\"cr\":{},\"kind\":{},\"tr\":{},\"a\":{},\"unsafe\":{},\"pub\":{},\"n\":{}", js(&path), js(&krate), js(&kind), tr, targs, unsafe_ as u8, vis as u8, js(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default().as_str()));
        let skip = self.skip.iter().any(|p| path.starts_with(p.as_str()) || name.starts_with(p.as_str()));
        let keep_crate = krate == "tmi" || krate.starts_with("vharness") || krate == "core" || krate == "alloc" || krate == "std" || krate == "futures_util" || krate == "futures_core" || krate == "smallvec" || std::env::var("TMI_MIR_KEEP").map(|k| k.split(',').any(|c| c == krate)).unwrap_or(false);
        let mut has = false;
        if !skip && keep_crate {
            has = match i.def {
                InstanceKind::Item(d) => tcx.is_mir_available(d) && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody | DefKind::Ctor(..)),
                InstanceKind::Shim(_) => kind != "shim:DropGlue",
                _ => false,
            };
        }
        if !has { return format!("{{{},\"body\":null}}", head); }
        let body = tcx.instance_mir(i.def).clone();
        let body: Body<'tcx> = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, body));
        let b = self.body(&body, &name, "");
        format!("{{{},\"body\":{}}}", head, b)
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let want = std::env::var("TMI_MIR_CRATES").unwrap_or_default();
        if !want.split(',').any(|c| c == krate) { return Compilation::Continue; }
        let out = std::env::var("TMI_MIR_OUT").expect("TMI_MIR_OUT");
        let skip: Vec<String> = std::env::var("TMI_MIR_SKIP").unwrap_or_default().split(';').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
        let mono = krate != "tmi";
        let named: Vec<String> = std::env::var("TMI_MIR_ROOTS").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
        let mut cx = Cx { tcx, env: TypingEnv::fully_monomorphized(), tys: HashMap::new(), ty_out: vec![], ty_queue: VecDeque::new(), insts: HashMap::new(), inst_list: vec![], inst_out: vec![], skip, mono, statics: Default::default() };
        let mut extra = String::new();
        if mono {
            let mut roots = Vec::new();
            for d in tcx.hir_crate_items(()).definitions() {
                let did = d.to_def_id();
                if tcx.def_kind(did) == DefKind::Fn && (tcx.item_name(did).as_str().starts_with("h_") || named.contains(&cx.path(did))) && tcx.generics_of(did).own_requires_monomorphization() == false {
                    let i = Instance::mono(tcx, did);
                    let k = cx.inst(i);
                    roots.push(format!("[{},{}]", js(tcx.item_name(did).as_str()), k));
                }
            }
            let mut n = 0;
            while n < cx.inst_list.len() {
                let i = cx.inst_list[n];
                let s = cx.inst_json(i);
                cx.inst_out.push(s);
                n += 1;
                // closures / coroutines constructed are reached through their call sites
            }
            extra = format!("\"roots\":[{}],", roots.join(","));
            cx.drain_tys();
        } else {
            // every body of the crate, polymorphic
            let mut bodies = Vec::new();
            let keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
            for d in keys {
                let did = d.to_def_id();
                let dk = tcx.def_kind(did);
                if !matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody) { continue; }
                cx.env = TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(did));
                let body = tcx.optimized_mir(did).clone();
                let name = cx.path(did);
                let vis = if matches!(dk, DefKind::Fn | DefKind::AssocFn) { tcx.visibility(did).is_public() } else { false };
                let eff = tcx.effective_visibilities(()).is_reachable(d);
                let tr = if matches!(dk, DefKind::AssocFn) { tcx.impl_of_assoc(did).and_then(|im| tcx.impl_opt_trait_ref(im)).map(|t| with_no_trimmed_paths!(t.skip_binder().to_string())) } else { None };
                let from_exp = tcx.def_span(did).from_expansion();
                let e = format!(",\"pub\":{},\"reach\":{},\"dk\":{},\"trait\":{},\"exp\":{}", vis as u8, eff as u8, js(&format!("{:?}", dk)), tr.map(|t| js(&t)).unwrap_or("null".into()), from_exp as u8);
                let b = cx.body(&body, &name, &e);
                bodies.push(b);
                cx.drain_tys();
            }
            // adt list with serde-ish derive info: impls
            let mut impls = Vec::new();
            for d in tcx.hir_crate_items(()).definitions() {
                let did = d.to_def_id();
                if let DefKind::Impl { of_trait: true } = tcx.def_kind(did) {
                    let tr = tcx.impl_trait_ref(did).skip_binder();
                    let selfty = cx.ty(tr.self_ty());
                    let exp = tcx.def_span(did).from_expansion();
                    impls.push(format!("[{},{},{},{}]", js(&cx.path(tr.def_id)), selfty, exp as u8, js(&cx.span(tcx.def_span(did)))));
                }
            }
            // statics / thread locals
            let mut statics = Vec::new();
            for d in tcx.hir_crate_items(()).definitions() {
                let did = d.to_def_id();
                if let DefKind::Static { .. } = tcx.def_kind(did) { statics.push(js(&cx.path(did))); }
            }
            cx.drain_tys();
            extra = format!("\"bodies\":[{}],\"impls\":[{}],\"statics\":[{}],", bodies.join(",\n"), impls.join(","), statics.join(","));
        }
        cx.drain_tys();
        let tys: Vec<String> = cx.ty_out.iter().map(|t| t.clone().unwrap_or("null".into())).collect();
        let s = format!("{{\"crate\":{},{}\"types\":[{}],\n\"insts\":[{}]}}\n", js(&krate), extra, tys.join(",\n"), cx.inst_out.join(",\n"));
        let path = format!("{}/{}.json", out, krate);
        std::fs::write(&path, s).expect("write mir json");
        let _ = (FieldIdx::from_u32(0), VariantIdx::from_u32(0));
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WRAPPER: argv[1] is the real rustc
    let real = args.get(1).cloned().unwrap_or_default();
    if real.ends_with("rustc") { args.remove(1); }
    let want = std::env::var("TMI_MIR_CRATES").unwrap_or_default();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1).cloned()).unwrap_or_default();
    if !want.split(',').any(|c| c == name) {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(&real).args(&args[1..]).exec();
        panic!("cannot run {real}: {e}");
    }
    rustc_driver_impl::catch_with_exit_code(|| rustc_driver_impl::compiler_entrypoint(&args, &mut Cb))
}
