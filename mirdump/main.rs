//! mirdump: a rustc driver (used as RUSTC_WORKSPACE_WRAPPER) which writes the monomorphised,
//! type-resolved MIR of every function instance of the crate being checked as JSON.
//! Nothing is executed: this only queries the compiler's intermediate representation.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArg, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::{HashSet, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: impl IntoIterator<Item = String>) -> String {
    let v: Vec<String> = v.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    queue: VecDeque<(Instance<'tcx>, bool)>,
    seen: HashSet<Instance<'tcx>>,
    seen_def: HashSet<DefId>,
    out: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!({
            let p = self.tcx.def_path_str(d);
            if d.is_local() { format!("{}::{}", self.tcx.crate_name(LOCAL_CRATE), p) } else { p }
        })
    }
    /// stable definition path: crate name + definition path (no re-exports)
    fn dpath(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(format!("{}", t))
    }
    fn iid(&self, i: Instance<'tcx>) -> String {
        with_no_trimmed_paths!(format!("{}|{}", self.dpath(i.def_id()), list(i.args.iter().map(|a| esc(&format!("{}", a))))))
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("{}:{}", f, lo.line)
    }
    fn enqueue(&mut self, i: Instance<'tcx>, mono: bool) {
        let d = i.def_id();
        if !d.is_local() { return; }
        if !matches!(i.def, InstanceKind::Item(_)) { return; }
        if !matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) { return; }
        if !self.tcx.is_mir_available(d) { return; }
        if self.seen.insert(i) {
            self.queue.push_back((i, mono));
        }
    }
    fn alloc_json(&self, id: rustc_middle::mir::interpret::AllocId, depth: usize) -> String {
        match self.tcx.try_get_global_alloc(id) {
            Some(GlobalAlloc::Memory(m)) => {
                let a = m.inner();
                let len = a.len();
                let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..len.min(4096));
                let mut ptrs = vec![];
                if depth < 3 {
                    for (off, prov) in a.provenance().ptrs().iter() {
                        ptrs.push(format!("[{},{}]", off.bytes(), self.alloc_json(prov.alloc_id(), depth + 1)));
                    }
                }
                format!("{{\"bytes\":{},\"ptrs\":{}}}", list(bytes.iter().map(|b| b.to_string())), list(ptrs))
            }
            Some(GlobalAlloc::Static(d)) => format!("{{\"static\":{}}}", esc(&self.path(d))),
            Some(GlobalAlloc::Function { instance }) => format!("{{\"fn\":{}}}", esc(&self.iid(instance))),
            _ => "{}".into(),
        }
    }
    fn fn_json(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>, mono: bool) -> String {
        let tcx = self.tcx;
        let orig = self.path(d);
        let gargs = with_no_trimmed_paths!(list(args.iter().map(|a| esc(&format!("{}", a)))));
        let mut s = format!("{{\"path\":{},\"dpath\":{},\"args\":{}", esc(&orig), esc(&self.dpath(d)), gargs);
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"trait\":{}", esc(&self.path(tr)));
        }
        if let Ok(Some(r)) = Instance::try_resolve(tcx, env, d, args) {
            let rd = r.def_id();
            let kind = match r.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Virtual(..) => "virtual",
                InstanceKind::Intrinsic(_) => "intrinsic",
                _ => "shim",
            };
            let _ = write!(s, ",\"rpath\":{},\"rdpath\":{},\"kind\":{},\"crate\":{}", esc(&self.path(rd)), esc(&self.dpath(rd)), esc(kind), esc(tcx.crate_name(rd.krate).as_str()));
            if rd.is_local() && matches!(r.def, InstanceKind::Item(_)) && tcx.is_mir_available(rd) {
                let _ = write!(s, ",\"inst\":{}", esc(&self.iid(r)));
                self.enqueue(r, mono);
            }
            // FnOnce shim of a local closure
            if !matches!(r.def, InstanceKind::Item(_)) {
                for a in args.iter() {
                    if let Some(t) = a.as_type() { self.closure_in_ty(t, mono); }
                }
            }
        } else {
            let _ = write!(s, ",\"crate\":{}", esc(tcx.crate_name(d.krate).as_str()));
        }
        s.push('}');
        s
    }
    fn closure_in_ty(&mut self, t: Ty<'tcx>, mono: bool) -> Option<String> {
        if let ty::Closure(d, args) = t.kind() {
            if d.is_local() {
                let i = Instance::new_raw(*d, args);
                self.enqueue(i, mono);
                return Some(self.iid(i));
            }
        }
        None
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>, mono: bool) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tys = esc(&self.ty(t));
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().expect("bound vars in FnDef");
            let f = self.fn_json(*d, args, env, mono);
            return format!("{{\"k\":\"const\",\"ty\":{},\"fn\":{}}}", tys, f);
        }
        let name = match c.const_ {
            Const::Unevaluated(u, _) if u.promoted.is_none() => format!(",\"name\":{}", esc(&self.path(u.def))),
            Const::Ty(_, ct) => format!(",\"name\":{}", esc(&format!("{}", ct))),
            _ => String::new(),
        };
        if let ty::Closure(..) = t.kind() {
            if let Some(id) = self.closure_in_ty(t, mono) {
                return format!("{{\"k\":\"const\",\"ty\":{},\"closure\":{}}}", tys, esc(&id));
            }
        }
        let v = match c.const_.eval(tcx, env, c.span) {
            Ok(v) => v,
            Err(_) => return format!("{{\"k\":\"const\",\"ty\":{}{},\"u\":1}}", tys, name),
        };
        let val = match v {
            ConstValue::ZeroSized => "null".to_string(),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let bits = i.to_bits_unchecked();
                match t.kind() {
                    ty::Bool => (if bits != 0 { "true" } else { "false" }).into(),
                    ty::Float(ty::FloatTy::F64) => format!("{{\"f\":{}}}", esc(&format!("{:?}", f64::from_bits(bits as u64)))),
                    ty::Int(_) => {
                        let sz = i.size();
                        format!("{}", sz.sign_extend(bits))
                    }
                    _ => format!("{}", bits),
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => format!("{{\"ptr\":{}}}", self.alloc_json(p.provenance.alloc_id(), 0)),
            ConstValue::Slice { alloc_id, meta } => {
                if let Some(GlobalAlloc::Memory(m)) = tcx.try_get_global_alloc(alloc_id) {
                    let a = m.inner();
                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..(meta as usize).min(a.len()));
                    format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(b)))
                } else { "{}".into() }
            }
            ConstValue::Indirect { alloc_id, .. } => format!("{{\"mem\":{}}}", self.alloc_json(alloc_id, 0)),
        };
        format!("{{\"k\":\"const\",\"ty\":{}{},\"val\":{}}}", tys, name, val)
    }
    /// The order in which the fields of a struct are declared means nothing: the fields of these structs
    /// are numbered in one fixed order (fields not listed follow in the order of the declaration).
    fn field_perm(&self, d: DefId) -> Option<Vec<usize>> {
        const ORDER: &[(&str, &[&str])] = &[
            ("Edge", &["to", "cost"]),
            ("VerticesInPriorityQueue", &["cost_queue", "connection_to_mst", "used"]),
            ("TravellingSalesmanProblemInstance", &["name", "source", "description", "double_precision", "ignored_digits", "graph"]),
            ("Point", &["x", "y"]),
        ];
        if !d.is_local() { return None; }
        let ad = self.tcx.adt_def(d);
        if !ad.is_struct() { return None; }
        let nm = self.tcx.item_name(d);
        let order = ORDER.iter().find(|o| o.0 == nm.as_str())?.1;
        let names: Vec<String> = ad.non_enum_variant().fields.iter().map(|f| f.name.to_string()).collect();
        let mut idx: Vec<usize> = (0..names.len()).collect();
        idx.sort_by_key(|&i| order.iter().position(|o| *o == names[i]).unwrap_or(order.len() + i));
        let mut pm = vec![0; names.len()];
        for (p, i) in idx.into_iter().enumerate() { pm[i] = p; }
        Some(pm)
    }
    fn field_pos(&self, d: DefId, i: usize) -> usize {
        self.field_perm(d).map(|p| p[i]).unwrap_or(i)
    }
    fn place(&self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut pr = vec![];
        for (base, e) in p.iter_projections() {
            pr.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, _) => {
                    let bt = base.ty(&body.local_decls, tcx);
                    let nm = match bt.ty.kind() {
                        ty::Adt(ad, _) => {
                            let vi = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            ad.variants().get(vi).and_then(|v| v.fields.get(i)).map(|f| f.name.to_string()).unwrap_or_default()
                        }
                        _ => String::new(),
                    };
                    let pos = match bt.ty.kind() {
                        ty::Adt(ad, _) => self.field_pos(ad.did(), i.as_usize()),
                        _ => i.as_usize(),
                    };
                    format!("[\".\",{},{}]", pos, esc(&nm))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => format!("[\"ci\",{},{},{}]", offset, from_end, min_length),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(n, v) => format!("[\"dc\",{},{}]", v.as_usize(), esc(&n.map(|s| s.to_string()).unwrap_or_default())),
                _ => "[\"cast\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), list(pr))
    }
    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>, mono: bool) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"copy\",\"p\":{}}}", self.place(p, body)),
            Operand::Move(p) => format!("{{\"k\":\"move\",\"p\":{}}}", self.place(p, body)),
            Operand::Constant(c) => self.konst(c, env, mono),
            _ => "{\"k\":\"const\",\"ty\":\"bool\",\"val\":false}".into(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>, mono: bool) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, body, env, mono)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o, body, env, mono), esc(&format!("{}", n))),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", self.place(p, body), matches!(k, BorrowKind::Mut { .. })),
            Rvalue::RawPtr(k, p) => format!("[\"rawptr\",{},{}]", self.place(p, body), matches!(k, RawPtrKind::Mut)),
            Rvalue::Cast(k, o, t) => {
                if let CastKind::PointerCoercion(..) = k {
                    let ot = o.ty(&body.local_decls, self.tcx);
                    self.closure_in_ty(ot, mono);
                }
                format!("[\"cast\",{},{},{},{}]", esc(&format!("{:?}", k)), self.operand(o, body, env, mono), esc(&self.ty(*t)), esc(&self.ty(o.ty(&body.local_decls, self.tcx))))
            }
            Rvalue::BinaryOp(b, ops) => format!("[\"bin\",{},{},{},{}]", esc(&format!("{:?}", b)), self.operand(&ops.0, body, env, mono), self.operand(&ops.1, body, env, mono), esc(&self.ty(ops.0.ty(&body.local_decls, self.tcx)))),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{},{}]", esc(&format!("{:?}", u)), self.operand(o, body, env, mono), esc(&self.ty(o.ty(&body.local_decls, self.tcx)))),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p, body)),
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Array(_) => "{\"a\":\"array\"}".to_string(),
                    AggregateKind::Tuple => "{\"a\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, v, _, _, f) => {
                        let ad = self.tcx.adt_def(*d);
                        let var = ad.variant(*v);
                        let mut ns: Vec<(usize, String)> = var.fields.iter().enumerate().map(|(i, f)| (self.field_pos(*d, i), esc(f.name.as_str()))).collect();
                        ns.sort();
                        let names = list(ns.into_iter().map(|x| x.1));
                        format!("{{\"a\":\"adt\",\"path\":{},\"v\":{},\"vn\":{},\"fields\":{},\"active\":{},\"enum\":{}}}", esc(&self.path(*d)), v.as_usize(), esc(var.name.as_str()), names, f.map(|x| x.as_usize() as i64).unwrap_or(-1), ad.is_enum())
                    }
                    AggregateKind::Closure(d, args) => {
                        let i = Instance::new_raw(*d, args);
                        self.enqueue(i, mono);
                        format!("{{\"a\":\"closure\",\"inst\":{}}}", esc(&self.iid(i)))
                    }
                    AggregateKind::RawPtr(..) => "{\"a\":\"rawptr\"}".to_string(),
                    _ => "{\"a\":\"other\"}".to_string(),
                };
                let mut os = ops.iter().map(|o| self.operand(o, body, env, mono)).collect::<Vec<_>>();
                if let AggregateKind::Adt(d, ..) = &**k {
                    if let Some(pm) = self.field_perm(*d) {
                        if pm.len() == os.len() {
                            let mut v = vec![String::new(); os.len()];
                            for (i, o) in os.into_iter().enumerate() { v[pm[i]] = o; }
                            os = v;
                        }
                    }
                }
                let o = list(os);
                format!("[\"agg\",{},{}]", kk, o)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"k\":\"copy\",\"p\":{}}}]", self.place(p, body)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            _ => format!("[\"other\",{}]", esc(&format!("{:?}", r))),
        }
    }
    fn dump(&mut self, inst: Instance<'tcx>, mono: bool) {
        let tcx = self.tcx;
        let d = inst.def_id();
        self.seen_def.insert(d);
        let env = if mono { TypingEnv::fully_monomorphized() } else { TypingEnv::post_analysis(tcx, d) };
        let body0 = tcx.optimized_mir(d);
        let body: Body<'tcx> = if mono {
            inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, body0.clone()))
        } else {
            body0.clone()
        };
        let body = &body;
        let mut s = String::new();
        let kind = match tcx.def_kind(d) { DefKind::Closure => "closure", DefKind::AssocFn => "method", _ => "fn" };
        let parent = tcx.opt_parent(d).map(|p| self.dpath(p)).unwrap_or_default();
        let vis = if matches!(tcx.def_kind(d), DefKind::Closure) { false } else { tcx.visibility(d).is_public() };
        let trait_impl = if tcx.def_kind(d) == DefKind::AssocFn {
            tcx.trait_item_of(d).map(|t| self.path(t)).unwrap_or_default()
        } else { String::new() };
        let selfty = if tcx.def_kind(d) == DefKind::AssocFn {
            tcx.impl_of_assoc(d).map(|i| self.ty(tcx.type_of(i).instantiate_identity().skip_norm_wip())).unwrap_or_default()
        } else { String::new() };
        let sp = self.span(tcx.def_span(d));
        let gargs = with_no_trimmed_paths!(list(inst.args.iter().map(|a| esc(&format!("{}", a)))));
        let _ = write!(s, "{{\"id\":{},\"path\":{},\"dpath\":{},\"args\":{},\"mono\":{},\"kind\":{},\"parent\":{},\"pub\":{},\"trait_item\":{},\"self_ty\":{},\"span\":{},\"unsafe\":{},\"derived\":{},\"arg_count\":{},",
            esc(&self.iid(inst)), esc(&self.path(d)), esc(&self.dpath(d)), gargs, mono, esc(kind), esc(&parent), vis, esc(&trait_impl), esc(&selfty), esc(&sp),
            false,
            tcx.is_automatically_derived(tcx.opt_parent(d).unwrap_or(d)),
            body.arg_count);
        let mut names = vec![String::new(); body.local_decls.len()];
        let mut dbg = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() { names[p.local.as_usize()] = v.name.to_string(); }
                dbg.push(format!("[{},{}]", esc(v.name.as_str()), self.place(p, body)));
            }
        }
        let locals = list(body.local_decls.iter_enumerated().map(|(l, dcl)| format!("[{},{}]", esc(&self.ty(dcl.ty)), esc(&names[l.as_usize()]))));
        let spread = body.spread_arg.map(|l| l.as_usize() as i64).unwrap_or(-1);
        let _ = write!(s, "\"locals\":{},\"dbg\":{},\"spread\":{},\"blocks\":[", locals, list(dbg), spread);
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 { s.push(','); }
            let mut st = vec![];
            for stmt in &bb.statements {
                match &stmt.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let rv = self.rvalue(r, body, env, mono);
                        st.push(format!("[\"=\",{},{},{}]", self.place(p, body), rv, esc(&self.span(stmt.source_info.span))));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"setd\",{},{}]", self.place(place, body), variant_index.as_usize()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::StorageLive(l) => st.push(format!("[\"live\",{}]", l.as_usize())),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = esc(&self.span(t.source_info.span));
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = esc(&self.ty(discr.ty(&body.local_decls, tcx)));
                    let o = self.operand(discr, body, env, mono);
                    format!("[\"switch\",{},{},{},{},{}]", o, dt, list(targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize()))), targets.otherwise().as_usize(), sp)
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    format!("[\"drop\",{},{},{},{}]", self.place(place, body), target.as_usize(), esc(&self.ty(pt)), sp)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, body, env, mono);
                    let a = list(args.iter().map(|a| self.operand(&a.node, body, env, mono)).collect::<Vec<_>>());
                    let at = list(args.iter().map(|a| esc(&self.ty(a.node.ty(&body.local_decls, tcx)))).collect::<Vec<_>>());
                    let rt = esc(&self.ty(destination.ty(&body.local_decls, tcx).ty));
                    format!("[\"call\",{},{},{},{},{},{},{}]", f, a, self.place(destination, body), target.map(|t| t.as_usize() as i64).unwrap_or(-1), sp, at, rt)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let o = self.operand(cond, body, env, mono);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.operand(len, body, env, mono), self.operand(index, body, env, mono)),
                        m => format!("[{}]", esc(&format!("{:?}", std::mem::discriminant(m)))),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", o, expected, m, target.as_usize(), sp)
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                _ => "[\"other\"]".into(),
            };
            let _ = write!(s, "{{\"c\":{},\"s\":{},\"t\":{}}}", bb.is_cleanup, list(st), term);
        }
        s.push_str("]}");
        self.out.push(s);
    }
    fn run(&mut self) {
        let tcx = self.tcx;
        let defs: Vec<DefId> = tcx.mir_keys(()).iter().map(|l| l.to_def_id())
            .filter(|d| matches!(tcx.def_kind(*d), DefKind::Fn | DefKind::AssocFn)).collect();
        // candidate type arguments: every local ADT without generics, plus usize / f64
        let mut cands: Vec<Ty<'tcx>> = vec![tcx.types.usize];
        let mut adts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                if tcx.generics_of(d).count() == 0 {
                    cands.push(tcx.type_of(d).instantiate_identity().skip_norm_wip());
                }
                adts.push(d);
            }
        }
        for &d in &defs {
            let g = tcx.generics_of(d);
            let mut combos: Vec<Vec<GenericArg<'tcx>>> = vec![vec![]];
            let mut params = vec![];
            let mut gg = Some(g);
            while let Some(x) = gg {
                let mut own: Vec<_> = x.own_params.iter().collect();
                own.extend(params);
                params = own;
                gg = x.parent.map(|p| tcx.generics_of(p));
            }
            for p in params {
                let opts: Vec<GenericArg<'tcx>> = match p.kind {
                    ty::GenericParamDefKind::Lifetime => vec![tcx.lifetimes.re_erased.into()],
                    ty::GenericParamDefKind::Type { .. } => cands.iter().map(|t| (*t).into()).collect(),
                    ty::GenericParamDefKind::Const { .. } => (0..4u64).map(|v| ty::Const::from_target_usize(tcx, v).into()).collect(),
                };
                let mut n = vec![];
                for c in &combos {
                    for o in &opts {
                        let mut c2 = c.clone();
                        c2.push(*o);
                        n.push(c2);
                    }
                }
                combos = n;
                if combos.len() > 2000 { break; }
            }
            for c in combos {
                if c.len() != g.count() { continue; }
                let args = tcx.mk_args(&c);
                if g.requires_monomorphization(tcx) && tcx.instantiate_and_check_impossible_clauses((d, args)) { continue; }
                self.enqueue(Instance::new_raw(d, args), true);
            }
        }
        while let Some((i, m)) = self.queue.pop_front() {
            self.dump(i, m);
        }
        // bodies which no instantiation reached: polymorphic form
        for &d in &defs {
            if !self.seen_def.contains(&d) {
                let args = ty::GenericArgs::identity_for_item(tcx, d);
                self.enqueue(Instance::new_raw(d, args), false);
            }
        }
        while let Some((i, m)) = self.queue.pop_front() {
            self.dump(i, m);
        }
        let mut a = vec![];
        for d in adts {
            let ad = tcx.adt_def(d);
            let vs = list(ad.variants().iter().map(|v| {
                format!("{{\"name\":{},\"fields\":{}}}", esc(v.name.as_str()), list((0..v.fields.len()).map(|p| {
                    let i = (0..v.fields.len()).find(|&i| self.field_pos(d, i) == p).unwrap();
                    let f = &v.fields[rustc_abi::FieldIdx::from_usize(i)];
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    format!("[{},{},{}]", esc(f.name.as_str()), esc(&self.ty(t)), tcx.visibility(f.did).is_public())
                })))
            }));
            a.push(format!("{{\"path\":{},\"enum\":{},\"variants\":{}}}", esc(&self.path(d)), ad.is_enum(), vs));
        }
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let ct = format!("{:?}", tcx.crate_types());
        let j = format!("{{\"crate\":{},\"types\":{},\"adts\":{},\"bodies\":[\n{}\n]}}\n", esc(&name), esc(&ct), list(a), self.out.join(",\n"));
        let dir = std::env::var("MIRDUMP_OUT").unwrap();
        let suffix = if ct.contains("Executable") { "bin" } else { "lib" };
        let f = format!("{}/{}.{}.json", dir, name, suffix);
        std::fs::write(format!("{}.tmp", f), j).unwrap();
        std::fs::rename(format!("{}.tmp", f), f).unwrap();
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if std::env::var("MIRDUMP_OUT").is_ok() {
            let mut cx = Cx { tcx, queue: VecDeque::new(), seen: HashSet::new(), seen_def: HashSet::new(), out: vec![] };
            cx.run();
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let is_build_script = args.iter().any(|a| a == "build_script_build");
    let printing = args.iter().any(|a| a.starts_with("--print") || a == "-vV" || a == "-V");
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    if is_build_script || printing {
        struct N;
        impl Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
        return;
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
