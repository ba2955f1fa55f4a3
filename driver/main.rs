// MIR dumper: compiles a probe crate and writes the monomorphic MIR of every function reachable
// from its `root_*` functions as JSON (types, bodies, evaluated constants, source positions).
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<String>,
    insts: HashMap<Instance<'tcx>, usize>,
    inst_json: Vec<String>,
    queue: VecDeque<(Instance<'tcx>, usize)>,
    local: Vec<String>, // crates whose bodies are dumped in full
    depth: HashMap<usize, usize>,
    cur_depth: usize,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        format!("{}", esc(&format!("{}:{}", lo.file.name.prefer_remapped_unconditionally(), lo.line)))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t));
        self.ty_n(t)
    }
    fn ty_n(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let id = self.type_json.len();
        self.types.insert(t, id);
        self.type_json.push(String::new());
        let tcx = self.tcx;
        let s = ty::print::with_no_trimmed_paths!(format!("{}", t));
        let mut o = format!("{{\"s\":{}", esc(&s));
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                let _ = write!(o, ",\"k\":\"prim\"");
            }
            ty::Adt(def, args) => {
                let kind = if def.is_struct() { "struct" } else if def.is_enum() { "enum" } else { "union" };
                let _ = write!(o, ",\"k\":\"adt\",\"kind\":{},\"path\":{},\"crate\":{},\"box\":{}", esc(kind), esc(&self.path(def.did())), esc(tcx.crate_name(def.did().krate).as_str()), def.is_box());
                let targs: Vec<String> = args.types().map(|a| self.ty(a).to_string()).collect();
                let _ = write!(o, ",\"args\":{}", arr(targs));
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let fty = tcx.normalize_erasing_regions(self.env, f.ty(tcx, args));
                        let ft = self.ty_n(fty);
                        fs.push(format!("[{},{},{}]", esc(f.name.as_str()), ft, f.vis.is_public()));
                    }
                    let disc = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                    vs.push(format!("{{\"name\":{},\"d\":{},\"fields\":{}}}", esc(v.name.as_str()), disc, arr(fs)));
                }
                let _ = write!(o, ",\"variants\":{}", arr(vs));
                if let Some(dt) = tcx.adt_destructor(def.did()) {
                    let imp = dt.did;
                    let krate = tcx.crate_name(imp.krate).to_string();
                    let _ = write!(o, ",\"has_drop\":true,\"drop_crate\":{}", esc(&krate));
                    if self.local.contains(&krate) {
                        let trait_did = tcx.require_lang_item(rustc_attr_ir::lang_items::LangItem::Drop, rustc_span::DUMMY_SP);
                        let m = tcx.associated_item_def_ids(trait_did)[0];
                        let inst = Instance::expect_resolve(tcx, self.env, m, tcx.mk_args(&[t.into()]), rustc_span::DUMMY_SP);
                        let i = self.inst(inst);
                        let _ = write!(o, ",\"drop_impl\":{}", i);
                    }
                }
            }
            ty::Array(e, n) => {
                let e = self.ty(e);
                let n = n.try_to_target_usize(tcx).unwrap_or(u64::MAX);
                let _ = write!(o, ",\"k\":\"array\",\"e\":{},\"n\":{}", e, n);
            }
            ty::Slice(e) => {
                let e = self.ty(e);
                let _ = write!(o, ",\"k\":\"slice\",\"e\":{}", e);
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(e);
                let _ = write!(o, ",\"k\":\"ptr\",\"e\":{},\"mut\":{}", e, m.is_mut());
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(e);
                let _ = write!(o, ",\"k\":\"ref\",\"e\":{},\"mut\":{}", e, m.is_mut());
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(o, ",\"k\":\"tuple\",\"fields\":{}", arr(v));
            }
            ty::Closure(d, args) => {
                let v: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                let i = self.inst(Instance { def: ty::InstanceKind::Item(d), args });
                let _ = write!(o, ",\"k\":\"closure\",\"path\":{},\"fields\":{},\"inst\":{}", esc(&self.path(d)), arr(v), i);
            }
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap();
                let r = Instance::try_resolve(tcx, self.env, d, args).ok().flatten();
                let _ = write!(o, ",\"k\":\"fndef\",\"path\":{}", esc(&self.path(d)));
                if let Some(r) = r {
                    let i = self.inst(r);
                    let _ = write!(o, ",\"inst\":{}", i);
                }
            }
            _ => {
                let _ = write!(o, ",\"k\":\"other\"");
            }
        }
        if let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) {
            let _ = write!(o, ",\"size\":{},\"align\":{}", l.size.bytes(), l.align.abi.bytes());
        }
        let nd = t.needs_drop(tcx, self.env);
        let _ = write!(o, ",\"needs_drop\":{}}}", nd);
        self.type_json[id] = o;
        id
    }
    /// std loops written with raw pointers: analysed through an equivalent loop of the probe crate
    fn redirect(&self, i: Instance<'tcx>) -> Instance<'tcx> {
        let tcx = self.tcx;
        if !matches!(i.def, InstanceKind::Item(_)) { return i; }
        let p = self.path(i.def_id());
        let want = if let Some(m) = p.strip_prefix("<std::slice::Iter<'a, T> as std::iter::Iterator>::") { format!("redirect_slice_{m}") }
            else if p == "<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter" { "redirect_vec_from_iter".to_string() }
            else { return i };
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            if tcx.def_kind(d) == DefKind::Fn && tcx.item_name(d).as_str() == want { return Instance { def: InstanceKind::Item(d), args: i.args }; }
        }
        i
    }
    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        let i = self.redirect(i);
        if let Some(x) = self.insts.get(&i) {
            return *x;
        }
        let id = self.inst_json.len();
        self.insts.insert(i, id);
        self.inst_json.push(String::new());
        self.depth.insert(id, self.cur_depth + 1);
        self.queue.push_back((i, id));
        id
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut pr = vec![];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"ci\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_usize()),
                _ => "[\"?\"]".to_string(),
            };
            pr.push(s);
            pt = pt.projection_ty(self.tcx, e);
        }
        let t = self.ty(pt.ty);
        format!("{{\"l\":{},\"p\":{},\"t\":{}}}", p.local.as_usize(), arr(pr), t)
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let ti = self.ty(t);
        if depth > 8 {
            return format!("{{\"c\":\"opaque\",\"t\":{}}}", ti);
        }
        match v {
            ConstValue::ZeroSized => {
                // still may be a struct with zero sized fields
                format!("{{\"c\":\"zst\",\"t\":{}}}", ti)
            }
            ConstValue::Scalar(s) if t.is_integral() || t.is_bool() || t.is_char() => match s {
                mir::interpret::Scalar::Int(i) => {
                    let bits = i.to_bits(i.size());
                    let val: i128 = if t.is_signed() { i.size().sign_extend(bits) } else { bits as i128 };
                    if t.is_signed() { format!("{{\"c\":\"int\",\"v\":{},\"t\":{}}}", val, ti) } else { format!("{{\"c\":\"int\",\"v\":{},\"t\":{}}}", bits, ti) }
                }
                _ => format!("{{\"c\":\"opaque\",\"t\":{}}}", ti),
            },
            ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) if t.is_ref() => {
                let (prov, off) = p.into_raw_parts();
                let inner = t.builtin_deref(true).unwrap();
                if off.bytes() == 0 && inner.is_sized(tcx, self.env) {
                    if let mir::interpret::GlobalAlloc::Memory(_) = tcx.global_alloc(prov.alloc_id()) {
                        let iv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                        let s = self.cval(iv, inner, depth + 1);
                        return format!("{{\"c\":\"ref\",\"v\":{},\"t\":{}}}", s, ti);
                    }
                }
                format!("{{\"c\":\"opaque\",\"t\":{}}}", ti)
            }
            ConstValue::Slice { .. } => format!("{{\"c\":\"str\",\"t\":{}}}", ti),
            _ => {
                let agg = matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..));
                if agg && !matches!(t.kind(), ty::Adt(d, _) if d.is_union()) {
                    if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                        let fs: Vec<(ConstValue, Ty<'tcx>)> = d.fields.to_vec();
                        if fs.len() <= 64 {
                            let f: Vec<String> = fs.into_iter().map(|(v, t)| self.cval(v, t, depth + 1)).collect();
                            let vi = d.variant.map(|x| x.as_usize()).unwrap_or(0);
                            return format!("{{\"c\":\"agg\",\"variant\":{},\"f\":{},\"t\":{}}}", vi, arr(f), ti);
                        }
                    }
                }
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if t.is_integral() || t.is_bool() || t.is_char() {
                        if let mir::interpret::GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                            let size = tcx.layout_of(self.env.as_query_input(t)).unwrap().size;
                            if let Ok(s) = m.inner().read_scalar(&tcx, mir::interpret::alloc_range(offset, size), false) {
                                return self.cval(ConstValue::Scalar(s), t, depth + 1);
                            }
                        }
                    }
                }
                format!("{{\"c\":\"opaque\",\"t\":{}}}", ti)
            }
        }
    }
    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"copy\",\"p\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"o\":\"move\",\"p\":{}}}", self.place(body, p)),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let v = match t.kind() {
                    ty::FnDef(..) => format!("{{\"c\":\"fn\",\"t\":{}}}", self.ty(t)),
                    _ => match c.const_.eval(self.tcx, self.env, c.span) {
                        Ok(v) => self.cval(v, t, 0),
                        Err(_) => format!("{{\"c\":\"opaque\",\"t\":{}}}", self.ty(t)),
                    },
                };
                format!("{{\"o\":\"const\",\"v\":{}}}", v)
            }
            _ => format!("{{\"o\":\"rtcheck\"}}"),
        }
    }
    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("{{\"r\":\"use\",\"o\":{}}}", self.operand(b, o)),
            Rvalue::Repeat(o, n) => format!("{{\"r\":\"repeat\",\"o\":{},\"n\":{}}}", self.operand(b, o), n.try_to_target_usize(self.tcx).unwrap_or(0)),
            Rvalue::Ref(_, k, p) => format!("{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}", matches!(k, BorrowKind::Mut { .. }), self.place(b, p)),
            Rvalue::RawPtr(_, p) => format!("{{\"r\":\"rawptr\",\"p\":{}}}", self.place(b, p)),
            Rvalue::Cast(k, o, t) => format!("{{\"r\":\"cast\",\"k\":{},\"o\":{},\"t\":{}}}", esc(&format!("{:?}", k)), self.operand(b, o), self.ty(*t)),
            Rvalue::BinaryOp(op, ab) => format!("{{\"r\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}", esc(&format!("{:?}", op)), self.operand(b, &ab.0), self.operand(b, &ab.1)),
            Rvalue::UnaryOp(op, a) => format!("{{\"r\":\"un\",\"op\":{},\"a\":{}}}", esc(&format!("{:?}", op)), self.operand(b, a)),
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"p\":{}}}", self.place(b, p)),
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"o\":{{\"o\":\"copy\",\"p\":{}}}}}", self.place(b, p)),
            Rvalue::Aggregate(k, fs) => {
                let f: Vec<String> = fs.iter().map(|o| self.operand(b, o)).collect();
                let (kk, extra) = match &**k {
                    AggregateKind::Array(_) => ("array", String::new()),
                    AggregateKind::Tuple => ("tuple", String::new()),
                    AggregateKind::Adt(_, v, _, _, uf) => ("adt", format!(",\"variant\":{},\"uf\":{}", v.as_usize(), uf.map(|x| x.as_usize() as i64).unwrap_or(-1))),
                    AggregateKind::Closure(..) => ("closure", String::new()),
                    AggregateKind::RawPtr(..) => ("rawptr", String::new()),
                    _ => ("other", String::new()),
                };
                format!("{{\"r\":\"agg\",\"k\":\"{}\"{},\"f\":{}}}", kk, extra, arr(f))
            }
            _ => format!("{{\"r\":\"other\",\"s\":{}}}", esc(&format!("{:?}", r))),
        }
    }
    fn unwind(&self, u: &UnwindAction) -> String {
        match u {
            UnwindAction::Continue => "\"continue\"".into(),
            UnwindAction::Unreachable => "\"unreachable\"".into(),
            UnwindAction::Terminate(_) => "\"terminate\"".into(),
            UnwindAction::Cleanup(b) => b.as_usize().to_string(),
        }
    }
    fn body(&mut self, inst: Instance<'tcx>, stack: usize) -> String {
        let tcx = self.tcx;
        let _ = stack;
        let raw = tcx.instance_mir(inst.def);
        let body: Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, raw.clone()));
        let locals: Vec<String> = body.local_decls.iter().map(|d| self.ty(d.ty).to_string()).collect();
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.as_usize(), esc(v.name.as_str())));
                }
            }
        }
        let mut bbs = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in bb.statements.iter() {
                let x = match &s.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&body, &a.0);
                        let r = self.rvalue(&body, &a.1);
                        format!("{{\"s\":\"assign\",\"p\":{},\"r\":{},\"sp\":{}}}", p, r, self.span(s.source_info.span))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => format!("{{\"s\":\"setd\",\"p\":{},\"v\":{}}}", self.place(&body, place), variant_index.as_usize()),
                    StatementKind::StorageLive(l) => format!("{{\"s\":\"live\",\"l\":{}}}", l.as_usize()),
                    StatementKind::StorageDead(l) => format!("{{\"s\":\"dead\",\"l\":{}}}", l.as_usize()),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => format!("{{\"s\":\"assume\",\"o\":{}}}", self.operand(&body, o)),
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => format!("{{\"s\":\"cpno\",\"src\":{},\"dst\":{},\"n\":{},\"sp\":{}}}", self.operand(&body, &c.src), self.operand(&body, &c.dst), self.operand(&body, &c.count), self.span(s.source_info.span)),
                    },
                    _ => continue,
                };
                st.push(x);
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"t\":\"goto\",\"b\":{}}}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    let dt = discr.ty(&body.local_decls, tcx);
                    format!("{{\"t\":\"switch\",\"o\":{},\"ty\":{},\"v\":{},\"else\":{},\"sp\":{}}}", self.operand(&body, discr), self.ty(dt), arr(v), targets.otherwise().as_usize(), sp)
                }
                TerminatorKind::UnwindResume => "{\"t\":\"resume\"}".into(),
                TerminatorKind::UnwindTerminate(_) => "{\"t\":\"terminate\"}".into(),
                TerminatorKind::Return => "{\"t\":\"return\"}".into(),
                TerminatorKind::Unreachable => format!("{{\"t\":\"unreachable\",\"sp\":{}}}", sp),
                TerminatorKind::Drop { place, target, unwind, .. } => format!("{{\"t\":\"drop\",\"p\":{},\"b\":{},\"u\":{},\"sp\":{}}}", self.place(&body, place), target.as_usize(), self.unwind(unwind), sp),
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(&body, func);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&body, &x.node)).collect();
                    let tg = target.map(|b| b.as_usize() as i64).unwrap_or(-1);
                    format!("{{\"t\":\"call\",\"f\":{},\"a\":{},\"d\":{},\"b\":{},\"u\":{},\"sp\":{}}}", f, arr(a), self.place(&body, destination), tg, self.unwind(unwind), sp)
                }
                TerminatorKind::Assert { cond, expected, target, unwind, .. } => format!("{{\"t\":\"assert\",\"o\":{},\"e\":{},\"b\":{},\"u\":{},\"sp\":{}}}", self.operand(&body, cond), expected, target.as_usize(), self.unwind(unwind), sp),
                TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"t\":\"goto\",\"b\":{}}}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"t\":\"goto\",\"b\":{}}}", real_target.as_usize()),
                _ => "{\"t\":\"other\"}".into(),
            };
            bbs.push(format!("{{\"s\":{},\"t\":{},\"sp\":{}}}", arr(st), tj, sp));
        }
        let spread = body.spread_arg.map(|l| l.as_usize() as i64).unwrap_or(-1);
        format!("{{\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{},\"bbs\":{}}}", body.arg_count, spread, arr(locals), arr(names), arr(bbs))
    }
    fn process(&mut self, inst: Instance<'tcx>, id: usize) {
        let tcx = self.tcx;
        let did = inst.def_id();
        let krate = tcx.crate_name(did.krate).to_string();
        self.cur_depth = if self.local.contains(&krate) { 0 } else { *self.depth.get(&id).unwrap_or(&0) };
        let path = self.path(did);
        let full = ty::print::with_no_trimmed_paths!(format!("{}", inst));
        let kind = match inst.def {
            InstanceKind::Item(_) => "item".to_string(),
            InstanceKind::Intrinsic(_) => "intrinsic".to_string(),
            InstanceKind::Virtual(..) => "virtual".to_string(),
            InstanceKind::Shim(s) => format!("shim:{}", format!("{:?}", s).split('(').next().unwrap().split(' ').next().unwrap()),
            _ => "other".to_string(),
        };
        let args: Vec<String> = inst.args.types().map(|t| self.ty(t).to_string()).collect();
        let trait_path = tcx.trait_of_assoc(did).or_else(|| {
            let p = tcx.opt_parent(did)?;
            if matches!(tcx.def_kind(p), DefKind::Impl { of_trait: true }) {
                Some(tcx.impl_trait_ref(p).skip_binder().def_id)
            } else {
                None
            }
        });
        let tp = trait_path.map(|t| self.path(t)).unwrap_or_default();
        let sp = self.span(tcx.def_span(did));
        let name = tcx.opt_item_name(did).map(|n| n.to_string()).unwrap_or_default();
        let is_probe_user = did.krate == LOCAL_CRATE && !self.path(did).starts_with("root_") && !self.path(did).starts_with("redirect_") && !matches!(tcx.def_kind(did), DefKind::Closure) && !full.contains("root_");
        let has_body = match inst.def {
            InstanceKind::Item(d) => !is_probe_user && (tcx.is_mir_available(d)) && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure),
            InstanceKind::Shim(_) => true,
            _ => false,
        };
        let sig_out = {
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn if matches!(inst.def, InstanceKind::Item(_) | InstanceKind::Intrinsic(_)) => {
                    let sig = tcx.fn_sig(did).instantiate(tcx, inst.args);
                    let sig = tcx.normalize_erasing_regions(self.env, sig);
                    let sig = tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(tcx.instantiate_bound_regions_with_erased(sig)));
                    self.ty(sig.output()) as i64
                }
                _ => -1,
            }
        };
        let depth = *self.depth.get(&id).unwrap_or(&0);
        let max_depth = 14;
        let b = if has_body && depth <= max_depth && !stop(&path) { self.body(inst, depth) } else { "null".into() };
        self.inst_json[id] = format!(
            "{{\"id\":{},\"path\":{},\"full\":{},\"name\":{},\"kind\":{},\"crate\":{},\"trait\":{},\"args\":{},\"out\":{},\"sp\":{},\"body\":{}}}",
            id, esc(&path), esc(&full), esc(&name), esc(&kind), esc(&krate), esc(&tp), arr(args), sig_out, sp, b
        );
    }
}

// std functions the analyser models itself: their bodies are not needed
fn stop(p: &str) -> bool {
    const STOP: &[&str] = &[
        "core::panicking::", "std::rt::", "alloc::alloc::", "std::alloc::", "core::fmt::", "alloc::raw_vec::", "std::panicking::", "core::str::", "alloc::fmt::",
        "core::slice::sort", "core::num::<impl", "alloc::vec::Vec::<T, A>::push", "std::process::",
        "core::slice::<impl [T]>::binary_search", "std::io::", "core::unicode",
    ];
    STOP.iter().any(|s| p.starts_with(s))
}

/// Public-signature facts of the crate itself: every exported safe function (and associated type of
/// an exported impl) whose type hands out `&mut` to something that exposes a stored key.
fn api<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let ev = tcx.effective_visibilities(());
    let mut rows: Vec<String> = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        let vis = ev.is_exported(ld) || {
            // methods of trait impls are visible when the trait and the type are
            match tcx.opt_parent(did) {
                Some(p) => matches!(tcx.def_kind(p), DefKind::Impl { of_trait: true }),
                None => false,
            }
        };
        if !vis { continue; }
        let path = ty::print::with_no_trimmed_paths!(tcx.def_path_str(did));
        match kind {
            DefKind::Fn | DefKind::AssocFn => {
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                let sig = tcx.instantiate_bound_regions_with_erased(sig);
                let is_unsafe = sig.safety().is_unsafe();
                let mut bad = vec![];
                mut_targets(tcx, did, sig.output(), 0, &mut bad);
                for (c, _) in tcx.clauses_of(did).instantiate_identity(tcx).into_iter() {
                    let c = c.skip_norm_wip();
                    if let Some(t) = c.as_trait_clause() {
                        for a in t.skip_binder().trait_ref.args.types() { mut_targets(tcx, did, a, 0, &mut bad); }
                    }
                }
                let outs = ty::print::with_no_trimmed_paths!(format!("{}", sig.output()));
                rows.push(format!("{{\"path\":{},\"unsafe\":{},\"out\":{},\"bad\":{}}}", esc(&path), is_unsafe, esc(&outs), arr(bad.iter().map(|b| esc(b)).collect())));
            }
            DefKind::AssocTy => {
                if let Some(p) = tcx.opt_parent(did) {
                    if matches!(tcx.def_kind(p), DefKind::Impl { of_trait: true }) {
                        let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                        let mut bad = vec![];
                        mut_targets(tcx, did, t, 0, &mut bad);
                        let outs = ty::print::with_no_trimmed_paths!(format!("{}", t));
                        rows.push(format!("{{\"path\":{},\"unsafe\":false,\"out\":{},\"bad\":{}}}", esc(&path), esc(&outs), arr(bad.iter().map(|b| esc(b)).collect())));
                    }
                }
            }
            _ => {}
        }
    }
    std::fs::write(out, format!("{{\"api\":{}}}", arr(rows))).unwrap();
}
/// collects the `&mut X` parts of `t` where X exposes a key to its holder
fn mut_targets<'tcx>(tcx: TyCtxt<'tcx>, ctx: DefId, t: Ty<'tcx>, depth: usize, bad: &mut Vec<String>) {
    if depth > 8 { return; }
    match *t.kind() {
        ty::Ref(_, e, m) => {
            if m.is_mut() && exposes_key(tcx, ctx, e, 0) { bad.push(ty::print::with_no_trimmed_paths!(format!("{}", t))); }
            mut_targets(tcx, ctx, e, depth + 1, bad);
        }
        ty::Tuple(ts) => for x in ts { mut_targets(tcx, ctx, x, depth + 1, bad); },
        ty::Array(e, _) | ty::Slice(e) => mut_targets(tcx, ctx, e, depth + 1, bad),
        ty::Adt(_, args) => for x in args.types() { mut_targets(tcx, ctx, x, depth + 1, bad); },
        ty::FnPtr(sig, _) => for x in sig.skip_binder().inputs_and_output { mut_targets(tcx, ctx, x, depth + 1, bad); },
        _ => {}
    }
}
fn exposes_key<'tcx>(tcx: TyCtxt<'tcx>, ctx: DefId, t: Ty<'tcx>, depth: usize) -> bool {
    if depth > 8 { return false; }
    match *t.kind() {
        ty::Param(p) => {
            if p.name.as_str() == "K" { return true; }
            tcx.clauses_of(ctx).instantiate_identity(tcx).into_iter().any(|(c, _)| {
                let c = c.skip_norm_wip();
                c.as_trait_clause().map_or(false, |x| x.skip_binder().trait_ref.self_ty() == t && tcx.item_name(x.skip_binder().trait_ref.def_id).as_str() == "Key")
            })
        }
        ty::Alias(..) => format!("{}", t).ends_with("::K"),
        ty::Tuple(ts) => ts.iter().any(|x| exposes_key(tcx, ctx, x, depth + 1)),
        ty::Array(e, _) | ty::Slice(e) => exposes_key(tcx, ctx, e, depth + 1),
        ty::Adt(def, args) => {
            if def.did().krate != LOCAL_CRATE {
                return args.types().any(|x| exposes_key(tcx, ctx, x, depth + 1));
            }
            // a crate type exposes what its public fields expose
            def.all_fields().any(|f| {
                (def.is_enum() || f.vis.is_public()) && exposes_key(tcx, ctx, f.ty(tcx, args).skip_norm_wip(), depth + 1)
            })
        }
        _ => false,
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let out = std::env::var("VERIF_OUT").expect("VERIF_OUT");
        if std::env::var("VERIF_MODE").as_deref() == Ok("api") {
            api(tcx, &out);
            return rustc_driver::Compilation::Stop;
        }
        let mut d = D { tcx, env: TypingEnv::fully_monomorphized(), types: HashMap::new(), type_json: vec![], insts: HashMap::new(), inst_json: vec![], queue: VecDeque::new(), local: vec!["sweep_bptree".into(), tcx.crate_name(LOCAL_CRATE).to_string()], depth: HashMap::new(), cur_depth: 0 };
        let mut roots = vec![];
        for id in tcx.hir_crate_items(()).free_items() {
            let did = id.owner_id.to_def_id();
            if tcx.def_kind(did) == DefKind::Fn {
                let name = tcx.item_name(did).to_string();
                if name.starts_with("root_") {
                    let i = d.inst(Instance::mono(tcx, did));
                    roots.push(format!("[{},{}]", esc(&name), i));
                }
            }
        }
        while let Some((inst, id)) = d.queue.pop_front() {
            d.process(inst, id);
        }
        let mut s = String::new();
        let _ = write!(s, "{{\"roots\":{},\"types\":{},\"insts\":{}}}", arr(roots), arr(d.type_json), arr(d.inst_json));
        std::fs::write(out, s).unwrap();
        rustc_driver::Compilation::Stop
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    rustc_driver::install_ice_hook("", |_| ());
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
