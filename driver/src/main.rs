//! Dumps the freshly built MIR (before promotion and before the coroutine transform) of every body
//! of the local crate as JSON: control flow, places, resolved callees, types, constants, spans.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_mir_transform;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_interface::interface::{Compiler, Config};
use rustc_data_structures::steal::Steal;
use rustc_middle::util::Providers;
use std::sync::Mutex;
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::def_id::{DefId, LocalDefId};
use rustc_span::Span;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, String>,
    pending: Vec<DefId>,
    seen: HashSet<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d)))
    }

    /// A stable path: no impl line numbers, crate prefix for foreign items.
    fn ident(&self, d: DefId) -> String {
        self.path(d)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> String {
        self.note_ty(t);
        let s = with_no_visible_paths!(with_no_trimmed_paths!(t.to_string()));
        s
    }

    fn note_ty(&mut self, t: Ty<'tcx>) {
        for arg in t.walk() {
            if let Some(t) = arg.as_type() {
                if let ty::Adt(def, _) = t.kind() {
                    if self.seen.insert(def.did()) {
                        self.pending.push(def.did());
                    }
                }
            }
        }
    }

    fn flush_adts(&mut self) {
        while let Some(d) = self.pending.pop() {
            let def = self.tcx.adt_def(d);
            let mut vs = Vec::new();
            let discrs: BTreeMap<usize, u128> = if def.is_enum() {
                def.discriminants(self.tcx).map(|(i, d)| (i.as_usize(), d.val)).collect()
            } else {
                BTreeMap::new()
            };
            for (i, v) in def.variants().iter_enumerated() {
                let fields = list(v.fields.iter().map(|f| js(f.name.as_str())));
                let tys = if d.is_local() {
                    let ts: Vec<Ty<'tcx>> = v
                        .fields
                        .iter()
                        .map(|f| self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip())
                        .collect();
                    list(ts.into_iter().map(|t| {
                        let s = self.ty(t);
                        js(&s)
                    }))
                } else {
                    "[]".into()
                };
                vs.push(format!(
                    "{{\"name\":{},\"discr\":\"{}\",\"fields\":{},\"tys\":{}}}",
                    js(v.name.as_str()),
                    discrs.get(&i.as_usize()).copied().unwrap_or(0),
                    fields,
                    tys
                ));
            }
            let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
            let p = self.path(d);
            let body = format!("{{\"kind\":{},\"variants\":{}}}", js(kind), list(vs));
            self.adts.insert(p, body);
        }
    }

    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let loc = sm.lookup_char_pos(sp.lo());
        format!("{}:{}", loc.file.name.prefer_local_unconditionally(), loc.line)
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let mut projs = Vec::new();
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for elem in p.projection {
            let s = match elem {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(f, fty) => {
                    let name = self.field_name(pty, f.as_usize());
                    let _ = fty;
                    format!("[\"field\",{},{}]", f.as_usize(), js(&name))
                }
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"cindex\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"subslice\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(name, v) => format!(
                    "[\"down\",{},{}]",
                    v.as_usize(),
                    js(&name.map(|n| n.to_string()).unwrap_or_default())
                ),
                _ => "[\"other\"]".to_string(),
            };
            projs.push(s);
            pty = pty.projection_ty(self.tcx, elem);
        }
        format!("[{},{}]", p.local.as_usize(), list(projs))
    }

    fn field_name(&self, pty: PlaceTy<'tcx>, i: usize) -> String {
        match pty.ty.kind() {
            ty::Adt(def, _) => {
                let v = match pty.variant_index {
                    Some(v) => def.variant(v),
                    None if def.is_enum() => return i.to_string(),
                    None => def.non_enum_variant(),
                };
                v.fields.iter().nth(i).map(|f| f.name.to_string()).unwrap_or_else(|| i.to_string())
            }
            ty::Closure(d, _) | ty::Coroutine(d, _) => self.upvar_name(*d, i),
            _ => i.to_string(),
        }
    }

    fn upvar_name(&self, d: DefId, i: usize) -> String {
        if let Some(l) = d.as_local() {
            let caps = self.tcx.closure_captures(l);
            if let Some(c) = caps.get(i) {
                return c.to_symbol().to_string();
            }
        }
        i.to_string()
    }

    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, did: LocalDefId) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p, body)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p, body)),
            Operand::Constant(c) => self.constant(c, did),
            #[allow(unreachable_patterns)]
            _ => "[\"other\"]".into(),
        }
    }

    fn resolve(&self, d: DefId, args: GenericArgsRef<'tcx>, did: LocalDefId) -> Option<DefId> {
        let env = ty::TypingEnv::non_body_analysis(self.tcx, did.to_def_id());
        if args.has_infer() {
            return None;
        }
        let args = self.tcx.erase_and_anonymize_regions(args);
        match ty::Instance::try_resolve(self.tcx, env, d, args) {
            Ok(Some(i)) => Some(i.def_id()),
            _ => None,
        }
    }

    fn fndef(&mut self, d: DefId, args: GenericArgsRef<'tcx>, did: LocalDefId) -> String {
        let p = self.ident(d);
        let r = self.resolve(d, args, did).filter(|r| *r != d).map(|r| self.ident(r));
        let tys: Vec<Ty<'tcx>> = args.types().collect();
        let tys = list(tys.into_iter().map(|t| {
            let s = self.ty(t);
            js(&s)
        }));
        format!(
            "[\"fn\",{},{},{},{}]",
            js(&p),
            r.map(|r| js(&r)).unwrap_or("null".into()),
            tys,
            d.is_local() || self.resolve(d, args, did).map(|r| r.is_local()).unwrap_or(false)
        )
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, did: LocalDefId) -> String {
        let t = c.const_.ty();
        match t.kind() {
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                return self.fndef(*d, args, did);
            }
            ty::Closure(d, _) => return format!("[\"closure\",{}]", js(&self.ident(*d))),
            _ => {}
        }
        let ts = self.ty(t);
        if let Const::Unevaluated(u, _) = c.const_ {
            if self.tcx.is_static(u.def) {
                return format!("[\"static\",{},{}]", js(&self.ident(u.def)), js(&ts));
            }
        }
        let env = ty::TypingEnv::non_body_analysis(self.tcx, did.to_def_id());
        let mut name = "null".to_string();
        if let Const::Unevaluated(u, _) = c.const_ {
            name = js(&self.ident(u.def));
        }
        let generic = c.const_.has_param();
        if !generic {
            if let Ok(val) = c.const_.eval(self.tcx, env, c.span) {
                return format!("[\"const\",{},{},{}]", js(&ts), self.constval(val, t), name);
            }
        }
        let s = with_no_trimmed_paths!(format!("{}", c.const_));
        format!("[\"const\",{},[\"opaque\",{}],{}]", js(&ts), js(&s), name)
    }

    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>) -> String {
        match v {
            ConstValue::Scalar(s) => {
                if let rustc_middle::mir::interpret::Scalar::Int(i) = s {
                    let size = i.size();
                    return match t.kind() {
                        ty::Int(_) => format!("[\"int\",\"{}\"]", i.to_int(size)),
                        ty::Char => format!("[\"char\",\"{}\"]", i.to_bits(size)),
                        ty::Bool => format!("[\"bool\",\"{}\"]", i.to_bits(size)),
                        ty::Uint(_) => format!("[\"int\",\"{}\"]", i.to_bits(size)),
                        _ => format!("[\"bits\",\"{}\"]", i.to_bits(size)),
                    };
                }
                // a reference to a static or to an array of bytes
                if let rustc_middle::mir::interpret::Scalar::Ptr(p, _) = s {
                    let (prov, off) = p.into_raw_parts();
                    if let Some(ga) = self.tcx.try_get_global_alloc(prov.alloc_id()) {
                        match ga {
                            rustc_middle::mir::interpret::GlobalAlloc::Static(d) => {
                                return format!("[\"static\",{}]", js(&self.ident(d)));
                            }
                            rustc_middle::mir::interpret::GlobalAlloc::Memory(a) => {
                                let a = a.inner();
                                if a.provenance().ptrs().is_empty() {
                                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(
                                        off.bytes_usize()..a.len(),
                                    );
                                    return format!(
                                        "[\"bytes\",{}]",
                                        list(b.iter().map(|x| x.to_string()))
                                    );
                                }
                            }
                            _ => {}
                        }
                    }
                }
                "[\"ptr\"]".into()
            }
            ConstValue::ZeroSized => "[\"zst\"]".into(),
            ConstValue::Slice { .. } => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                    if t.to_string().contains("str") {
                        format!("[\"str\",{}]", js(&String::from_utf8_lossy(b)))
                    } else {
                        format!("[\"bytes\",{}]", list(b.iter().map(|x| x.to_string())))
                    }
                } else {
                    "[\"slice\"]".into()
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let a = self.tcx.global_alloc(alloc_id);
                if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) = a {
                    let a = a.inner();
                    // follow `&&[u8]`, `&str` constants one level
                    if a.provenance().ptrs().is_empty() {
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(
                            offset.bytes_usize()..a.len(),
                        );
                        return format!("[\"mem\",{}]", list(b.iter().map(|x| x.to_string())));
                    } else if let Some(b) = v.try_get_slice_bytes_for_diagnostics_safe(self.tcx, t) {
                        return b;
                    }
                }
                "[\"indirect\"]".into()
            }
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, did: LocalDefId) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, body, did)),
            Rvalue::Repeat(o, n) => {
                let n = with_no_trimmed_paths!(n.to_string());
                format!("[\"repeat\",{},{}]", self.operand(o, body, did), js(&n))
            }
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    #[allow(unreachable_patterns)]
                    _ => "shared",
                };
                format!("[\"ref\",\"{}\",{}]", m, self.place(p, body))
            }
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(p, body)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                let os = self.operand(o, body, did);
                let from = {
                    let t = o.ty(body, self.tcx);
                    self.ty(t)
                };
                let ts = self.ty(*t);
                format!("[\"cast\",{},{},{},{}]", js(&ks), os, js(&ts), js(&from))
            }
            Rvalue::BinaryOp(op, b) => {
                let (l, rr) = &**b;
                let lt = {
                    let t = l.ty(body, self.tcx);
                    self.ty(t)
                };
                format!(
                    "[\"bin\",{},{},{},{}]",
                    js(&format!("{:?}", op)),
                    self.operand(l, body, did),
                    self.operand(rr, body, did),
                    js(&lt)
                )
            }
            Rvalue::UnaryOp(op, o) => {
                format!("[\"un\",{},{}]", js(&format!("{:?}", op)), self.operand(o, body, did))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let ts = self.ty(t);
                let adt = match t.kind() {
                    ty::Adt(d, _) => self.path(d.did()),
                    _ => String::new(),
                };
                format!("[\"discr\",{},{},{}]", self.place(p, body), js(&adt), js(&ts))
            }
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.operand(o, body, did)).collect();
                let ks = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        if self.seen.insert(*d) {
                            self.pending.push(*d);
                        }
                        let var = def.variant(*v);
                        let names = match active {
                            Some(f) => list([js(var.fields[*f].name.as_str())]),
                            None => list(var.fields.iter().map(|f| js(f.name.as_str()))),
                        };
                        format!(
                            "[\"adt\",{},{},{},{}]",
                            js(&self.path(*d)),
                            v.as_usize(),
                            js(var.name.as_str()),
                            names
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        let n = ops.len();
                        format!(
                            "[\"closure\",{},{}]",
                            js(&self.ident(*d)),
                            list((0..n).map(|i| js(&self.upvar_name(*d, i))))
                        )
                    }
                    AggregateKind::Coroutine(d, _) => {
                        let n = ops.len();
                        format!(
                            "[\"coroutine\",{},{}]",
                            js(&self.ident(*d)),
                            list((0..n).map(|i| js(&self.upvar_name(*d, i))))
                        )
                    }
                    _ => "[\"otheragg\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", ks, list(ops))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p, body)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&self.ident(*d))),
            #[allow(unreachable_patterns)]
            r => format!("[\"other\",{}]", js(&format!("{:?}", r))),
        }
    }

    fn body(&mut self, did: LocalDefId, body: &Body<'tcx>) -> String {
        let d = did.to_def_id();
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        let mut upnames: Vec<String> = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                } else {
                    let pl = self.place(&p, body);
                    upnames.push(format!("[{},{}]", js(v.name.as_str()), pl));
                }
            }
        }
        let mut locals = Vec::new();
        for (l, decl) in body.local_decls.iter_enumerated() {
            let t = self.ty(decl.ty);
            let n = names.get(&l.as_usize()).map(|n| js(n)).unwrap_or("null".into());
            locals.push(format!("[{},{}]", js(&t), n));
        }
        let mut blocks = Vec::new();
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut st = Vec::new();
            for s in &data.statements {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pt = {
                            let t = p.ty(body, self.tcx).ty;
                            self.ty(t)
                        };
                        st.push(format!(
                            "[\"=\",{},{},{},{}]",
                            self.place(p, body),
                            self.rvalue(r, body, did),
                            js(&sp),
                            js(&pt)
                        ));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(format!("[\"dead\",{}]", l.as_usize()));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!(
                            "[\"setdiscr\",{},{}]",
                            self.place(place, body),
                            variant_index.as_usize()
                        ));
                    }
                    _ => {}
                }
            }
            let term = data.terminator();
            let sp = self.span(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut v = Vec::new();
                    for (val, t) in targets.iter() {
                        v.push(format!("[\"{}\",{}]", val, t.as_usize()));
                    }
                    let dt = {
                        let t = discr.ty(body, self.tcx);
                        self.ty(t)
                    };
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        self.operand(discr, body, did),
                        list(v),
                        targets.otherwise().as_usize(),
                        js(&dt)
                    )
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    "[\"resume\"]".into()
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = {
                        let t = place.ty(body, self.tcx).ty;
                        self.ty(t)
                    };
                    format!("[\"drop\",{},{},{}]", self.place(place, body), target.as_usize(), js(&pt))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, body, did);
                    let a = list(args.iter().map(|a| self.operand(&a.node, body, did)));
                    let at: Vec<Ty<'tcx>> = args.iter().map(|a| a.node.ty(body, self.tcx)).collect();
                    let at = list(at.into_iter().map(|t| {
                        let s = self.ty(t);
                        js(&s)
                    }));
                    let rt = {
                        let t = destination.ty(body, self.tcx).ty;
                        self.ty(t)
                    };
                    format!(
                        "[\"call\",{},{},{},{},{},{}]",
                        f,
                        a,
                        self.place(destination, body),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        at,
                        js(&rt)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(
                            "[\"bounds\",{},{}]",
                            self.operand(len, body, did),
                            self.operand(index, body, did)
                        ),
                        AssertKind::Overflow(op, ..) => {
                            format!("[\"overflow\",{}]", js(&format!("{:?}", op)))
                        }
                        AssertKind::DivisionByZero(_) => "[\"divzero\"]".into(),
                        AssertKind::RemainderByZero(_) => "[\"remzero\"]".into(),
                        _ => "[\"otherassert\"]".into(),
                    };
                    format!(
                        "[\"assert\",{},{},{},{}]",
                        self.operand(cond, body, did),
                        expected,
                        m,
                        target.as_usize()
                    )
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => format!(
                    "[\"yield\",{},{},{}]",
                    self.operand(value, body, did),
                    resume.as_usize(),
                    self.place(resume_arg, body)
                ),
                TerminatorKind::CoroutineDrop => "[\"resume\"]".into(),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                #[allow(unreachable_patterns)]
                _ => "[\"otherterm\"]".into(),
            };
            blocks.push(format!(
                "{{\"s\":{},\"t\":{},\"sp\":{},\"cleanup\":{}}}",
                list(st),
                t,
                js(&sp),
                data.is_cleanup
            ));
        }
        let kind = match self.tcx.def_kind(d) {
            DefKind::Closure if self.tcx.is_coroutine(d) => "coroutine",
            DefKind::Closure => "closure",
            DefKind::Fn => "fn",
            DefKind::AssocFn => "method",
            _ => "other",
        };
        let parent = self.tcx.opt_parent(d).map(|p| self.ident(p)).unwrap_or_default();
        let mut implof = String::new();
        let mut selfty = String::new();
        if let Some(imp) = self.tcx.impl_of_assoc(d) {
            let t = self.tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            selfty = self.ty(t);
            if let Some(tr) = self.tcx.impl_opt_trait_ref(imp) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                implof = self.path(tr.def_id);
            }
        }
        let vis = if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            format!("{:?}", self.tcx.visibility(d))
        } else {
            String::new()
        };
        format!(
            "{{\"path\":{},\"kind\":\"{}\",\"parent\":{},\"trait\":{},\"self\":{},\"vis\":{},\"span\":{},\"argc\":{},\"tainted\":{},\"locals\":{},\"upvars\":{},\"blocks\":{}}}",
            js(&self.ident(d)),
            kind,
            js(&parent),
            js(&implof),
            js(&selfty),
            js(&vis),
            js(&self.span(self.tcx.def_span(d))),
            body.arg_count,
            body.tainted_by_errors.is_some(),
            list(locals),
            list(upnames),
            list(blocks)
        )
    }
}

trait CvExt<'tcx> {
    fn try_get_slice_bytes_for_diagnostics_safe(&self, tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Option<String>;
}
impl<'tcx> CvExt<'tcx> for ConstValue {
    fn try_get_slice_bytes_for_diagnostics_safe(&self, tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Option<String> {
        let is_slice = match t.kind() {
            ty::Ref(_, inner, _) => matches!(inner.kind(), ty::Str | ty::Slice(_)),
            _ => false,
        };
        if !is_slice {
            return None;
        }
        let b = self.try_get_slice_bytes_for_diagnostics(tcx)?;
        Some(if t.to_string().contains("str") {
            format!("[\"str\",{}]", js(&String::from_utf8_lossy(b)))
        } else {
            format!("[\"bytes\",{}]", list(b.iter().map(|x| x.to_string())))
        })
    }
}

/// Bodies as the `mir_built` query produced them, kept before borrow checking steals them.
struct Store(Vec<(LocalDefId, Body<'static>)>);
unsafe impl Send for Store {}
static STORE: Mutex<Store> = Mutex::new(Store(Vec::new()));

fn keep_mir_built<'tcx>(tcx: TyCtxt<'tcx>, did: LocalDefId) -> &'tcx Steal<Body<'tcx>> {
    let mut providers = Providers::default();
    rustc_mir_transform::provide(&mut providers);
    let r = (providers.queries.mir_built)(tcx, did);
    let b: Body<'tcx> = r.borrow().clone();
    let b: Body<'static> = unsafe { std::mem::transmute(b) };
    STORE.lock().unwrap().0.push((did, b));
    r
}

struct Dump;

impl Callbacks for Dump {
    fn config(&mut self, config: &mut Config) {
        if std::env::var("MIRDUMP_OUT").is_ok() {
            config.override_queries = Some(|_, providers| {
                providers.queries.mir_built = keep_mir_built;
            });
        }
    }

    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("MIRDUMP_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let mut want: Vec<(LocalDefId, Body<'tcx>)> = Vec::new();
        for did in tcx.hir_body_owners() {
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                _ => continue,
            }
            let _ = tcx.mir_built(did);
            let body = {
                let st = STORE.lock().unwrap();
                st.0.iter().find(|(d, _)| *d == did).map(|(_, b)| b.clone())
            };
            if let Some(b) = body {
                let b: Body<'tcx> = unsafe { std::mem::transmute(b) };
                want.push((did, b));
            }
        }
        let mut cx = Cx { tcx, adts: BTreeMap::new(), pending: vec![], seen: HashSet::new() };
        let mut bodies = Vec::new();
        for (did, body) in &want {
            bodies.push(cx.body(*did, body));
        }
        cx.flush_adts();
        // impls of local traits, for dispatch on generic receivers
        let mut impls = Vec::new();
        for (tr, list_) in tcx.all_local_trait_impls(()) {
            for i in list_ {
                let t = tcx.type_of(i.to_def_id()).instantiate_identity().skip_norm_wip();
                let ts = cx.ty(t);
                let mut ms = Vec::new();
                for it in tcx.associated_items(i.to_def_id()).in_definition_order() {
                    ms.push(js(&cx.ident(it.def_id)));
                }
                impls.push(format!("[{},{},{}]", js(&cx.path(*tr)), js(&ts), list(ms)));
            }
        }
        cx.flush_adts();
        let adts: Vec<String> = cx.adts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let text = format!(
            "{{\"crate\":{},\"bodies\":{},\"adts\":{{{}}},\"impls\":{}}}\n",
            js(&krate),
            list(bodies),
            adts.join(","),
            list(impls)
        );
        std::fs::write(format!("{}/{}.json", out, krate), text).expect("write dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Dump);
}
