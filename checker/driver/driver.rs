// Fact extractor: a rustc driver that dumps the type-checked program (MIR with
// resolved callees, types, impls, unsafe constructs) of a workspace crate as JSON.
// It decides nothing; the rules in ../rules read what it dumps.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_structures;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let s = with_no_trimmed_paths!(tcx.def_path_str(d));
    if d.is_local() { format!("crate::{s}") } else { s }
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(String::new());
        self.tymap.insert(t, id);
        let s = with_no_trimmed_paths!(format!("{t}"));
        let mut j = format!("{{\"s\":{}", esc(&s));
        match *t.kind() {
            ty::Adt(def, args) => {
                let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(j, ",\"k\":\"adt\",\"adt\":{},\"local\":{},\"args\":[{}]", esc(&path(self.tcx, def.did())), def.did().is_local(), a.join(","));
            }
            ty::Ref(_, x, m) => {
                let i = self.ty(x);
                let _ = write!(j, ",\"k\":\"ref\",\"mut\":{},\"args\":[{}]", m.is_mut(), i);
            }
            ty::RawPtr(x, _) => {
                let i = self.ty(x);
                let _ = write!(j, ",\"k\":\"ptr\",\"args\":[{}]", i);
            }
            ty::Slice(x) | ty::Array(x, _) => {
                let i = self.ty(x);
                let k = if matches!(t.kind(), ty::Slice(_)) { "slice" } else { "array" };
                let _ = write!(j, ",\"k\":\"{k}\",\"args\":[{}]", i);
            }
            ty::Tuple(xs) => {
                let a: Vec<String> = xs.iter().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(j, ",\"k\":\"tuple\",\"args\":[{}]", a.join(","));
            }
            ty::FnDef(d, args) => {
                let a: Vec<String> = args.skip_binder().types().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(j, ",\"k\":\"fndef\",\"fn\":{},\"local\":{},\"args\":[{}]", esc(&path(self.tcx, d)), d.is_local(), a.join(","));
            }
            ty::Closure(d, args) => {
                let a: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(j, ",\"k\":\"closure\",\"fn\":{},\"local\":{},\"args\":[{}]", esc(&path(self.tcx, d)), d.is_local(), a.join(","));
            }
            ty::FnPtr(..) => j.push_str(",\"k\":\"fnptr\""),
            ty::Dynamic(preds, _) => {
                let p = preds.principal_def_id().map(|d| path(self.tcx, d)).unwrap_or_default();
                let _ = write!(j, ",\"k\":\"dyn\",\"trait\":{}", esc(&p));
            }
            ty::Param(_) => j.push_str(",\"k\":\"param\""),
            ty::Int(_) | ty::Uint(_) => j.push_str(",\"k\":\"int\""),
            ty::Bool => j.push_str(",\"k\":\"bool\""),
            ty::Char => j.push_str(",\"k\":\"char\""),
            ty::Str => j.push_str(",\"k\":\"str\""),
            ty::Never => j.push_str(",\"k\":\"never\""),
            _ => j.push_str(",\"k\":\"other\""),
        }
        j.push('}');
        self.types[id] = j;
        id
    }

    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let mut macros: Vec<String> = vec![];
        for e in sp.macro_backtrace() {
            macros.push(esc(&e.kind.descr().to_string()));
        }
        let root = sp.source_callsite();
        let lo = sm.lookup_char_pos(root.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        if macros.is_empty() {
            format!("[{},{}]", esc(&f), lo.line)
        } else {
            format!("[{},{},[{}]]", esc(&f), lo.line, macros.join(","))
        }
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>, upvars: &[String]) -> String {
        let mut out = format!("[{},[", p.local.as_u32());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for (i, e) in p.projection.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            match e {
                ProjectionElem::Deref => out.push_str("[\"*\"]"),
                ProjectionElem::Field(f, fty) => {
                    let mut name = f.as_u32().to_string();
                    let mut owner = String::new();
                    match *pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if v.as_usize() < def.variants().len() {
                                let var = &def.variants()[v];
                                if f.as_usize() < var.fields.len() {
                                    name = var.fields[f].name.to_string();
                                }
                                owner = path(self.tcx, def.did());
                                if def.is_enum() {
                                    owner = format!("{owner}::{}", var.name);
                                }
                            }
                        }
                        ty::Closure(..) => {
                            if let Some(n) = upvars.get(f.as_usize()) {
                                name = n.clone();
                            }
                            owner = "{closure}".into();
                        }
                        _ => {}
                    }
                    let t = self.ty(fty);
                    let _ = write!(out, "[\"f\",{},{},{},{}]", f.as_u32(), esc(&name), esc(&owner), t);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(out, "[\"i\",{}]", l.as_u32());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(out, "[\"ci\",{offset},{min_length},{from_end}]");
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(out, "[\"ss\",{from},{to},{from_end}]");
                }
                ProjectionElem::Downcast(n, v) => {
                    let mut nm = n.map(|s| s.to_string()).unwrap_or_default();
                    if let ty::Adt(def, _) = *pt.ty.kind() {
                        if v.as_usize() < def.variants().len() {
                            nm = def.variants()[v].name.to_string();
                        }
                    }
                    let _ = write!(out, "[\"d\",{},{}]", v.as_u32(), esc(&nm));
                }
                _ => out.push_str("[\"?\"]"),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        out.push_str("]]");
        out
    }

    fn constant(&mut self, owner: DefId, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tid = self.ty(t);
        let mut extra = String::new();
        let env = ty::TypingEnv::post_analysis(tcx, owner);
        match *t.kind() {
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let _ = write!(extra, ",\"fn\":{}", esc(&path(tcx, d)));
                let _ = write!(extra, ",\"fnlocal\":{}", d.is_local());
                if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                    if let Some(tr) = tcx.trait_of_assoc(d) {
                        let _ = write!(extra, ",\"trait\":{}", esc(&path(tcx, tr)));
                    }
                    let args = tcx.erase_and_anonymize_regions(args);
                    if !args.has_escaping_bound_vars() {
                        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
                            let rd = inst.def_id();
                            let kind = match inst.def {
                                ty::InstanceKind::Virtual(..) => "virtual",
                                ty::InstanceKind::Item(_) => "item",
                                _ => "shim",
                            };
                            let _ = write!(extra, ",\"res\":{},\"reslocal\":{},\"reskind\":\"{}\"", esc(&path(tcx, rd)), rd.is_local(), kind);
                        }
                    }
                    if let Some(s) = args.types().next() {
                        let _ = write!(extra, ",\"self\":{}", self.ty(s));
                    }
                }
                return format!("{{\"c\":{}{}}}", tid, extra);
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let _ = write!(extra, ",\"promoted\":{},\"pof\":{}", p.as_u32(), esc(&path(tcx, u.def)));
            } else {
                let _ = write!(extra, ",\"constdef\":{}", esc(&path(tcx, u.def)));
            }
        }
        if !c.const_.has_param() && !c.const_.has_escaping_bound_vars() {
            if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                match v {
                    ConstValue::Scalar(Scalar::Int(i)) => {
                        let bits = i.to_bits_unchecked();
                        let val: i128 = if t.is_signed() {
                            i.size().sign_extend(bits)
                        } else {
                            bits as i128
                        };
                        let _ = write!(extra, ",\"v\":{}", val);
                        if t.is_char() {
                            if let Some(ch) = char::from_u32(bits as u32) {
                                let _ = write!(extra, ",\"ch\":{}", esc(&ch.to_string()));
                            }
                        }
                    }
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                        let aid = p.provenance.alloc_id();
                        match tcx.global_alloc(aid) {
                            GlobalAlloc::Static(d) => {
                                let _ = write!(extra, ",\"static\":{}", esc(&path(tcx, d)));
                            }
                            GlobalAlloc::Memory(m) => {
                                let inner = m.inner();
                                if inner.provenance().ptrs().is_empty() && inner.len() <= 4096 {
                                    let b = inner.inspect_with_uninit_and_ptr_outside_interpreter(0..inner.len());
                                    let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                                    let _ = write!(extra, ",\"mem\":[{}]", v.join(","));
                                }
                            }
                            GlobalAlloc::Function { instance } => {
                                let _ = write!(extra, ",\"fn\":{}", esc(&path(tcx, instance.def_id())));
                            }
                            _ => {}
                        }
                    }
                    ConstValue::Slice { .. } => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            if let Ok(s) = std::str::from_utf8(b) {
                                let _ = write!(extra, ",\"str\":{}", esc(s));
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        format!("{{\"c\":{}{}}}", tid, extra)
    }

    fn operand(&mut self, owner: DefId, body: &Body<'tcx>, o: &Operand<'tcx>, up: &[String]) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"p\":{}}}", self.place(body, p, up)),
            Operand::Move(p) => format!("{{\"p\":{},\"m\":1}}", self.place(body, p, up)),
            Operand::Constant(c) => self.constant(owner, c),
            _ => "{\"rt\":1}".into(),
        }
    }

    fn rvalue(&mut self, owner: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>, up: &[String]) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(owner, body, o, up)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(owner, body, o, up), esc(&format!("{n}"))),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(body, p, up)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut(), self.place(body, p, up)),
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(body, p, up)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&path(tcx, *d))),
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&format!("{k:?}")), self.operand(owner, body, o, up), t)
            }
            Rvalue::BinaryOp(b, ops) => format!("[\"bin\",{},{},{}]", esc(&format!("{b:?}")), self.operand(owner, body, &ops.0, up), self.operand(owner, body, &ops.1, up)),
            Rvalue::UnaryOp(b, o) => format!("[\"un\",{},{}]", esc(&format!("{b:?}")), self.operand(owner, body, o, up)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(body, p, up)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"p\":{}}}]", self.place(body, p, up)),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|x| self.operand(owner, body, x, up)).collect();
                let kind = match **k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, ..) => {
                        let def = tcx.adt_def(d);
                        let var = def.variant(v);
                        let fs: Vec<String> = var.fields.iter().map(|f| esc(&f.name.to_string())).collect();
                        format!("[\"adt\",{},{},{},[{}]]", esc(&path(tcx, d)), v.as_u32(), esc(&var.name.to_string()), fs.join(","))
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&path(tcx, d))),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", kind, o.join(","))
            }
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(owner, body, o, up)),
        }
    }

    fn body(&mut self, owner: DefId, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut up: Vec<String> = vec![];
        if let Some(l) = owner.as_local() {
            if tcx.is_closure_like(owner) {
                for c in tcx.closure_captures(l) {
                    up.push(c.to_symbol().to_string());
                }
            }
        }
        let mut names: HashMap<u32, String> = HashMap::new();
        let mut out = String::from("{\"dbg\":[");
        let mut first = true;
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_u32(), v.name.to_string());
                }
                if !first {
                    out.push(',');
                }
                first = false;
                let pl = self.place(body, p, &up);
                let _ = write!(out, "[{},{}]", esc(&v.name.to_string()), pl);
            }
        }
        out.push_str("],\"locals\":[");
        for (i, l) in body.local_decls.iter_enumerated() {
            if i.as_u32() > 0 {
                out.push(',');
            }
            let t = self.ty(l.ty);
            match names.get(&i.as_u32()) {
                Some(n) => {
                    let _ = write!(out, "[{},{}]", t, esc(n));
                }
                None => {
                    let _ = write!(out, "[{}]", t);
                }
            }
        }
        let _ = write!(out, "],\"argc\":{},\"blocks\":[", body.arg_count);
        for (bi, b) in body.basic_blocks.iter_enumerated() {
            if bi.as_u32() > 0 {
                out.push(',');
            }
            let _ = write!(out, "{{\"cl\":{},\"s\":[", b.is_cleanup as u8);
            let mut f = true;
            for s in &b.statements {
                let e = match &s.kind {
                    StatementKind::Assign(x) => {
                        let pl = self.place(body, &x.0, &up);
                        let rv = self.rvalue(owner, body, &x.1, &up);
                        format!("[\"=\",{},{},{}]", pl, rv, self.span(s.source_info.span))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => format!("[\"setd\",{},{}]", self.place(body, place, &up), variant_index.as_u32()),
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_u32()),
                    _ => continue,
                };
                if !f {
                    out.push(',');
                }
                f = false;
                out.push_str(&e);
            }
            out.push_str("],\"t\":");
            let t = b.terminator();
            let sp = self.span(t.source_info.span);
            let e = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let a: Vec<String> = targets.iter().map(|(v, t)| format!("[{},{}]", v, t.as_u32())).collect();
                    format!("[\"switch\",{},[{}],{},{}]", self.operand(owner, body, discr, &up), a.join(","), targets.otherwise().as_u32(), sp)
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(body, tcx).ty;
                    let t = self.ty(pt);
                    format!("[\"drop\",{},{},{}]", self.place(body, place, &up), target.as_u32(), t)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(owner, body, &x.node, &up)).collect();
                    let fo = self.operand(owner, body, func, &up);
                    let d = self.place(body, destination, &up);
                    format!("[\"call\",{},[{}],{},{},{}]", fo, a.join(","), d, target.map(|t| t.as_u32() as i64).unwrap_or(-1), sp)
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(owner, body, &x.node, &up)).collect();
                    let fo = self.operand(owner, body, func, &up);
                    format!("[\"call\",{},[{}],[0,[]],-1,{}]", fo, a.join(","), sp)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(owner, body, cond, &up);
                    let (k, ops) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".to_string(), vec![self.operand(owner, body, len, &up), self.operand(owner, body, index, &up)]),
                        AssertKind::Overflow(op, a, b) => (format!("overflow:{op:?}"), vec![self.operand(owner, body, a, &up), self.operand(owner, body, b, &up)]),
                        AssertKind::OverflowNeg(a) => ("overflow:neg".to_string(), vec![self.operand(owner, body, a, &up)]),
                        AssertKind::DivisionByZero(a) => ("divzero".to_string(), vec![self.operand(owner, body, a, &up)]),
                        AssertKind::RemainderByZero(a) => ("remzero".to_string(), vec![self.operand(owner, body, a, &up)]),
                        _ => ("other".to_string(), vec![]),
                    };
                    format!("[\"assert\",{},{},{},[{}],{},{}]", c, expected, esc(&k), ops.join(","), target.as_u32(), sp)
                }
                TerminatorKind::InlineAsm { .. } => format!("[\"asm\",{}]", sp),
                _ => "[\"other\"]".into(),
            };
            out.push_str(&e);
            out.push('}');
        }
        out.push_str("]}");
        out
    }
}

struct UnsafeV<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<(String, Span)>,
}
impl<'tcx> Visitor<'tcx> for UnsafeV<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
            self.out.push(("unsafe block".into(), b.span));
        }
        intravisit::walk_block(self, b);
    }
    fn visit_expr(&mut self, e: &'tcx rustc_hir::Expr<'tcx>) {
        if let rustc_hir::ExprKind::InlineAsm(_) = e.kind {
            self.out.push(("inline asm".into(), e.span));
        }
        intravisit::walk_expr(self, e);
    }
}

struct Cb {
    out: Option<String>,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        if self.out.is_some() {
            config.opts.unstable_opts.mir_opt_level = Some(0);
            config.opts.cg.overflow_checks = Some(true);
        }
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Some(dir) = self.out.clone() else { return Compilation::Continue };
        let mut cx = Cx { tcx, types: vec![], tymap: HashMap::new() };
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let is_bin = tcx.crate_types().iter().any(|t| matches!(t, rustc_structures::CrateType::Executable));
        let mut fns: Vec<String> = vec![];
        let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|d| d.local_def_index);
        for l in keys {
            let d = l.to_def_id();
            let kind = tcx.def_kind(d);
            let (b, kstr): (&Body<'tcx>, &str) = match kind {
                DefKind::Fn => (tcx.optimized_mir(d), "fn"),
                DefKind::AssocFn => (tcx.optimized_mir(d), "method"),
                DefKind::Closure => (tcx.optimized_mir(d), "closure"),
                DefKind::Static { .. } => (tcx.mir_for_ctfe(d), "static"),
                DefKind::Const { .. } | DefKind::AssocConst { .. } => (tcx.mir_for_ctfe(d), "const"),
                DefKind::Ctor(..) => (tcx.optimized_mir(d), "ctor"),
                _ => continue,
            };
            let mut e = format!("{{\"path\":{},\"kind\":\"{}\",\"span\":{}", esc(&path(tcx, d)), kstr, cx.span(tcx.def_span(d)));
            let full = tcx.source_span(l);
            let sm = tcx.sess.source_map();
            let hi = sm.lookup_char_pos(full.source_callsite().hi());
            let _ = write!(e, ",\"hi\":{}", hi.line);
            let par = tcx.parent(d);
            let _ = write!(e, ",\"parent\":{}", esc(&path(tcx, par)));
            if let DefKind::AssocFn = kind {
                if matches!(tcx.def_kind(par), DefKind::Impl { .. }) {
                    let st = tcx.type_of(par).instantiate_identity().skip_norm_wip();
                    let t = cx.ty(st);
                    let _ = write!(e, ",\"self\":{}", t);
                    if let Some(tr) = tcx.impl_opt_trait_ref(par) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        let _ = write!(e, ",\"trait\":{}", esc(&path(tcx, tr.def_id)));
                        let ta: Vec<String> = tr.args.types().skip(1).map(|t| cx.ty(t).to_string()).collect();
                        let _ = write!(e, ",\"targs\":[{}]", ta.join(","));
                        let derived = tcx.is_automatically_derived(par);
                        let _ = write!(e, ",\"derived\":{}", derived);
                        let ai = tcx.associated_item(d);
                        if let Some(td) = ai.trait_item_def_id() {
                            let _ = write!(e, ",\"impl_of\":{}", esc(&path(tcx, td)));
                        }
                    }
                } else if matches!(tcx.def_kind(par), DefKind::Trait) {
                    let _ = write!(e, ",\"default_of\":{}", esc(&path(tcx, d)));
                }
            }
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                let vis = tcx.visibility(d).is_public();
                let eff = tcx.effective_visibilities(()).is_reachable(l);
                let _ = write!(e, ",\"pub\":{},\"exported\":{}", vis, eff);
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                if sig.safety().is_unsafe() {
                    e.push_str(",\"unsafe\":true");
                }
                let names: Vec<String> = tcx.fn_arg_idents(d).iter().map(|n| esc(&n.map(|i| i.name.to_string()).unwrap_or_default())).collect();
                let _ = write!(e, ",\"args\":[{}]", names.join(","));
            }
            if let DefKind::Static { mutability, .. } = kind {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let tid = cx.ty(t);
                let fz = t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized());
                let _ = write!(e, ",\"mut\":{},\"ty\":{},\"freeze\":{}", mutability.is_mut(), tid, fz);
            }
            let bj = cx.body(d, b);
            let _ = write!(e, ",\"body\":{}", bj);
            // promoteds
            let pr = tcx.promoted_mir(d);
            let mut ps = vec![];
            for p in pr.iter() {
                ps.push(cx.body(d, p));
            }
            let _ = write!(e, ",\"promoted\":[{}]}}", ps.join(","));
            fns.push(e);
        }
        // ADTs, statics, impls
        let mut adts: Vec<String> = vec![];
        let mut impls: Vec<String> = vec![];
        let mut statics: Vec<String> = vec![];
        let mut flags: Vec<(String, Span)> = vec![];
        for l in tcx.hir_crate_items(()).definitions() {
            let d = l.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(d);
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                        let fs: Vec<String> = v
                            .fields
                            .iter()
                            .map(|f| {
                                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                let tid = cx.ty(t);
                                format!("[{},{},{}]", esc(&f.name.to_string()), tid, tcx.visibility(f.did).is_public())
                            })
                            .collect();
                        vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":[{}]}}", esc(&v.name.to_string()), discr, fs.join(",")));
                    }
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let env = ty::TypingEnv::post_analysis(tcx, d);
                    let fz = t.is_freeze(tcx, env);
                    let tid = cx.ty(t);
                    let eff = tcx.effective_visibilities(()).is_reachable(l);
                    adts.push(format!(
                        "{{\"path\":{},\"kind\":\"{}\",\"ty\":{},\"freeze\":{},\"exported\":{},\"span\":{},\"variants\":[{}]}}",
                        esc(&path(tcx, d)),
                        if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" },
                        tid,
                        fz,
                        eff,
                        cx.span(tcx.def_span(d)),
                        vs.join(",")
                    ));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let sid = cx.ty(st);
                    let tr = tcx.impl_opt_trait_ref(d).map(|t| path(tcx, t.skip_binder().def_id)).unwrap_or_default();
                    if tcx.impl_opt_trait_ref(d).is_some() && tcx.impl_trait_header(d).safety.is_unsafe() {
                        flags.push((format!("unsafe impl of {tr}"), tcx.def_span(d)));
                    }
                    impls.push(format!("{{\"trait\":{},\"self\":{},\"derived\":{}}}", esc(&tr), sid, tcx.is_automatically_derived(d)));
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let tid = cx.ty(t);
                    let fz = t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized());
                    let tls = tcx.is_thread_local_static(d);
                    statics.push(format!("{{\"path\":{},\"mut\":{},\"freeze\":{},\"tls\":{},\"ty\":{},\"span\":{}}}", esc(&path(tcx, d)), mutability.is_mut(), fz, tls, tid, cx.span(tcx.def_span(d))));
                }
                DefKind::ForeignMod => flags.push(("extern block".into(), tcx.def_span(d))),
                DefKind::Fn | DefKind::AssocFn => {
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                    if sig.safety().is_unsafe() {
                        flags.push(("unsafe fn".into(), tcx.def_span(d)));
                    }
                    let a = tcx.codegen_fn_attrs(d);
                    if a.symbol_name.is_some() || a.flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE) {
                        flags.push(("exported symbol name".into(), tcx.def_span(d)));
                    }
                }
                _ => {}
            }
        }
        let mut v = UnsafeV { tcx, out: vec![] };
        tcx.hir_walk_toplevel_module(&mut v);
        flags.extend(v.out);
        let fl: Vec<String> = flags.iter().map(|(s, sp)| format!("[{},{}]", esc(s), cx.span(*sp))).collect();
        let files: Vec<String> = tcx.sess.source_map().files().iter().filter(|f| f.is_real_file() && f.cnum == rustc_hir::def_id::LOCAL_CRATE).map(|f| esc(&f.name.prefer_local_unconditionally().to_string())).collect();
        let cfgs: Vec<String> = tcx.sess.config.iter().filter(|(k, _)| k.as_str() == "feature" || k.as_str() == "test").map(|(k, v)| esc(&format!("{k}={}", v.map(|s| s.to_string()).unwrap_or_default()))).collect();
        let out = format!(
            "{{\"crate\":{},\"bin\":{},\"cfg\":[{}],\"files\":[{}],\"flags\":[{}],\n\"adts\":[{}],\n\"impls\":[{}],\n\"statics\":[{}],\n\"fns\":[\n{}\n],\n\"types\":[\n{}\n]}}\n",
            esc(&krate),
            is_bin,
            cfgs.join(","),
            files.join(","),
            fl.join(","),
            adts.join(",\n"),
            impls.join(",\n"),
            statics.join(","),
            fns.join(",\n"),
            cx.types.join(",\n")
        );
        let name = format!("{dir}/{krate}-{}.json", if is_bin { "bin" } else { "lib" });
        std::fs::write(&name, out).expect("write facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let is_probe = args.iter().any(|a| a == "-vV" || a == "--print" || a.starts_with("--print=")) || args.iter().any(|a| a == "___");
    let out = std::env::var("VP_FACTS_DIR").ok().filter(|_| !is_probe);
    let mut cb = Cb { out };
    let code = rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
