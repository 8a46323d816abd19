// MIR fact extractor: a rustc driver that dumps the type-checked program's MIR
// (with resolved callees, field names, variant names and constants) as JSON.
// Injected with RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_structures;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON
fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    let v: Vec<String> = i.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
}

fn gid(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}
fn pretty(tcx: TyCtxt<'_>, d: DefId) -> String {
    let s = with_no_trimmed_paths!(tcx.def_path_str(d));
    if d.is_local() {
        format!("{}::{}", tcx.crate_name(LOCAL_CRATE), s)
    } else {
        s
    }
}
fn tys(t: Ty<'_>) -> String {
    with_no_trimmed_paths!(t.to_string())
}

impl<'tcx> Cx<'tcx> {
    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut out = vec![];
        for (base, elem) in p.iter_projections() {
            let bt = base.ty(body, tcx);
            out.push(match elem {
                ProjectionElem::Deref => {
                    let b = if bt.ty.is_box() { "box" } else { "" };
                    format!("[\"d\",{}]", esc(b))
                }
                ProjectionElem::Field(f, _) => {
                    let mut name = format!("{}", f.index());
                    let mut adt = String::new();
                    match bt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match bt.variant_index {
                                Some(v) => def.variant(v),
                                None => {
                                    if def.is_enum() {
                                        def.variant(rustc_abi::VariantIdx::from_usize(0))
                                    } else {
                                        def.non_enum_variant()
                                    }
                                }
                            };
                            name = v.fields[f].name.to_string();
                            adt = pretty(tcx, def.did());
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) | ty::CoroutineClosure(d, _) => {
                            adt = format!("closure:{}", gid(tcx, *d));
                        }
                        ty::Tuple(_) => adt = "tuple".into(),
                        _ => {}
                    }
                    format!("[\"f\",{},{},{}]", f.index(), esc(&name), esc(&adt))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"c\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(name, v) => {
                    let n = match bt.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => name.map(|n| n.to_string()).unwrap_or_else(|| format!("{}", v.index())),
                    };
                    format!("[\"v\",{},{}]", v.index(), esc(&n))
                }
                _ => "[\"o\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.index(), arr(out))
    }

    fn callee(&self, def: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("{{\"path\":{},\"id\":{}", esc(&pretty(tcx, def)), esc(&gid(tcx, def)));
        let a = arr(args.iter().filter_map(|g| g.as_type()).map(|t| esc(&tys(t))));
        let _ = write!(o, ",\"targs\":{}", a);
        // closures named in the generic arguments
        let mut cl = vec![];
        for g in args.iter() {
            if let Some(t) = g.as_type() {
                for w in t.walk() {
                    if let Some(t) = w.as_type() {
                        match t.kind() {
                            ty::Closure(d, _) | ty::Coroutine(d, _) | ty::CoroutineClosure(d, _) => {
                                cl.push(esc(&gid(tcx, *d)))
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
        let _ = write!(o, ",\"closures\":{}", arr(cl));
        if let Some(tr) = tcx.trait_of_assoc(def) {
            let _ = write!(o, ",\"trait\":{}", esc(&pretty(tcx, tr)));
            if let Some(t) = args.types().next() {
                let _ = write!(o, ",\"self\":{}", esc(&tys(t)));
            }
        } else if let Some(im) = tcx.impl_of_assoc(def) {
            let st = tcx.type_of(im).instantiate_identity();
            let _ = write!(o, ",\"self\":{}", esc(&with_no_trimmed_paths!(format!("{:?}", st))));
        }
        let eargs = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, def, eargs) {
            let rd = i.def_id();
            let k = match i.def {
                ty::InstanceKind::Virtual(..) => "virtual",
                ty::InstanceKind::Item(_) => "item",
                _ => "shim",
            };
            let _ = write!(
                o,
                ",\"rid\":{},\"rpath\":{},\"rkind\":{}",
                esc(&gid(tcx, rd)),
                esc(&pretty(tcx, rd)),
                esc(k)
            );
        }
        o.push('}');
        o
    }

    fn constant(&self, body: &Body<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = format!("[\"const\",{{\"ty\":{}", esc(&tys(t)));
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            let _ = write!(o, ",\"fn\":{}", self.callee(*d, args));
            o.push_str("}]");
            return o;
        }
        if let ty::Closure(d, _) = t.kind() {
            let _ = write!(o, ",\"closure\":{}", esc(&gid(tcx, *d)));
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let _ = write!(o, ",\"promoted\":{}", p.index());
            } else {
                let _ = write!(o, ",\"def\":{},\"defpath\":{}", esc(&gid(tcx, u.def)), esc(&pretty(tcx, u.def)));
            }
        }
        if let Some(d) = c.check_static_ptr(tcx) {
            let _ = write!(o, ",\"static\":{}", esc(&pretty(tcx, d)));
        }
        let is_promoted = matches!(c.const_, Const::Unevaluated(u, _) if u.promoted.is_some());
        if !is_promoted {
            if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
                match v {
                    ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) => {
                        let sz = i.size();
                        if t.is_signed() {
                            let _ = write!(o, ",\"int\":\"{}\"", sz.sign_extend(i.to_bits(sz)));
                        } else {
                            let _ = write!(o, ",\"int\":\"{}\"", i.to_bits(sz));
                        }
                    }
                    ConstValue::ZeroSized => o.push_str(",\"zst\":true"),
                    _ => {
                        if let ty::Ref(_, inner, _) = t.kind() {
                            if inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8) {
                                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                    let _ = write!(o, ",\"str\":{}", esc(&String::from_utf8_lossy(b)));
                                }
                            }
                        }
                    }
                }
            }
        }
        let _ = body;
        let _ = write!(o, ",\"dbg\":{}", esc(&with_no_trimmed_paths!(format!("{}", c.const_))));
        o.push_str("}]");
        o
    }

    fn op(&self, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(body, p)),
            Operand::Constant(c) => self.constant(body, c),
            _ => "[\"const\",{\"ty\":\"bool\",\"rtcheck\":true,\"int\":\"0\"}]".to_string(),
        }
    }

    fn variants(&self, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        match t.kind() {
            ty::Adt(def, _) if def.is_enum() => arr(def.discriminants(tcx).map(|(i, d)| {
                format!("[{},{},\"{}\"]", i.index(), esc(&def.variant(i).name.to_string()), d.val)
            })),
            _ => "[]".into(),
        }
    }

    fn rvalue(&self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(body, o)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.op(body, o), esc(&n.to_string())),
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                matches!(k, BorrowKind::Mut { .. }),
                self.place(body, p)
            ),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(body, p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut(), self.place(body, p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(body, tcx);
                format!("[\"cast\",{},{},{},{}]", esc(&format!("{:?}", k)), self.op(body, o), esc(&tys(*t)), esc(&tys(from)))
            }
            Rvalue::BinaryOp(b, x) => format!(
                "[\"bin\",{},{},{}]",
                esc(&format!("{:?}", b)),
                self.op(body, &x.0),
                self.op(body, &x.1)
            ),
            Rvalue::UnaryOp(u, x) => format!("[\"un\",{},{}]", esc(&format!("{:?}", u)), self.op(body, x)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, tcx).ty;
                let adt = match t.kind() {
                    ty::Adt(d, _) => pretty(tcx, d.did()),
                    _ => String::new(),
                };
                format!("[\"discr\",{},{},{}]", self.place(body, p), esc(&adt), self.variants(t))
            }
            Rvalue::Aggregate(k, ops) => {
                let o = arr(ops.iter().map(|o| self.op(body, o)));
                match &**k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",\"\",\"\",[],{}]", o),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",\"\",\"\",[],{}]", o),
                    AggregateKind::Adt(d, v, _, _, af) => {
                        let def = tcx.adt_def(*d);
                        let var = def.variant(*v);
                        let names = match af {
                            Some(f) => arr([esc(&var.fields[*f].name.to_string())]),
                            None => arr(var.fields.iter().map(|f| esc(&f.name.to_string()))),
                        };
                        format!(
                            "[\"agg\",\"adt\",{},{},{},{}]",
                            esc(&pretty(tcx, *d)),
                            esc(&var.name.to_string()),
                            names,
                            o
                        )
                    }
                    AggregateKind::Closure(d, _)
                    | AggregateKind::Coroutine(d, _)
                    | AggregateKind::CoroutineClosure(d, _) => {
                        format!("[\"agg\",\"closure\",{},\"\",[],{}]", esc(&gid(tcx, *d)), o)
                    }
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"rawptr\",\"\",\"\",[],{}]", o),
                }
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&pretty(tcx, *d))),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.op(body, o)),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> usize {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }

    fn body(&self, b: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut names: Vec<Option<String>> = vec![None; b.local_decls.len()];
        let mut upnames: Vec<String> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names[p.local.index()] = Some(v.name.to_string());
                } else if p.local.index() == 1 {
                    upnames.push(format!("[{},{}]", esc(&v.name.to_string()), self.place(b, &p)));
                }
            }
        }
        let locals = arr(b.local_decls.iter_enumerated().map(|(l, d)| {
            format!(
                "[{},{}]",
                esc(&tys(d.ty)),
                names[l.index()].as_ref().map(|n| esc(n)).unwrap_or_else(|| "null".into())
            )
        }));
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(x) => st.push(format!(
                        "[\"=\",{},{},{}]",
                        self.place(b, &x.0),
                        self.rvalue(b, &x.1),
                        self.line(s.source_info.span)
                    )),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"sd\",{},{}]", self.place(b, place), variant_index.index()))
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.index())),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let uw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => format!("{}", b.index()),
                _ => "null".to_string(),
            };
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v = arr(targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.index())));
                    format!(
                        "[\"switch\",{},{},{},{},{}]",
                        self.op(b, discr),
                        v,
                        targets.otherwise().index(),
                        esc(&tys(discr.ty(b, tcx))),
                        ln
                    )
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    format!("[\"drop\",{},{},{},{}]", self.place(b, place), target.index(), uw(unwind), ln)
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => format!(
                    "[\"call\",{},{},{},{},{},{}]",
                    self.op(b, func),
                    arr(args.iter().map(|a| self.op(b, &a.node))),
                    self.place(b, destination),
                    target.map(|t| t.index().to_string()).unwrap_or_else(|| "null".into()),
                    uw(unwind),
                    ln
                ),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let k = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) | AssertKind::OverflowNeg(_) => "overflow",
                        AssertKind::DivisionByZero(_) | AssertKind::RemainderByZero(_) => "div0",
                        _ => "other",
                    };
                    format!("[\"assert\",{},{},{},\"{}\",{}]", self.op(b, cond), expected, target.index(), k, ln)
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => format!(
                    "[\"yield\",{},{},{},{}]",
                    self.op(b, value),
                    resume.index(),
                    self.place(b, resume_arg),
                    ln
                ),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                k => format!("[\"other\",{}]", esc(&format!("{:?}", k))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"c\":{}}}", arr(st), term, bb.is_cleanup));
        }
        format!(
            "\"args\":{},\"locals\":{},\"upvars\":{},\"blocks\":{}",
            b.arg_count,
            locals,
            arr(upnames),
            arr(blocks)
        )
    }

    fn item(&self, d: DefId, kind: &str, b: &Body<'tcx>, promoted: Option<usize>) -> String {
        let tcx = self.tcx;
        let sm = tcx.sess.source_map();
        let sp = tcx.def_span(d);
        let lo = sm.lookup_char_pos(sp.source_callsite().lo());
        let file = format!("{}", lo.file.name.prefer_remapped_unconditionally());
        let mut o = format!(
            "{{\"id\":{},\"path\":{},\"kind\":{},\"file\":{},\"line\":{}",
            esc(&match promoted {
                Some(p) => format!("{}#p{}", gid(tcx, d), p),
                None => gid(tcx, d),
            }),
            esc(&pretty(tcx, d)),
            esc(kind),
            esc(&file),
            lo.line
        );
        let _ = write!(o, ",\"from_expansion\":{}", sp.from_expansion());
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity();
            let _ = write!(o, ",\"self\":{}", esc(&with_no_trimmed_paths!(format!("{:?}", st))));
            if let Some(t) = tcx.impl_opt_trait_ref(im) {
                let t = t.instantiate_identity();
                let _ = write!(
                    o,
                    ",\"trait\":{},\"traitref\":{}",
                    esc(&pretty(tcx, tcx.impl_trait_id(im))),
                    esc(&with_no_trimmed_paths!(format!("{:?}", t)))
                );
            }
            let _ = write!(o, ",\"name\":{}", esc(&tcx.item_name(d).to_string()));
        } else if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait_default\":{}", esc(&pretty(tcx, tr)));
            let _ = write!(o, ",\"name\":{}", esc(&tcx.item_name(d).to_string()));
        } else if let Some(n) = tcx.opt_item_name(d) {
            let _ = write!(o, ",\"name\":{}", esc(&n.to_string()));
        }
        let parent = tcx.opt_parent(d).map(|p| gid(tcx, p)).unwrap_or_default();
        let _ = write!(o, ",\"parent\":{}", esc(&parent));
        let dk = tcx.def_kind(d);
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            let _ = write!(o, ",\"vis\":{}", esc(&format!("{:?}", tcx.visibility(d))));
            let _ = write!(o, ",\"async\":{}", tcx.asyncness(d).is_async());
        }
        let _ = write!(o, ",\"coroutine\":{}", tcx.is_coroutine(d));
        let _ = write!(o, ",{}}}", self.body(b));
        o
    }
}

struct Cb {
    out: Vec<String>,
    done: std::collections::HashSet<LocalDefId>,
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if skip(tcx) {
            return Compilation::Continue;
        }
        for &d in tcx.mir_keys(()).iter() {
            if tcx.is_coroutine(d.to_def_id()) {
                let (b, p) = tcx.mir_promoted(d);
                if b.is_stolen() || p.is_stolen() {
                    continue;
                }
                let cx = Cx { tcx, env: TypingEnv::non_body_analysis(tcx, d.to_def_id()) };
                self.out.push(cx.item(d.to_def_id(), "coroutine", &b.borrow(), None));
                for (i, pb) in p.borrow().iter_enumerated() {
                    self.out.push(cx.item(d.to_def_id(), "promoted", pb, Some(i.index())));
                }
                self.done.insert(d);
            }
        }
        Compilation::Continue
    }
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if skip(tcx) {
            return Compilation::Continue;
        }
        let Ok(dir) = std::env::var("MIRFACTS_DIR") else { return Compilation::Continue };
        for &d in tcx.mir_keys(()).iter() {
            if self.done.contains(&d) {
                continue;
            }
            let did = d.to_def_id();
            let cx = Cx { tcx, env: TypingEnv::post_analysis(tcx, did) };
            let dk = tcx.def_kind(did);
            match dk {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if tcx.is_coroutine(did) {
                        // coroutine whose pre-transform body was gone: report it
                        self.out.push(format!("{{\"id\":{},\"kind\":\"lost\"}}", esc(&gid(tcx, did))));
                        continue;
                    }
                    let b = tcx.optimized_mir(did);
                    let k = if dk == DefKind::Closure { "closure" } else { "fn" };
                    self.out.push(cx.item(did, k, b, None));
                    for (i, pb) in tcx.promoted_mir(did).iter_enumerated() {
                        self.out.push(cx.item(did, "promoted", pb, Some(i.index())));
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    let g = tcx.generics_of(did);
                    if g.own_requires_monomorphization() {
                        continue;
                    }
                    let b = tcx.mir_for_ctfe(did);
                    self.out.push(cx.item(did, "const", b, None));
                    for (i, pb) in tcx.promoted_mir(did).iter_enumerated() {
                        self.out.push(cx.item(did, "promoted", pb, Some(i.index())));
                    }
                }
                _ => {}
            }
        }
        // ADTs
        let mut adts = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            let did = d.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum) {
                let def = tcx.adt_def(did);
                let vs = arr(def.variants().iter().map(|v| {
                    format!(
                        "[{},{}]",
                        esc(&v.name.to_string()),
                        arr(v.fields.iter().map(|f| {
                            let t = tcx.type_of(f.did).instantiate_identity();
                            format!(
                                "[{},{},{}]",
                                esc(&f.name.to_string()),
                                esc(&with_no_trimmed_paths!(format!("{:?}", t))),
                                esc(&format!("{:?}", f.vis))
                            )
                        }))
                    )
                }));
                adts.push(format!(
                    "{{\"path\":{},\"enum\":{},\"variants\":{}}}",
                    esc(&pretty(tcx, did)),
                    def.is_enum(),
                    vs
                ));
            }
        }
        // impls
        let mut impls = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            let did = d.to_def_id();
            if let DefKind::Impl { .. } = tcx.def_kind(did) {
                let st = tcx.type_of(did).instantiate_identity();
                let tr = tcx
                    .impl_opt_trait_ref(did)
                    .map(|t| with_no_trimmed_paths!(format!("{:?}", t.instantiate_identity())))
                    .unwrap_or_default();
                let items = arr(tcx.associated_items(did).in_definition_order().map(|i| {
                    format!("[{},{}]", esc(&i.opt_name().map(|n| n.to_string()).unwrap_or_default()), esc(&gid(tcx, i.def_id)))
                }));
                impls.push(format!(
                    "{{\"self\":{},\"traitref\":{},\"items\":{}}}",
                    esc(&with_no_trimmed_paths!(format!("{:?}", st))),
                    esc(&tr),
                    items
                ));
            }
        }
        let mut traits = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            let did = d.to_def_id();
            if let DefKind::Trait = tcx.def_kind(did) {
                let items = arr(tcx.associated_items(did).in_definition_order().map(|i| {
                    format!(
                        "[{},{},{}]",
                        esc(&i.opt_name().map(|n| n.to_string()).unwrap_or_default()),
                        esc(&gid(tcx, i.def_id)),
                        tcx.defaultness(i.def_id).has_value()
                    )
                }));
                traits.push(format!("{{\"path\":{},\"items\":{}}}", esc(&pretty(tcx, did)), items));
            }
        }
        let cn = tcx.crate_name(LOCAL_CRATE).to_string();
        let bin = tcx
            .crate_types()
            .iter()
            .any(|t| matches!(t, rustc_structures::CrateType::Executable));
        let txt = format!(
            "{{\"crate\":{},\"bin\":{},\"debug_assertions\":{},\"fns\":{},\"adts\":{},\"impls\":{},\"traits\":{}}}",
            esc(&cn),
            bin,
            tcx.sess.opts.debug_assertions,
            format!("[{}]", std::mem::take(&mut self.out).join(",\n")),
            arr(adts),
            arr(impls),
            arr(traits)
        );
        let p = std::path::Path::new(&dir).join(format!("{}{}.json", cn, if bin { ".bin" } else { "" }));
        let tmp = p.with_extension("tmp");
        std::fs::write(&tmp, txt).expect("write facts");
        std::fs::rename(&tmp, &p).expect("rename facts");
        Compilation::Continue
    }
}

fn skip(tcx: TyCtxt<'_>) -> bool {
    tcx.crate_name(LOCAL_CRATE).as_str().starts_with("build_script")
}

fn run(args: &[String], cb: &mut (dyn Callbacks + Send)) -> ! {
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(args, cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 })
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let query = args.iter().any(|a| a.starts_with("--print") || a == "-vV" || a == "-V");
    let facts = std::env::var("MIRFACTS_DIR").is_ok();
    if query || !facts {
        struct Nop;
        impl Callbacks for Nop {}
        run(&args, &mut Nop);
    }
    args.push("-Zmir-opt-level=1".into());
    args.push("-Zinline-mir=no".into());
    args.push("-Coverflow-checks=on".into());
    if std::env::var("MIRFACTS_DEBUG").is_ok() {
        args.push("-Cdebug-assertions=yes".into());
    }
    let mut cb = Cb { out: vec![], done: Default::default() };
    run(&args, &mut cb);
}
