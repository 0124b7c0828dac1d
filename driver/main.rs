//! MIR fact extractor for the sevenz-rust static analyses.
//!
//! Used as RUSTC_WRAPPER.  For the crates named in SA_CRATES it runs the
//! compiler front end and dumps, as JSON, the type-checked program: every
//! body's control flow graph with structured places, rvalues and resolved
//! callees, plus types, impls, constants and visibility.  Every other crate
//! is handed to the real rustc unchanged.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_crate_prefix, with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LocalDefId};
use rustc_span::Span;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}
fn obj(v: &[(&str, String)]) -> String {
    let v: Vec<String> = v.iter().map(|(k, x)| format!("{}:{}", esc(k), x)).collect();
    format!("{{{}}}", v.join(","))
}
fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_crate_prefix!(with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d))))
}
fn tys<'tcx>(t: Ty<'tcx>) -> String {
    with_crate_prefix!(with_no_visible_paths!(with_no_trimmed_paths!(t.to_string())))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("[{},{},{}]", esc(&f), lo.line, lo.col.0 + 1)
    }

    fn field_name(&self, pt: &PlaceTy<'tcx>, idx: rustc_abi::FieldIdx) -> String {
        match pt.ty.kind() {
            ty::Adt(adt, _) => {
                let v = match pt.variant_index {
                    Some(v) => v,
                    None if adt.is_enum() => return format!("{}", idx.index()),
                    None => rustc_abi::VariantIdx::from_usize(0),
                };
                adt.variant(v).fields[idx].name.to_string()
            }
            ty::Closure(def, _) => {
                if let Some(l) = def.as_local() {
                    let caps = self.tcx.closure_captures(l);
                    if let Some(c) = caps.get(idx.index()) {
                        return format!("^{}", c.to_symbol());
                    }
                }
                format!("{}", idx.index())
            }
            _ => format!("{}", idx.index()),
        }
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut pr = vec![];
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, _) => {
                    format!("[\"f\",{},{}]", esc(&self.field_name(&pt, f)), f.index())
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"ci\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(n, v) => format!(
                    "[\"d\",{},{}]",
                    esc(&n.map(|x| x.to_string()).unwrap_or_default()),
                    v.index()
                ),
                _ => "[\"o\"]".to_string(),
            };
            pr.push(s);
            pt = pt.projection_ty(self.tcx, e);
        }
        format!("[{},{}]", p.local.index(), arr(&pr))
    }

    fn bytes_of(&self, alloc: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(alloc)? {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                let (s, e) = (off as usize, (off + len) as usize);
                if e > a.len() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(s..e).to_vec())
            }
            _ => None,
        }
    }

    fn constant(&self, te: TypingEnv<'tcx>, c: &Const<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let mut f = vec![("c", "1".to_string()), ("ty", esc(&tys(t)))];
        match t.kind() {
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                f.push(("fn", esc(&path(tcx, *d))));
                f.push(("id", esc(&format!("{:?}", tcx.def_path_hash(*d)))));
                let a: Vec<String> = args
                    .iter()
                    .filter_map(|x| x.as_type())
                    .map(|x| esc(&tys(x)))
                    .collect();
                f.push(("args", arr(&a)));
                return obj(&f);
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c {
            f.push(("path", esc(&path(tcx, u.def))));
            f.push(("cid", esc(&format!("{:?}", tcx.def_path_hash(u.def)))));
            if let Some(p) = u.promoted {
                f.push(("prom", format!("{}", p.index())));
            }
        }
        if let Const::Ty(_, k) = c {
            f.push(("tyc", esc(&format!("{}", k))));
        }
        if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(b) = c.try_eval_bits(tcx, te) {
                let v = if let ty::Int(it) = t.kind() {
                    let sz = it.bit_width().unwrap_or(64);
                    let sh = 128 - sz as u32;
                    format!("{}", ((b << sh) as i128) >> sh)
                } else {
                    format!("{}", b)
                };
                f.push(("v", v));
            }
        } else if let Ok(v) = {
            let promoted = matches!(c, Const::Unevaluated(u,_) if u.promoted.is_some());
            if promoted { Err(()) } else { c.eval(tcx, te, rustc_span::DUMMY_SP).map_err(|_| ()) }
        } {
            self.const_bytes(&v, t, &mut f);
        }
        obj(&f)
    }

    fn const_bytes(&self, v: &ConstValue, t: Ty<'tcx>, f: &mut Vec<(&'static str, String)>) {
        let tcx = self.tcx;
        if let ty::Ref(_, inner, _) = t.kind() {
            let isb = |x: Ty<'tcx>| x == tcx.types.u8;
            let out = match (v, inner.kind()) {
                (ConstValue::Slice { alloc_id, meta }, ty::Str) => self.bytes_of(*alloc_id, 0, *meta),
                (ConstValue::Slice { alloc_id, meta }, ty::Slice(e)) if isb(*e) => {
                    self.bytes_of(*alloc_id, 0, *meta)
                }
                (ConstValue::Scalar(Scalar::Ptr(p, _)), ty::Array(e, n)) if isb(*e) => {
                    let (prov, off) = p.into_raw_parts();
                    n.try_to_target_usize(tcx)
                        .and_then(|n| self.bytes_of(prov.alloc_id(), off.bytes(), n))
                }
                _ => None,
            };
            if let Some(b) = out {
                if inner.is_str() {
                    f.push(("s", esc(&String::from_utf8_lossy(&b))));
                } else {
                    let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                    f.push(("b", arr(&v)));
                }
            }
        }
        if let ConstValue::Scalar(Scalar::Ptr(p, _)) = v {
            let (prov, _) = p.into_raw_parts();
            if let Some(GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                f.push(("static", esc(&path(tcx, d))));
            }
        }
    }

    fn operand(&self, body: &Body<'tcx>, te: TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"p\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"p\":{},\"m\":1}}", self.place(body, p)),
            Operand::Constant(c) => self.constant(te, &c.const_),
            #[allow(unreachable_patterns)]
            x => format!("{{\"c\":1,\"rt\":{}}}", esc(&format!("{:?}", x))),
        }
    }

    fn rvalue(&self, body: &Body<'tcx>, te: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        let op = |o: &Operand<'tcx>| self.operand(body, te, o);
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", op(o)),
            Rvalue::Repeat(o, c) => format!("[\"repeat\",{},{}]", op(o), esc(&format!("{}", c))),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(body, p))
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&path(self.tcx, *d))),
            Rvalue::RawPtr(k, p) => format!(
                "[\"raw\",{},{}]",
                esc(&format!("{:?}", k)),
                self.place(body, p)
            ),
            Rvalue::Cast(k, o, t) => format!(
                "[\"cast\",{},{},{},{}]",
                esc(&format!("{:?}", k)),
                op(o),
                esc(&tys(o.ty(&body.local_decls, self.tcx))),
                esc(&tys(*t))
            ),
            Rvalue::BinaryOp(b, x) => {
                let t = x.0.ty(&body.local_decls, self.tcx);
                format!(
                    "[\"bin\",{},{},{},{}]",
                    esc(&format!("{:?}", b)),
                    op(&x.0),
                    op(&x.1),
                    esc(&tys(t))
                )
            }
            Rvalue::UnaryOp(u, x) => format!("[\"un\",{},{}]", esc(&format!("{:?}", u)), op(x)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let mut vs = vec![];
                if let ty::Adt(adt, _) = t.kind() {
                    if adt.is_enum() {
                        for (vi, v) in adt.variants().iter_enumerated() {
                            vs.push(format!(
                                "[{},{}]",
                                adt.discriminant_for_variant(self.tcx, vi).val,
                                esc(v.name.as_str())
                            ));
                        }
                    }
                }
                format!("[\"discr\",{},{},{}]", self.place(body, p), esc(&tys(t)), arr(&vs))
            }
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| op(o)).collect();
                let (kind, name, var, fields): (&str, String, usize, Vec<String>) = match &**k {
                    AggregateKind::Array(t) => ("array", tys(*t), 0, vec![]),
                    AggregateKind::Tuple => ("tuple", String::new(), 0, vec![]),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let adt = self.tcx.adt_def(*d);
                        let vd = adt.variant(*v);
                        let fs = vd.fields.iter().map(|f| f.name.to_string()).collect();
                        let nm = if adt.is_enum() {
                            format!("{}::{}", path(self.tcx, *d), vd.name)
                        } else {
                            path(self.tcx, *d)
                        };
                        ("adt", nm, v.index(), fs)
                    }
                    AggregateKind::Closure(d, _) => {
                        let mut fs = vec![];
                        if let Some(l) = d.as_local() {
                            for c in self.tcx.closure_captures(l) {
                                fs.push(format!("^{}", c.to_symbol()));
                            }
                        }
                        ("closure", format!("{:?}", self.tcx.def_path_hash(*d)), 0, fs)
                    }
                    AggregateKind::RawPtr(..) => ("rawptr", String::new(), 0, vec![]),
                    _ => ("other", String::new(), 0, vec![]),
                };
                let fs: Vec<String> = fields.iter().map(|s| esc(s)).collect();
                format!(
                    "[\"agg\",{},{},{},{},{}]",
                    esc(kind),
                    esc(&name),
                    var,
                    arr(&fs),
                    arr(&ops)
                )
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"p\":{}}}]", self.place(body, p)),
            x => format!("[\"other\",{}]", esc(&format!("{:?}", x))),
        }
    }

    fn callee(&self, body: &Body<'tcx>, te: TypingEnv<'tcx>, func: &Operand<'tcx>) -> String {
        let tcx = self.tcx;
        let fty = func.ty(&body.local_decls, tcx);
        match fty.kind() {
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let mut f = vec![("fn", esc(&path(tcx, *d)))];
                f.push(("local", format!("{}", d.is_local())));
                f.push(("id", esc(&format!("{:?}", tcx.def_path_hash(*d)))));
                f.push(("name", esc(tcx.item_name(*d).as_str())));
                let a: Vec<String> = args
                    .iter()
                    .filter_map(|x| x.as_type())
                    .map(|x| esc(&tys(x)))
                    .collect();
                f.push(("args", arr(&a)));
                let g = tcx.generics_of(*d);
                let mut gn = vec![];
                for i in 0..g.count() {
                    let p = g.param_at(i, tcx);
                    if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                        gn.push(esc(p.name.as_str()));
                    }
                }
                f.push(("gnames", arr(&gn)));
                if let Some(t) = tcx.trait_of_assoc(*d) {
                    f.push(("trait", esc(&path(tcx, t))));
                    if let Some(s) = args.types().next() {
                        f.push(("self", esc(&tys(s))));
                    }
                }
                if let Some(i) = tcx.impl_of_assoc(*d) {
                    f.push(("implself", esc(&tys(tcx.type_of(i).instantiate_identity().skip_norm_wip()))));
                }
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, te, *d, args) {
                    let rd = inst.def_id();
                    f.push(("res", esc(&path(tcx, rd))));
                    f.push(("reslocal", format!("{}", rd.is_local())));
                    f.push(("rid", esc(&format!("{:?}", tcx.def_path_hash(rd)))));
                    f.push(("rescrate", esc(tcx.crate_name(rd.krate).as_str())));
                    f.push(("kind", esc(match inst.def {
                        ty::InstanceKind::Item(_) => "item",
                        ty::InstanceKind::Virtual(..) => "virtual",
                        _ => "shim",
                    })));
                    let a: Vec<String> = inst
                        .args
                        .iter()
                        .filter_map(|x| x.as_type())
                        .map(|x| esc(&tys(x)))
                        .collect();
                    f.push(("resargs", arr(&a)));
                    let g = tcx.generics_of(rd);
                    let mut gn = vec![];
                    for i in 0..g.count() {
                        let p = g.param_at(i, tcx);
                        if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                            gn.push(esc(p.name.as_str()));
                        }
                    }
                    f.push(("resgnames", arr(&gn)));
                }
                let sig = tcx.fn_sig(*d).instantiate(tcx, args).skip_norm_wip().skip_binder();
                f.push(("ret", esc(&tys(sig.output()))));
                f.push(("crate", esc(tcx.crate_name(d.krate).as_str())));
                f.push(("unsafe", format!("{}", sig.safety().is_unsafe())));
                obj(&f)
            }
            _ => obj(&[
                ("ptr", self.operand(body, te, func)),
                ("fty", esc(&tys(fty))),
            ]),
        }
    }

    fn body(&self, body: &Body<'tcx>, te: TypingEnv<'tcx>) -> String {
        let mut locals = vec![];
        for (i, l) in body.local_decls.iter_enumerated() {
            let mut name = String::new();
            for v in &body.var_debug_info {
                if let VarDebugInfoContents::Place(p) = v.value {
                    if p.local == i && p.projection.is_empty() && v.composite.is_none() {
                        name = v.name.to_string();
                    }
                }
            }
            locals.push(format!("[{},{}]", esc(&tys(l.ty)), esc(&name)));
        }
        let mut blocks = vec![];
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &b.statements {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(x) => st.push(format!(
                        "[\"=\",{},{},{}]",
                        self.place(body, &x.0),
                        self.rvalue(body, te, &x.1),
                        sp
                    )),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(format!(
                        "[\"setd\",{},{},{}]",
                        self.place(body, place),
                        variant_index.index(),
                        sp
                    )),
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{},{}]", l.index(), sp)),
                    StatementKind::Intrinsic(i) => {
                        st.push(format!("[\"intr\",{},{}]", esc(&format!("{:?}", i)), sp))
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, t)| format!("[{},{}]", v, t.index()))
                        .collect();
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        self.operand(body, te, discr),
                        arr(&v),
                        targets.otherwise().index(),
                        esc(&tys(discr.ty(&body.local_decls, self.tcx)))
                    )
                }
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, self.tcx).ty;
                    format!(
                        "[\"drop\",{},{},{}]",
                        self.place(body, place),
                        target.index(),
                        esc(&tys(t))
                    )
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(body, te, &x.node)).collect();
                    let at: Vec<String> = args
                        .iter()
                        .map(|x| esc(&tys(x.node.ty(&body.local_decls, self.tcx))))
                        .collect();
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        self.callee(body, te, func),
                        arr(&a),
                        self.place(body, destination),
                        target.map(|t| t.index() as i64).unwrap_or(-1),
                        arr(&at)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                        AssertKind::Overflow(b, x, y) => (format!("overflow:{:?}", b), vec![x, y]),
                        AssertKind::OverflowNeg(x) => ("overflow:Neg".into(), vec![x]),
                        AssertKind::DivisionByZero(x) => ("divzero".into(), vec![x]),
                        AssertKind::RemainderByZero(x) => ("remzero".into(), vec![x]),
                        _ => ("other".into(), vec![]),
                    };
                    let ty0 = ops
                        .first()
                        .map(|o| tys(o.ty(&body.local_decls, self.tcx)))
                        .unwrap_or_default();
                    let o: Vec<String> = ops.iter().map(|o| self.operand(body, te, o)).collect();
                    format!(
                        "[\"assert\",{},{},{},{},{},{}]",
                        self.operand(body, te, cond),
                        expected,
                        esc(&k),
                        arr(&o),
                        target.index(),
                        esc(&ty0)
                    )
                }
                TerminatorKind::UnwindResume => "[\"resume\"]".to_string(),
                TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".to_string(),
                x => format!("[\"other\",{}]", esc(&format!("{:?}", x))),
            };
            blocks.push(format!(
                "{{\"s\":{},\"t\":{},\"sp\":{},\"cl\":{}}}",
                arr(&st),
                ts,
                sp,
                b.is_cleanup
            ));
        }
        obj(&[
            ("argc", format!("{}", body.arg_count)),
            ("locals", arr(&locals)),
            ("blocks", arr(&blocks)),
        ])
    }

    fn item(&self, d: LocalDefId) -> Option<String> {
        let tcx = self.tcx;
        let did = d.to_def_id();
        let kind = tcx.def_kind(did);
        let te = TypingEnv::post_analysis(tcx, did);
        let (k, body): (&str, &Body<'tcx>) = match kind {
            DefKind::Fn | DefKind::AssocFn => ("fn", tcx.optimized_mir(did)),
            DefKind::Closure => ("closure", tcx.optimized_mir(did)),
            DefKind::Const { .. } | DefKind::AssocConst { .. } => ("const", tcx.mir_for_ctfe(did)),
            DefKind::Static { .. } => ("static", tcx.mir_for_ctfe(did)),
            _ => return None,
        };
        let mut f = vec![
            ("path", esc(&path(tcx, did))),
            ("kind", esc(k)),
            ("span", self.span(tcx.def_span(did))),
            ("id", esc(&format!("{:?}", tcx.def_path_hash(did)))),
        ];
        if kind != DefKind::Closure {
            f.push(("name", esc(tcx.item_name(did).as_str())));
        }
        f.push(("parent", esc(&path(tcx, tcx.parent(did)))));
        if let Some(i) = tcx.impl_of_assoc(did) {
            f.push(("implself", esc(&tys(tcx.type_of(i).instantiate_identity().skip_norm_wip()))));
            if let Some(t) = tcx.impl_opt_trait_ref(i) {
                let t = t.instantiate_identity().skip_norm_wip();
                f.push(("trait", esc(&path(tcx, t.def_id))));
            }
        }
        if let Some(t) = tcx.trait_of_assoc(did) {
            f.push(("intrait", esc(&path(tcx, t))));
        }
        if k == "const" || k == "static" {
            let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let mut sh = vec![];
            self.shared(t, "", &mut Default::default(), &mut sh);
            f.push(("ty", esc(&tys(t))));
            f.push(("shared", self.shared_list(&sh)));
            f.push(("mut", format!("{}", tcx.is_mutable_static(did))));
        }
        if k == "fn" {
            f.push(("pub", format!("{}", tcx.effective_visibilities(()).is_reachable(d))));
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            f.push(("unsafe", format!("{}", sig.safety().is_unsafe())));
        }
        if k != "closure" {
            let g = tcx.generics_of(did);
            let mut gn = vec![];
            for i in 0..g.count() {
                let p = g.param_at(i, tcx);
                if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                    gn.push(esc(p.name.as_str()));
                }
            }
            f.push(("generics", arr(&gn)));
        }
        if matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. }) {
            let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            if tcx.generics_of(did).count() == 0 && (t.is_integral() || t.is_bool() || t.is_char()) {
                if let Ok(v) = tcx.const_eval_poly(did) {
                    if let Some(b) = v.try_to_bits_for_ty(tcx, te, t) {
                        f.push(("value", format!("{}", b)));
                    }
                }
            }
        }
        f.push(("body", self.body(body, te)));
        let proms: Vec<String> = tcx.promoted_mir(did).iter().map(|b| self.body(b, te)).collect();
        f.push(("promoted", arr(&proms)));
        Some(obj(&f))
    }

    fn shared_list(&self, l: &[(String, String)]) -> String {
        let v: Vec<String> = l.iter().map(|(a, b)| arr(&[esc(a), esc(b)])).collect();
        arr(&v)
    }

    /// What a value of the type can reach that someone else holding a shared
    /// reference (or a clone) could change: (path of fields, construct).
    fn shared(
        &self,
        t: Ty<'tcx>,
        at: &str,
        seen: &mut std::collections::HashSet<Ty<'tcx>>,
        out: &mut Vec<(String, String)>,
    ) {
        let tcx = self.tcx;
        if !seen.insert(t) {
            return;
        }
        match t.kind() {
            ty::Adt(adt, args) => {
                let p = path(tcx, adt.did());
                if adt.is_unsafe_cell() {
                    out.push((at.to_string(), tys(t)));
                } else if adt.is_phantom_data() {
                } else if p.starts_with("alloc::rc::") || p.starts_with("std::rc::") {
                    out.push((at.to_string(), tys(t)));
                } else if adt.is_box()
                    || p.starts_with("alloc::")
                    || p.starts_with("std::vec::")
                    || p.starts_with("std::string::")
                    || p.starts_with("std::collections::")
                    || p == "std::sync::Arc"
                    || p == "std::ptr::NonNull"
                {
                    for a in args.types() {
                        self.shared(a, at, seen, out);
                    }
                } else {
                    for v in adt.variants() {
                        for f in &v.fields {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let n = if at.is_empty() {
                                f.name.to_string()
                            } else {
                                format!("{}.{}", at, f.name)
                            };
                            self.shared(ft, &n, seen, out);
                        }
                    }
                }
            }
            ty::RawPtr(..) => out.push((at.to_string(), tys(t))),
            ty::Dynamic(..) => out.push((at.to_string(), tys(t))),
            ty::Ref(_, i, _) | ty::Slice(i) | ty::Array(i, _) => self.shared(*i, at, seen, out),
            ty::Tuple(l) => {
                for i in l.iter() {
                    self.shared(i, at, seen, out);
                }
            }
            _ => {}
        }
    }

    fn adts(&self) -> Vec<String> {
        let tcx = self.tcx;
        let mut out = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                continue;
            }
            let adt = tcx.adt_def(did);
            let mut vs = vec![];
            for (vi, v) in adt.variants().iter_enumerated() {
                let fs: Vec<String> = v
                    .fields
                    .iter()
                    .map(|f| {
                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let mut sh = vec![];
                        self.shared(t, "", &mut Default::default(), &mut sh);
                        obj(&[
                            ("name", esc(f.name.as_str())),
                            ("ty", esc(&tys(t))),
                            ("pub", format!("{}", f.vis.is_public())),
                            ("shared", self.shared_list(&sh)),
                        ])
                    })
                    .collect();
                let d = if adt.is_enum() { adt.discriminant_for_variant(tcx, vi).val } else { 0 };
                vs.push(obj(&[
                    ("name", esc(v.name.as_str())),
                    ("discr", format!("{}", d)),
                    ("fields", arr(&fs)),
                ]));
            }
            out.push(obj(&[
                ("path", esc(&path(tcx, did))),
                ("kind", esc(if adt.is_enum() { "enum" } else { "struct" })),
                ("pub", format!("{}", tcx.effective_visibilities(()).is_reachable(id))),
                ("span", self.span(tcx.def_span(did))),
                ("variants", arr(&vs)),
            ]));
        }
        out
    }

    fn impls(&self) -> Vec<String> {
        let tcx = self.tcx;
        let mut out = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Impl { .. }) {
                continue;
            }
            let st = tys(tcx.type_of(did).instantiate_identity().skip_norm_wip());
            let tr = tcx
                .impl_opt_trait_ref(did)
                .map(|t| path(tcx, t.instantiate_identity().skip_norm_wip().def_id))
                .unwrap_or_default();
            let mut ms = vec![];
            for &it in tcx.associated_item_def_ids(did) {
                if let Some(n) = tcx.opt_item_name(it) {
                    ms.push(arr(&[esc(n.as_str()), esc(&path(tcx, it))]));
                }
            }
            let g = tcx.generics_of(did);
            let mut gn = vec![];
            for i in 0..g.count() {
                let p = g.param_at(i, tcx);
                if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                    gn.push(esc(p.name.as_str()));
                }
            }
            let is_unsafe = matches!(
                tcx.impl_opt_trait_ref(did),
                Some(_)
            ) && tcx.impl_trait_header(did).safety.is_unsafe();
            out.push(obj(&[
                ("self", esc(&st)),
                ("trait", esc(&tr)),
                ("items", arr(&ms)),
                ("generics", arr(&gn)),
                ("unsafe", format!("{}", is_unsafe)),
                ("span", self.span(tcx.def_span(did))),
            ]));
        }
        out
    }
}

struct Cb {
    out: String,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let cx = Cx { tcx };
        let mut items = vec![];
        for &d in tcx.mir_keys(()).iter() {
            if let Some(s) = cx.item(d) {
                items.push(s);
            }
        }
        let j = obj(&[
            ("crate", esc(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str())),
            ("items", format!("[{}]", items.join(",\n"))),
            ("adts", arr(&cx.adts())),
            ("impls", arr(&cx.impls())),
        ]);
        std::fs::write(&self.out, j).expect("write facts");
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let argv: Vec<String> = std::env::args().collect();
    let args: Vec<String> = argv[1..].to_vec();
    let mut krate = String::new();
    let mut i = 0;
    while i < args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() {
            krate = args[i + 1].clone();
        }
        i += 1;
    }
    let want = std::env::var("SA_CRATES").unwrap_or_default();
    let test = args.iter().any(|a| a == "--test");
    if want.split(',').any(|c| c == krate) && !test {
        let out = format!("{}/{}.json", std::env::var("SA_OUT").unwrap(), krate);
        let mut cb = Cb { out };
        let mut args = args;
        // unoptimised MIR, with the overflow and bounds checks of a debug build
        for a in ["-Zmir-opt-level=0", "-Zinline-mir=no", "-Coverflow-checks=on", "-Cdebug-assertions=on"] {
            args.push(a.to_string());
        }
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
}
