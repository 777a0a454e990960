// mirdump: a rustc wrapper that type-checks a crate and writes its MIR
// (resolved calls, places, constants, types, ADTs, impls) as JSON.
// Used through RUSTC_WORKSPACE_WRAPPER by /verif/engine/extract.py.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

struct Cb {
    out: String,
}

fn esc(s: &str) -> String {
    let mut r = String::with_capacity(s.len() + 2);
    r.push('"');
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\r' => r.push_str("\\r"),
            '\t' => r.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn uid(&self, d: DefId) -> String {
        let kr = self.tcx.crate_name(d.krate);
        format!("{}{}", kr, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(t.to_string())
    }
    fn loc(&self, sp: Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let name = format!(
            "{}",
            l.file.name.prefer_remapped_unconditionally()
        );
        (name, l.line)
    }
    fn line(&self, sp: Span) -> usize {
        self.loc(sp).1
    }
    /// ("Type", "Trait", "method") naming of an associated fn
    fn assoc(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let _ = write!(o, "\"name\":{}", esc(&name));
        if let Some(p) = tcx.opt_parent(d) {
            match tcx.def_kind(p) {
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    let _ = write!(o, ",\"selfty\":{}", esc(&self.tystr(st)));
                    if let ty::Adt(a, _) = st.kind() {
                        let _ = write!(o, ",\"selfadt\":{}", esc(&self.path(a.did())));
                    }
                    if of_trait {
                        let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                        let _ = write!(
                            o,
                            ",\"trait\":{},\"traitref\":{}",
                            esc(&self.path(tr.def_id)),
                            esc(&with_no_trimmed_paths!(tr.to_string()))
                        );
                    }
                }
                DefKind::Trait => {
                    let _ = write!(o, ",\"trait\":{}", esc(&self.path(p)));
                    let _ = write!(o, ",\"intrait\":true");
                }
                _ => {}
            }
        }
        o
    }
    fn place(&self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let _ = write!(o, "[{},[", p.local.as_usize());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for (i, e) in p.projection.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            match e {
                ProjectionElem::Deref => o.push_str("[\"*\"]"),
                ProjectionElem::Field(f, _) => {
                    let mut nm = format!("{}", f.as_usize());
                    let mut owner = String::new();
                    match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            owner = self.path(a.did());
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if v.as_usize() < a.variants().len() {
                                let vd = a.variant(v);
                                if f.as_usize() < vd.fields.len() {
                                    nm = vd.fields[f].name.to_string();
                                }
                            }
                        }
                        ty::Closure(..) => owner = "closure".into(),
                        _ => {}
                    }
                    let _ = write!(o, "[\"f\",{},{}]", esc(&nm), esc(&owner));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, "[\"ci\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"sub\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(s, v) => {
                    let nm = s.map(|s| s.to_string()).unwrap_or_else(|| match pt.ty.kind() {
                        ty::Adt(a, _) if v.as_usize() < a.variants().len() => {
                            a.variant(v).name.to_string()
                        }
                        _ => format!("{}", v.as_usize()),
                    });
                    let _ = write!(o, "[\"d\",{}]", esc(&nm));
                }
                _ => o.push_str("[\"?\"]"),
            }
            pt = pt.projection_ty(tcx, e);
        }
        o.push_str("]]");
        o
    }
    fn callee(&self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::from("{");
        let _ = write!(
            o,
            "\"p\":{},\"uid\":{},\"local\":{}",
            esc(&self.path(d)),
            esc(&self.uid(d)),
            d.is_local() || tcx.crate_name(d.krate).as_str() == "splr"
        );
        let _ = write!(o, ",{}", self.assoc(d));
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).skip_binder();
            if !sig.safety().is_safe() {
                o.push_str(",\"unsafe\":true");
            }
            let is_trait_item = tcx.trait_of_assoc(d).is_some();
            if is_trait_item {
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args) {
                    let rd = inst.def_id();
                    if rd != d {
                        let _ = write!(
                            o,
                            ",\"res\":{{\"p\":{},\"uid\":{},\"local\":{},{}}}",
                            esc(&self.path(rd)),
                            esc(&self.uid(rd)),
                            rd.is_local() || tcx.crate_name(rd.krate).as_str() == "splr",
                            self.assoc(rd)
                        );
                    }
                }
            }
        }
        let ga: Vec<String> = args
            .iter()
            .map(|a| esc(&with_no_trimmed_paths!(a.to_string())))
            .collect();
        let _ = write!(o, ",\"ga\":[{}]", ga.join(","));
        o.push('}');
        o
    }
    fn konst(&self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = String::from("{");
        let _ = write!(o, "\"ty\":{}", esc(&self.tystr(t)));
        match t.kind() {
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap();
                let _ = write!(o, ",\"fn\":{}", self.callee(*d, args, env));
                o.push('}');
                return o;
            }
            ty::Closure(d, _) => {
                let _ = write!(o, ",\"closure\":{}", esc(&self.uid(*d)));
                o.push('}');
                return o;
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let _ = write!(o, ",\"prom\":{}", p.as_usize());
                let _ = write!(o, ",\"promof\":{}", esc(&self.uid(u.def)));
                o.push('}');
                return o;
            }
            let _ = write!(o, ",\"path\":{}", esc(&self.path(u.def)));
        }
        let scalar_ty = t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point();
        if scalar_ty {
            if let Some(si) = c.const_.try_eval_scalar_int(tcx, env) {
                let bits = si.to_bits(si.size());
                if t.is_floating_point() {
                    let v = match si.size().bytes() {
                        8 => f64::from_bits(bits as u64),
                        4 => f32::from_bits(bits as u32) as f64,
                        _ => f64::NAN,
                    };
                    let _ = write!(o, ",\"f\":{}", esc(&format!("{v:?}")));
                } else if t.is_signed() {
                    let _ = write!(o, ",\"v\":{}", si.size().sign_extend(bits));
                } else {
                    let _ = write!(o, ",\"v\":{}", bits);
                }
            }
        } else if let Ok(v) = c.const_.eval(tcx, env, c.span) {
            match v {
                ConstValue::Slice { alloc_id, meta } => {
                    if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                        let a = m.inner();
                        let n = std::cmp::min(meta as usize, a.len());
                        if matches!(t.kind(), ty::Ref(_, x, _) if x.is_str()) {
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                            let _ = write!(o, ",\"s\":{}", esc(&String::from_utf8_lossy(b)));
                        } else if matches!(t.kind(), ty::Ref(_, x, _) if x.is_slice()) {
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                            let _ = write!(o, ",\"bytes\":{}", esc(&String::from_utf8_lossy(b)));
                        }
                    }
                }
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, _) = p.into_raw_parts();
                    match tcx.global_alloc(prov.alloc_id()) {
                        GlobalAlloc::Static(d) => {
                            let _ = write!(
                                o,
                                ",\"static\":{},\"mutstatic\":{}",
                                esc(&self.path(d)),
                                tcx.is_mutable_static(d)
                            );
                        }
                        GlobalAlloc::Memory(m) => {
                            let a = m.inner();
                            let is_bytes = match t.kind() {
                                ty::Ref(_, x, _) => match x.kind() {
                                    ty::Array(e, _) => *e == tcx.types.u8,
                                    _ => false,
                                },
                                _ => false,
                            };
                            if is_bytes {
                                let b =
                                    a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                                let _ = write!(o, ",\"bytes\":{}", esc(&String::from_utf8_lossy(b)));
                            }
                        }
                        _ => {}
                    }
                }
                ConstValue::Scalar(Scalar::Int(si)) => {
                    let bits = si.to_bits(si.size());
                    let _ = write!(o, ",\"raw\":{}", bits);
                    if let ty::Adt(a, _) = t.kind() {
                        if a.is_enum() {
                            let e = c.const_;
                            let _ = e;
                        }
                    }
                }
                _ => {}
            }
        }
        let _ = write!(o, ",\"str\":{}", esc(&with_no_trimmed_paths!(format!("{}", c.const_))));
        o.push('}');
        o
    }
    fn operand(&self, op: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p, body)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p, body)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(c, env)),
            #[allow(unreachable_patterns)]
            _ => "[\"k\",{\"ty\":\"?\"}]".to_string(),
        }
    }
    fn variants(&self, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::from("[");
        if let ty::Adt(a, _) = t.kind() {
            if a.is_enum() {
                let mut first = true;
                for (i, d) in a.discriminants(tcx) {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    let _ = write!(o, "[{},{}]", d.val, esc(a.variant(i).name.as_str()));
                }
            }
        }
        o.push(']');
        o
    }
    fn rvalue(&self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(op, ..) => format!("[\"use\",{}]", self.operand(op, body, env)),
            Rvalue::Repeat(op, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(op, body, env),
                esc(&n.to_string())
            ),
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                esc(match k {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                }),
                self.place(p, body)
            ),
            Rvalue::RawPtr(k, p) => format!(
                "[\"raw\",{},{}]",
                esc(&format!("{k:?}")),
                self.place(p, body)
            ),
            Rvalue::Cast(k, op, t) => {
                let ks = format!("{k:?}");
                let from = op.ty(&body.local_decls, tcx);
                format!(
                    "[\"cast\",{},{},{},{}]",
                    esc(&ks),
                    self.operand(op, body, env),
                    esc(&self.tystr(*t)),
                    esc(&self.tystr(from))
                )
            }
            Rvalue::BinaryOp(b, ops) => format!(
                "[\"bin\",{},{},{}]",
                esc(&format!("{b:?}")),
                self.operand(&ops.0, body, env),
                self.operand(&ops.1, body, env)
            ),
            Rvalue::UnaryOp(u, op) => format!(
                "[\"un\",{},{}]",
                esc(&format!("{u:?}")),
                self.operand(op, body, env)
            ),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                format!(
                    "[\"discr\",{},{},{}]",
                    self.place(p, body),
                    esc(&self.tystr(t)),
                    self.variants(t)
                )
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|x| self.operand(x, body, env)).collect();
                let kind = match &**k {
                    AggregateKind::Array(t) => {
                        format!("{{\"k\":\"array\",\"ty\":{}}}", esc(&self.tystr(*t)))
                    }
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".into(),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let a = tcx.adt_def(*d);
                        let vd = a.variant(*v);
                        let fs: Vec<String> =
                            vd.fields.iter().map(|f| esc(f.name.as_str())).collect();
                        format!(
                            "{{\"k\":\"adt\",\"adt\":{},\"variant\":{},\"fields\":[{}]}}",
                            esc(&self.path(*d)),
                            esc(vd.name.as_str()),
                            fs.join(",")
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("{{\"k\":\"closure\",\"uid\":{}}}", esc(&self.uid(*d)))
                    }
                    _ => "{\"k\":\"other\"}".into(),
                };
                format!("[\"agg\",{},[{}]]", kind, os.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p, body)),
            _ => "[\"other\"]".to_string(),
        }
    }
    fn body(&self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let _ = write!(o, "\"argc\":{},\"locals\":[", body.arg_count);
        for (i, l) in body.local_decls.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            o.push_str(&esc(&self.tystr(l.ty)));
        }
        o.push_str("],\"names\":[");
        let mut first = true;
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if !first {
                    o.push(',');
                }
                first = false;
                let _ = write!(o, "[{},{}]", esc(v.name.as_str()), self.place(p, body));
            }
        }
        o.push_str("],\"blocks\":[");
        for (bi, b) in body.basic_blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for s in &b.statements {
                let txt = match &s.kind {
                    StatementKind::Assign(b) => format!(
                        "[\"=\",{},{},{}]",
                        self.line(s.source_info.span),
                        self.place(&b.0, body),
                        self.rvalue(&b.1, body, env)
                    ),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(&body.local_decls, tcx).ty;
                        let nm = match t.kind() {
                            ty::Adt(a, _) => a.variant(*variant_index).name.to_string(),
                            _ => format!("{}", variant_index.as_usize()),
                        };
                        format!(
                            "[\"setd\",{},{},{}]",
                            self.line(s.source_info.span),
                            self.place(place, body),
                            esc(&nm)
                        )
                    }
                    StatementKind::Intrinsic(i) => format!(
                        "[\"intr\",{},{}]",
                        self.line(s.source_info.span),
                        esc(&format!("{i:?}"))
                    ),
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&txt);
            }
            o.push_str("],\"t\":");
            let t = b.terminator();
            let ln = self.line(t.source_info.span);
            let txt = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{},{}]", ln, target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty_ = discr.ty(&body.local_decls, tcx);
                    let ts: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| format!("[{},{}]", v, b.as_usize()))
                        .collect();
                    format!(
                        "[\"switch\",{},{},[{}],{},{}]",
                        ln,
                        self.operand(discr, body, env),
                        ts.join(","),
                        targets.otherwise().as_usize(),
                        esc(&self.tystr(ty_))
                    )
                }
                TerminatorKind::Return => format!("[\"return\",{ln}]"),
                TerminatorKind::Unreachable => format!("[\"unreachable\",{ln}]"),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty_ = place.ty(&body.local_decls, tcx).ty;
                    format!(
                        "[\"drop\",{},{},{},{}]",
                        ln,
                        self.place(place, body),
                        target.as_usize(),
                        esc(&self.tystr(ty_))
                    )
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> =
                        args.iter().map(|x| self.operand(&x.node, body, env)).collect();
                    let m = t.source_info.span.from_expansion();
                    let mac = if m {
                        t.source_info
                            .span
                            .ctxt()
                            .outer_expn_data()
                            .macro_def_id
                            .map(|d| self.path(d))
                            .unwrap_or_default()
                    } else {
                        String::new()
                    };
                    format!(
                        "[\"call\",{},{},[{}],{},{},{}]",
                        ln,
                        self.operand(func, body, env),
                        a.join(","),
                        self.place(destination, body),
                        target.map(|t| t.as_usize() as i64).unwrap_or(-1),
                        esc(&mac)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => format!(
                    "[\"assert\",{},{},{},{},{}]",
                    ln,
                    self.operand(cond, body, env),
                    expected,
                    esc(match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::OverflowNeg(..) => "overflowneg",
                        AssertKind::DivisionByZero(..) => "div0",
                        AssertKind::RemainderByZero(..) => "rem0",
                        _ => "other",
                    }),
                    target.as_usize()
                ),
                _ => format!("[\"otherterm\",{ln}]"),
            };
            o.push_str(&txt);
            if b.is_cleanup {
                o.push_str(",\"cleanup\":true");
            }
            o.push('}');
        }
        o.push(']');
        o
    }
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let d = Dump { tcx };
        let mut o = String::from("{");
        let kind = if tcx.crate_types().iter().any(|c| format!("{c:?}") == "Executable") {
            "bin"
        } else {
            "lib"
        };
        let cname = tcx.crate_name(LOCAL_CRATE).to_string();
        let _ = write!(o, "\"crate\":{},\"kind\":\"{}\"", esc(&cname), kind);
        let ev = tcx.effective_visibilities(());
        // bodies
        o.push_str(",\n\"bodies\":[");
        let mut first = true;
        let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        for k in keys {
            let did = k.to_def_id();
            let dk = tcx.def_kind(did);
            let isfn = matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            if !isfn {
                continue;
            }
            if !first {
                o.push_str(",\n");
            }
            first = false;
            let env = TypingEnv::post_analysis(tcx, did);
            let b: &Body<'tcx> = tcx.optimized_mir(did);
            let (file, line) = d.loc(tcx.def_span(did));
            let mut h = String::from("{");
            let _ = write!(
                h,
                "\"uid\":{},\"path\":{},\"file\":{},\"line\":{},\"kind\":\"{}\"",
                esc(&d.uid(did)),
                esc(&d.path(did)),
                esc(&file),
                line,
                match dk {
                    DefKind::Closure => "closure",
                    DefKind::AssocFn => "assoc",
                    _ => "fn",
                }
            );
            if dk == DefKind::Closure {
                let _ = write!(h, ",\"parent\":{},\"name\":\"\"", esc(&d.uid(tcx.parent(did))));
            } else {
                let _ = write!(h, ",{}", d.assoc(did));
                let sig = tcx.fn_sig(did).skip_binder();
                let _ = write!(
                    h,
                    ",\"unsafe\":{},\"sig\":{}",
                    !sig.safety().is_safe(),
                    esc(&with_no_trimmed_paths!(sig.to_string()))
                );
                let _ = write!(
                    h,
                    ",\"public\":{},\"vis\":{}",
                    ev.is_reachable(k),
                    esc(&format!("{:?}", tcx.visibility(did)))
                );
            }
            let _ = write!(h, ",{}", d.body(b, env));
            h.push_str(",\"promoted\":[");
            for (i, p) in tcx.promoted_mir(did).iter().enumerate() {
                if i > 0 {
                    h.push(',');
                }
                let _ = write!(h, "{{{}}}", d.body(p, env));
            }
            h.push_str("]}");
            o.push_str(&h);
        }
        o.push_str("],\n\"adts\":[");
        let mut first = true;
        let mut impls = String::new();
        let mut statics = String::new();
        let mut traits = String::new();
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    let a = tcx.adt_def(did);
                    let (file, line) = d.loc(tcx.def_span(did));
                    let _ = write!(
                        o,
                        "\n{{\"path\":{},\"file\":{},\"line\":{},\"enum\":{},\"variants\":[",
                        esc(&d.path(did)),
                        esc(&file),
                        line,
                        a.is_enum()
                    );
                    for (vi, v) in a.variants().iter().enumerate() {
                        if vi > 0 {
                            o.push(',');
                        }
                        let fs: Vec<String> = v
                            .fields
                            .iter()
                            .map(|f| {
                                format!(
                                    "[{},{},{}]",
                                    esc(f.name.as_str()),
                                    esc(&d.tystr(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())),
                                    esc(&format!("{:?}", tcx.visibility(f.did)))
                                )
                            })
                            .collect();
                        let _ = write!(o, "[{},[{}]]", esc(v.name.as_str()), fs.join(","));
                    }
                    o.push_str("]}");
                }
                DefKind::Impl { of_trait } => {
                    if !impls.is_empty() {
                        impls.push(',');
                    }
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let tr = if of_trait {
                        let t = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                        (d.path(t.def_id), with_no_trimmed_paths!(t.to_string()))
                    } else {
                        (String::new(), String::new())
                    };
                    let ms: Vec<String> = tcx
                        .associated_items(did)
                        .in_definition_order()
                        .filter(|i| i.is_fn())
                        .map(|i| format!("[{},{}]", esc(i.name().as_str()), esc(&d.uid(i.def_id))))
                        .collect();
                    let _ = write!(
                        impls,
                        "\n{{\"self\":{},\"trait\":{},\"traitref\":{},\"methods\":[{}]}}",
                        esc(&d.tystr(st)),
                        esc(&tr.0),
                        esc(&tr.1),
                        ms.join(",")
                    );
                }
                DefKind::Trait => {
                    if !traits.is_empty() {
                        traits.push(',');
                    }
                    let ms: Vec<String> = tcx
                        .associated_items(did)
                        .in_definition_order()
                        .filter(|i| i.is_fn())
                        .map(|i| {
                            format!(
                                "[{},{},{}]",
                                esc(i.name().as_str()),
                                esc(&d.uid(i.def_id)),
                                i.defaultness(tcx).has_value()
                            )
                        })
                        .collect();
                    let _ = write!(
                        traits,
                        "\n{{\"path\":{},\"methods\":[{}]}}",
                        esc(&d.path(did)),
                        ms.join(",")
                    );
                }
                DefKind::Static { mutability, .. } => {
                    if !statics.is_empty() {
                        statics.push(',');
                    }
                    let (file, line) = d.loc(tcx.def_span(did));
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let env = TypingEnv::fully_monomorphized();
                    let _ = write!(
                        statics,
                        "\n{{\"path\":{},\"mut\":{},\"ty\":{},\"freeze\":{},\"file\":{},\"line\":{}}}",
                        esc(&d.path(did)),
                        mutability.is_mut(),
                        esc(&d.tystr(t)),
                        t.is_freeze(tcx, env),
                        esc(&file),
                        line
                    );
                }
                _ => {}
            }
        }
        let _ = write!(
            o,
            "],\n\"impls\":[{impls}],\n\"traits\":[{traits}],\n\"statics\":[{statics}]}}\n"
        );
        let f = format!("{}/{}.{}.json", self.out, cname, kind);
        std::fs::write(&f, o).unwrap();
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    rustc_driver::catch_with_exit_code(real_main)
}

fn real_main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [wrapper, rustc, args...]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let is_probe = args.iter().any(|a| a == "--print" || a.starts_with("--print=") || a == "-vV" || a == "-V");
    let cname = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    struct Nop;
    impl Callbacks for Nop {}
    if is_probe || out.is_empty() || cname == "build_script_build" {
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
        return;
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir".into());
    args.push("-Awarnings".into());
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
}
