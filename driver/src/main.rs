//! nkdump: a rustc driver that dumps the (pre-borrowck, promoted) MIR of every body of a
//! workspace crate as JSON, with callees resolved by the type checker, so that the analyses
//! in /verif/nkcheck can decide properties on the type-checked program.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: argv = nkdump <rustc> <rustc args...>.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::BTreeMap;
use std::fmt::Write as _;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

struct Cb {
    out: Option<String>,
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, String>,
    seen_adt: std::collections::HashSet<DefId>,
}

impl<'tcx> D<'tcx> {
    /// Canonical rendering of a type: definition paths, not visible re-export paths, so that
    /// the same type prints the same from every crate.
    fn ty_str(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, args) => {
                let ts: Vec<String> =
                    args.iter().filter_map(|a| a.as_type()).map(|t| self.ty_str(t)).collect();
                if ts.is_empty() {
                    self.path(a.did())
                } else {
                    format!("{}<{}>", self.path(a.did()), ts.join(", "))
                }
            }
            ty::Ref(_, t, m) => {
                format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.ty_str(*t))
            }
            ty::Tuple(ts) => {
                let ts: Vec<String> = ts.iter().map(|t| self.ty_str(t)).collect();
                format!("({})", ts.join(", "))
            }
            ty::Slice(t) => format!("[{}]", self.ty_str(*t)),
            ty::Closure(did, _) => format!("closure:{}", self.path(*did)),
            ty::FnDef(did, _) => format!("fndef:{}", self.path(*did)),
            _ => with_no_trimmed_paths!(format!("{}", t)),
        }
    }

    fn self_ty_name(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.path(a.did()),
            _ => self.ty_str(t),
        }
    }

    fn path(&self, id: DefId) -> String {
        let tcx = self.tcx;
        let kind = tcx.def_kind(id);
        match kind {
            DefKind::Mod if id.is_crate_root() => return tcx.crate_name(id.krate).to_string(),
            DefKind::Closure => {
                let parent = tcx.parent(id);
                let dp = tcx.def_path(id);
                let n = dp.data.last().map(|d| d.disambiguator).unwrap_or(0);
                return format!("{}::{{closure#{}}}", self.path(parent), n);
            }
            DefKind::Ctor(..) => {
                return self.path(tcx.parent(id));
            }
            _ => {}
        }
        if let Some(imp) = tcx.impl_of_assoc(id) {
            let selfty = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let sname = self.self_ty_name(selfty);
            let name = tcx.item_name(id);
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let mut tn = self.path(tr.def_id);
                let extra: Vec<String> = tr
                    .args
                    .iter()
                    .skip(1)
                    .filter_map(|a| a.as_type())
                    .map(|t| self.ty_str(t))
                    .collect();
                if !extra.is_empty() {
                    tn = format!("{}<{}>", tn, extra.join(", "));
                }
                return format!("<{} as {}>::{}", sname, tn, name);
            }
            return format!("{}::{}", sname, name);
        }
        if matches!(kind, DefKind::Impl { .. }) {
            return format!("impl#{:?}", id.index);
        }
        if matches!(kind, DefKind::AnonConst) {
            return format!("{}::{{const}}", self.path(tcx.parent(id)));
        }
        match tcx.opt_item_name(id) {
            Some(n) => match tcx.opt_parent(id) {
                Some(p) => format!("{}::{}", self.path(p), n),
                None => n.to_string(),
            },
            None => format!("{:?}", tcx.def_path_str(id)),
        }
    }

    fn note_adt(&mut self, def: ty::AdtDef<'tcx>) -> String {
        let p = self.path(def.did());
        if self.seen_adt.insert(def.did()) {
            let mut s = String::from("[");
            s.push_str(if def.is_enum() { "\"enum\"" } else { "\"struct\"" });
            let discrs: Vec<u128> = if def.is_enum() {
                def.discriminants(self.tcx).map(|(_, d)| d.val).collect()
            } else {
                vec![0]
            };
            for (i, v) in def.variants().iter().enumerate() {
                let fields: Vec<String> = v.fields.iter().map(|f| esc(f.name.as_str())).collect();
                let _ = write!(
                    s,
                    ",[{},{},[{}]]",
                    esc(v.name.as_str()),
                    discrs.get(i).copied().unwrap_or(0),
                    fields.join(",")
                );
            }
            s.push(']');
            self.adts.insert(p.clone(), s);
        }
        p
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        if depth > 6 {
            return "null".into();
        }
        if let ty::Ref(_, inner, _) = t.kind() {
            if inner.is_str() {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                    return format!("{{\"s\":{}}}", esc(&String::from_utf8_lossy(b)));
                }
            }
            return "null".into();
        }
        match t.kind() {
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char => {
                if let Some(si) = v.try_to_scalar_int() {
                    let size = si.size();
                    if t.is_signed() {
                        return format!("{}", si.to_int(size));
                    }
                    if t.is_bool() {
                        return if si.to_uint(size) != 0 { "true".into() } else { "false".into() };
                    }
                    return format!("{}", si.to_uint(size));
                }
                "null".into()
            }
            ty::Float(ft) if ft.bit_width() == 64 => {
                if let Some(si) = v.try_to_scalar_int() {
                    let x = f64::from_bits(si.to_uint(si.size()) as u64);
                    if x.fract() == 0.0 && x.abs() < 1e15 {
                        return format!("{}", x as i64);
                    }
                    return format!("{{\"s\":{}}}", esc(&format!("{:?}f", x)));
                }
                "null".into()
            }
            ty::Adt(def, _) => {
                let name = self.note_adt(*def);
                if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let vi = d.variant.unwrap_or(rustc_abi::FIRST_VARIANT);
                    let vd = def.variant(vi);
                    let names: Vec<String> =
                        vd.fields.iter().map(|f| f.name.to_string()).collect();
                    let mut fs = vec![];
                    for (i, (fv, ft)) in d.fields.iter().enumerate() {
                        fs.push(format!(
                            "[{},{}]",
                            esc(names.get(i).map(|s| s.as_str()).unwrap_or("?")),
                            self.const_val(*fv, *ft, depth + 1)
                        ));
                    }
                    return format!(
                        "{{\"a\":{},\"v\":{},\"f\":[{}]}}",
                        esc(&name),
                        esc(vd.name.as_str()),
                        fs.join(",")
                    );
                }
                "null".into()
            }
            ty::Tuple(_) | ty::Array(..) => {
                if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let mut fs = vec![];
                    for (fv, ft) in d.fields.iter() {
                        fs.push(self.const_val(*fv, *ft, depth + 1));
                    }
                    return format!("{{\"t\":[{}]}}", fs.join(","));
                }
                "null".into()
            }
            _ => "null".into(),
        }
    }

    fn has_params(&self, t: Ty<'tcx>) -> bool {
        use rustc_middle::ty::TypeVisitableExt;
        t.has_param() || t.has_aliases() || t.has_escaping_bound_vars()
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, owner: DefId, opath: &str) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = String::from("{");
        let _ = write!(o, "\"ty\":{}", esc(&self.ty_str(t)));
        match t.kind() {
            ty::FnDef(did, args) => {
                let args = args.skip_binder();
                let p = self.path(*did);
                let env = TypingEnv::post_analysis(tcx, owner);
                let args_e = tcx.erase_and_anonymize_regions(args);
                let res = Instance::try_resolve(tcx, env, *did, args_e)
                    .ok()
                    .flatten()
                    .map(|i| i.def_id())
                    .map(|d| self.path(d))
                    .unwrap_or_else(|| "?".to_string());
                let ta: Vec<String> = args
                    .iter()
                    .filter_map(|a| a.as_type())
                    .map(|t| esc(&self.ty_str(t)))
                    .collect();
                let ctor = if tcx.is_constructor(*did) {
                    let par = tcx.parent(*did);
                    let (adt, var) = if matches!(tcx.def_kind(par), DefKind::Variant) {
                        (tcx.parent(par), tcx.item_name(par))
                    } else {
                        (par, tcx.item_name(par))
                    };
                    self.note_adt(tcx.adt_def(adt));
                    format!(",\"ctor\":[{},{}]", esc(&self.path(adt)), esc(var.as_str()))
                } else {
                    String::new()
                };
                let _ = write!(
                    o,
                    ",\"fn\":[{},{},[{}]]{}",
                    esc(&p),
                    esc(if res == p { "" } else { &res }),
                    ta.join(","),
                    ctor
                );
            }
            _ => {
                if let Const::Unevaluated(u, _) = c.const_ {
                    if let Some(p) = u.promoted {
                        let _ = write!(
                            o,
                            ",\"pm\":{}",
                            esc(&format!("{}::{{promoted#{}}}", opath, p.as_usize()))
                        );
                    } else {
                        let _ = write!(o, ",\"d\":{}", esc(&self.path(u.def)));
                    }
                }
                if let Const::Unevaluated(mir::UnevaluatedConst { promoted: Some(_), .. }, _) =
                    c.const_
                {
                } else if !self.has_params(t) {
                    let env = TypingEnv::post_analysis(tcx, owner);
                    if let Ok(v) = c.const_.eval(tcx, env, rustc_span::DUMMY_SP) {
                        let s = self.const_val(v, t, 0);
                        if s != "null" {
                            let _ = write!(o, ",\"v\":{}", s);
                        }
                    }
                    if let Some(did) = c.check_static_ptr(tcx) {
                        let _ = write!(o, ",\"st\":{}", esc(&self.path(did)));
                    }
                }
            }
        }
        o.push('}');
        o
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("[{}", p.local.as_usize());
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => o.push_str(",\"*\""),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            self.note_adt(*def);
                            let v = match pt.variant_index {
                                Some(v) => def.variant(v),
                                None => def.non_enum_variant(),
                            };
                            v.fields[f].name.to_string()
                        }
                        ty::Closure(did, _) => did
                            .as_local()
                            .and_then(|l| {
                                tcx.closure_captures(l)
                                    .get(f.as_usize())
                                    .map(|c| c.to_symbol().to_string())
                            })
                            .unwrap_or_else(|| f.as_usize().to_string()),
                        _ => f.as_usize().to_string(),
                    };
                    let _ = write!(o, ",[\"f\",{},{}]", f.as_usize(), esc(&name));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, ",[\"k\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, ",[\"s\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(_, vi) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            self.note_adt(*def);
                            def.variant(vi).name.to_string()
                        }
                        _ => vi.as_usize().to_string(),
                    };
                    let _ = write!(o, ",[\"v\",{}]", esc(&name));
                }
                _ => {}
            }
            pt = pt.projection_ty(tcx, e);
        }
        o.push(']');
        o
    }

    fn operand(&mut self, b: &Body<'tcx>, op: &Operand<'tcx>, owner: DefId, op_: &str) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(b, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(b, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(c, owner, op_)),
            _ => "[\"k\",{\"ty\":\"bool\",\"v\":false}]".into(),
        }
    }

    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>, owner: DefId, op_: &str) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"U\",{}]", self.operand(b, o, owner, op_)),
            Rvalue::Repeat(o, n) => format!(
                "[\"R\",{},{}]",
                self.operand(b, o, owner, op_),
                esc(&format!("{}", n))
            ),
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Mut { .. } => "m",
                    BorrowKind::Fake(_) => "f",
                    _ => "s",
                };
                format!("[\"&\",\"{}\",{}]", m, self.place(b, p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"&\",\"raw\",{}]", self.place(b, p)),
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::IntToInt => "int".to_string(),
                    CastKind::PointerCoercion(c, _) => format!("ptr:{:?}", c),
                    k => format!("{:?}", k),
                };
                format!(
                    "[\"C\",{},{},{}]",
                    esc(&ks),
                    self.operand(b, o, owner, op_),
                    esc(&self.ty_str(*t))
                )
            }
            Rvalue::BinaryOp(k, ops) => format!(
                "[\"B\",\"{:?}\",{},{}]",
                k,
                self.operand(b, &ops.0, owner, op_),
                self.operand(b, &ops.1, owner, op_)
            ),
            Rvalue::UnaryOp(k, o) => {
                format!("[\"N\",\"{:?}\",{}]", k, self.operand(b, o, owner, op_))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, self.tcx).ty;
                let a = match t.kind() {
                    ty::Adt(def, _) => self.note_adt(*def),
                    _ => self.ty_str(t),
                };
                format!("[\"D\",{},{}]", self.place(b, p), esc(&a))
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> =
                    ops.iter().map(|o| self.operand(b, o, owner, op_)).collect();
                let (kind, name, var, fields): (&str, String, String, Vec<String>) = match &**k {
                    AggregateKind::Array(_) => ("arr", "".into(), "".into(), vec![]),
                    AggregateKind::Tuple => ("tup", "".into(), "".into(), vec![]),
                    AggregateKind::Adt(did, vi, _, _, active) => {
                        let def = self.tcx.adt_def(*did);
                        let n = self.note_adt(def);
                        let v = def.variant(*vi);
                        let fs = if let Some(a) = active {
                            vec![v.fields[*a].name.to_string()]
                        } else {
                            v.fields.iter().map(|f| f.name.to_string()).collect()
                        };
                        ("adt", n, v.name.to_string(), fs)
                    }
                    AggregateKind::Closure(did, _) => {
                        let fs = did
                            .as_local()
                            .map(|l| {
                                self.tcx
                                    .closure_captures(l)
                                    .iter()
                                    .map(|c| c.to_symbol().to_string())
                                    .collect()
                            })
                            .unwrap_or_default();
                        ("clo", self.path(*did), "".into(), fs)
                    }
                    k => ("oth", format!("{:?}", k), "".into(), vec![]),
                };
                let fs: Vec<String> = fields.iter().map(|f| esc(f)).collect();
                format!(
                    "[\"A\",\"{}\",{},{},[{}],[{}]]",
                    kind,
                    esc(&name),
                    esc(&var),
                    fs.join(","),
                    os.join(",")
                )
            }
            Rvalue::CopyForDeref(p) => format!("[\"U\",[\"c\",{}]]", self.place(b, p)),
            r => format!("[\"?\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn line(&self, sp: Span) -> usize {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }

    fn body(&mut self, b: &Body<'tcx>, owner: DefId, path: &str, opath: &str, kind: &str) -> String {
        let tcx = self.tcx;
        let sm = tcx.sess.source_map();
        let loc = sm.lookup_char_pos(b.span.source_callsite().lo());
        let file = match &loc.file.name {
            rustc_span::FileName::Real(r) => match r.local_path() {
                Some(p) => p.display().to_string(),
                None => format!("{:?}", r),
            },
            n => format!("{:?}", n),
        };
        let mut names: Vec<Option<String>> = vec![None; b.local_decls.len()];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = Some(v.name.to_string());
                }
            }
        }
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\"p\":{},\"k\":\"{}\",\"f\":{},\"l\":{},\"n\":{},\"loc\":[",
            esc(path),
            kind,
            esc(&file),
            loc.line,
            b.arg_count
        );
        for (i, d) in b.local_decls.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let fl = match d.ty.kind() {
                ty::Ref(_, _, m) => {
                    if m.is_mut() {
                        "m"
                    } else {
                        "r"
                    }
                }
                ty::RawPtr(..) => "p",
                _ => "v",
            };
            let nm = match &names[i] {
                Some(n) => esc(n),
                None => "null".into(),
            };
            let _ = write!(o, "[{},\"{}\",{}]", esc(&self.ty_str(d.ty)), fl, nm);
        }
        o.push_str("],\"b\":[");
        for (bi, bb) in b.basic_blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            if bb.is_cleanup {
                o.push_str("null");
                continue;
            }
            o.push_str("[[");
            let mut first = true;
            for s in &bb.statements {
                let r = match &s.kind {
                    StatementKind::Assign(a) => Some(format!(
                        "[\"=\",{},{},{}]",
                        self.place(b, &a.0),
                        self.rvalue(b, &a.1, owner, opath),
                        self.line(s.source_info.span)
                    )),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(&b.local_decls, tcx).ty;
                        let n = match t.kind() {
                            ty::Adt(def, _) => def.variant(*variant_index).name.to_string(),
                            _ => String::new(),
                        };
                        Some(format!("[\"sd\",{},{}]", self.place(b, place), esc(&n)))
                    }
                    _ => None,
                };
                if let Some(r) = r {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    o.push_str(&r);
                }
            }
            o.push_str("],");
            let t = bb.terminator();
            let line = self.line(t.source_info.span);
            let s = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"g\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty_ = discr.ty(&b.local_decls, tcx);
                    let ts: Vec<String> = targets
                        .iter()
                        .map(|(v, t)| format!("[{},{}]", v, t.as_usize()))
                        .collect();
                    format!(
                        "[\"s\",{},{},[{}],{},{}]",
                        self.operand(b, discr, owner, opath),
                        esc(&self.ty_str(ty_)),
                        ts.join(","),
                        targets.otherwise().as_usize(),
                        line
                    )
                }
                TerminatorKind::Return => "[\"r\"]".into(),
                TerminatorKind::Drop { target, .. } => format!("[\"g\",{}]", target.as_usize()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(b, func, owner, opath);
                    let mut as_ = vec![];
                    let mut fl = vec![];
                    for a in args.iter() {
                        as_.push(self.operand(b, &a.node, owner, opath));
                        let aty = a.node.ty(&b.local_decls, tcx);
                        fl.push(match aty.kind() {
                            ty::Ref(_, _, m) => {
                                if m.is_mut() {
                                    "\"m\""
                                } else {
                                    "\"r\""
                                }
                            }
                            ty::RawPtr(..) => "\"p\"",
                            _ => "\"v\"",
                        });
                    }
                    let dty = destination.ty(&b.local_decls, tcx).ty;
                    let tg = match target {
                        Some(t) => t.as_usize().to_string(),
                        None => "null".into(),
                    };
                    let mac = if t.source_info.span.from_expansion() {
                        let dbg = t.source_info.span.macro_backtrace().any(|e| {
                            e.macro_def_id
                                .map(|m| self.path(m).contains("debug_assert"))
                                .unwrap_or(false)
                        });
                        match t.source_info.span.ctxt().outer_expn_data().macro_def_id {
                            _ if dbg => esc("debug_assert"),
                            Some(m) => esc(&self.path(m)),
                            None => "null".into(),
                        }
                    } else {
                        "null".into()
                    };
                    format!(
                        "[\"c\",{},[{}],[{}],{},{},{},{},{}]",
                        f,
                        as_.join(","),
                        fl.join(","),
                        self.place(b, destination),
                        tg,
                        line,
                        esc(&self.ty_str(dty)),
                        mac
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(..) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(..) => "div0".to_string(),
                        AssertKind::RemainderByZero(..) => "rem0".to_string(),
                        _ => "other".to_string(),
                    };
                    let extra = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(
                            "[{},{}]",
                            self.operand(b, len, owner, opath),
                            self.operand(b, index, owner, opath)
                        ),
                        AssertKind::Overflow(_, l, r) => format!(
                            "[{},{}]",
                            self.operand(b, l, owner, opath),
                            self.operand(b, r, owner, opath)
                        ),
                        _ => "null".into(),
                    };
                    format!(
                        "[\"a\",{},{},{},{},{},{}]",
                        self.operand(b, cond, owner, opath),
                        expected,
                        esc(&m),
                        target.as_usize(),
                        line,
                        extra
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"g\",{}]", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"g\",{}]", real_target.as_usize())
                }
                _ => "[\"u\"]".into(),
            };
            o.push_str(&s);
            o.push(']');
        }
        o.push_str("]}");
        o
    }
}

impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let Some(out) = self.out.clone() else {
            return rustc_driver::Compilation::Continue;
        };
        let owners: Vec<_> = tcx.hir_body_owners().collect();
        let mut bodies: Vec<(DefId, Body<'tcx>, Vec<Body<'tcx>>)> = vec![];
        let mut missed: Vec<DefId> = vec![];
        // Phase 1: snapshot.
        for l in &owners {
            let k = tcx.def_kind(*l);
            match k {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {}
                _ => continue,
            }
            let (b, pr) = tcx.mir_promoted(*l);
            if b.is_stolen() || pr.is_stolen() {
                missed.push(l.to_def_id());
                continue;
            }
            let bb = b.borrow().clone();
            let pp: Vec<Body<'tcx>> = pr.borrow().iter().cloned().collect();
            bodies.push((l.to_def_id(), bb, pp));
        }
        if tcx.dcx().has_errors().is_some() {
            return rustc_driver::Compilation::Continue;
        }
        let mut d = D { tcx, adts: BTreeMap::new(), seen_adt: Default::default() };
        let mut o = String::new();
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let _ = write!(o, "{{\"crate\":{},\"fns\":[\n", esc(&krate));
        let mut first = true;
        let mut emit = |o: &mut String, s: String| {
            if !first {
                o.push_str(",\n");
            }
            first = false;
            o.push_str(&s);
        };
        for (did, b, pr) in &bodies {
            let path = d.path(*did);
            let kind = match tcx.def_kind(*did) {
                DefKind::Closure => "closure",
                DefKind::Fn | DefKind::AssocFn => "fn",
                _ => "const",
            };
            let s = d.body(b, *did, &path, &path, kind);
            emit(&mut o, s);
            for (i, p) in pr.iter().enumerate() {
                let pp = format!("{}::{{promoted#{}}}", path, i);
                let s = d.body(p, *did, &pp, &path, "promoted");
                emit(&mut o, s);
            }
        }
        for did in &missed {
            let path = d.path(*did);
            let b = match tcx.def_kind(*did) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.optimized_mir(*did),
                _ => tcx.mir_for_ctfe(*did),
            };
            let kind = match tcx.def_kind(*did) {
                DefKind::Closure => "closure",
                DefKind::Fn | DefKind::AssocFn => "fn",
                _ => "const",
            };
            let s = d.body(b, *did, &path, &path, kind);
            emit(&mut o, s);
            let pr = tcx.promoted_mir(*did);
            for (i, p) in pr.iter().enumerate() {
                let pp = format!("{}::{{promoted#{}}}", path, i);
                let s = d.body(p, *did, &pp, &path, "promoted");
                emit(&mut o, s);
            }
        }
        o.push_str("\n],\"consts\":{");
        let mut firstc = true;
        for l in &owners {
            if let DefKind::Const { .. } | DefKind::AssocConst { .. } = tcx.def_kind(*l) {
                let t = tcx.type_of(*l).instantiate_identity().skip_norm_wip();
                if d.has_params(t) {
                    continue;
                }
                let v = match tcx.const_eval_poly(l.to_def_id()) {
                    Ok(v) => d.const_val(v, t, 0),
                    Err(_) => "null".into(),
                };
                if !firstc {
                    o.push(',');
                }
                firstc = false;
                let _ = write!(
                    o,
                    "{}:[{},{}]",
                    esc(&d.path(l.to_def_id())),
                    esc(&d.ty_str(t)),
                    v
                );
            }
        }
        o.push_str("},\"unsafe\":[");
        // Attributes of functions: visibility, unsafety, external crates used.
        let mut firstu = true;
        for l in &owners {
            if matches!(tcx.def_kind(*l), DefKind::Fn | DefKind::AssocFn) {
                let sig = tcx.fn_sig(*l).skip_binder();
                if sig.safety().is_unsafe() {
                    if !firstu {
                        o.push(',');
                    }
                    firstu = false;
                    o.push_str(&esc(&d.path(l.to_def_id())));
                }
            }
        }
        o.push_str("],\"adts\":{");
        // All local ADTs, even unused ones.
        for id in tcx.hir_free_items() {
            let did = id.owner_id.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Enum | DefKind::Struct) {
                let def = tcx.adt_def(did);
                d.note_adt(def);
            }
        }
        let adts: Vec<String> = d.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        o.push_str(&adts.join(",\n"));
        o.push_str("},\"fields\":{");
        let mut ff = vec![];
        for id in tcx.hir_free_items() {
            let did = id.owner_id.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Enum | DefKind::Struct) {
                let def = tcx.adt_def(did);
                let mut fs = vec![];
                for v in def.variants() {
                    for f in v.fields.iter() {
                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        fs.push(format!(
                            "[{},{},{}]",
                            esc(v.name.as_str()),
                            esc(f.name.as_str()),
                            esc(&d.ty_str(t))
                        ));
                    }
                }
                ff.push(format!("{}:[{}]", esc(&d.path(did)), fs.join(",")));
            }
        }
        o.push_str(&ff.join(",\n"));
        o.push_str("}}");
        let kinds: Vec<String> =
            tcx.crate_types().iter().map(|t| format!("{:?}", t)).collect();
        let f = format!("{}/{}-{}.json", out, krate, kinds.join("_"));
        let tmp = format!("{}.tmp", f);
        std::fs::write(&tmp, o).expect("write dump");
        std::fs::rename(&tmp, &f).expect("rename dump");
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let is_crate = args.iter().any(|a| a == "--crate-name");
    let build_script = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .map(|n| n == "___" || n.starts_with("build_script"))
        .unwrap_or(true);
    let out = if is_crate && !build_script { std::env::var("NKDUMP_OUT").ok() } else { None };
    let mut cb = Cb { out };
    let code = rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
