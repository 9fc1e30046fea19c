//! rustc driver that dumps the type-checked program (MIR, resolved callees,
//! types) of the `hastur` library as one JSON file.  Nothing of the program is
//! executed: the dump is taken after analysis and compilation stops there.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir;
use rustc_middle::mir::{
    AggregateKind, BasicBlockData, Body, Const, ConstValue, Operand, Place, ProjectionElem, Rvalue,
    StatementKind, TerminatorKind,
};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    ty_ids: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    adts: HashSet<DefId>,
    adt_out: Vec<String>,
    queue: VecDeque<(Instance<'tcx>, usize)>,
    seen: HashSet<Instance<'tcx>>,
    fn_out: Vec<String>,
}

const INLINE_CRATES: &[&str] = &["core", "alloc", "std", "nom"];

fn external_ok(path: &str) -> bool {
    const OK: &[&str] = &[
        "core::option::", "std::option::", "core::result::", "std::result::",
        "core::ops::", "std::ops::", "core::convert::", "std::convert::",
        "core::cmp::", "std::cmp::", "core::mem::replace", "std::mem::replace",
        "core::mem::take", "std::mem::take", "core::mem::swap", "std::mem::swap",
        "core::bool::", "std::bool::", "nom::", "core::iter::", "std::iter::",
        "core::clone::", "std::clone::", "core::borrow::", "std::borrow::",
        "core::default::", "std::default::", "core::num::", "std::num::",
        "core::tuple::", "std::tuple::",
    ];
    // Impl paths look like `<std::option::Option<T> as Trait>::m`
    let p = path.trim_start_matches('<').trim_start_matches('&');
    OK.iter().any(|o| p.starts_with(o))
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let id = self.ty_out.len();
        self.ty_ids.insert(t, id);
        self.ty_out.push(String::new());
        let s = with_no_trimmed_paths!(format!("{}", t));
        let body = match t.kind() {
            ty::Adt(def, args) => {
                let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                self.adt(def.did());
                let p = self.path(def.did());
                format!("\"k\":\"adt\",\"path\":{},\"args\":[{}]", esc(&p), a.join(","))
            }
            ty::Ref(_, inner, m) => {
                let i = self.ty(*inner);
                format!("\"k\":\"ref\",\"mut\":{},\"inner\":{}", m.is_mut(), i)
            }
            ty::RawPtr(inner, m) => {
                let i = self.ty(*inner);
                format!("\"k\":\"ptr\",\"mut\":{},\"inner\":{}", m.is_mut(), i)
            }
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"args\":[{}]", a.join(","))
            }
            ty::Slice(x) => {
                let i = self.ty(*x);
                format!("\"k\":\"slice\",\"inner\":{}", i)
            }
            ty::Array(x, _) => {
                let i = self.ty(*x);
                format!("\"k\":\"array\",\"inner\":{}", i)
            }
            ty::Closure(d, args) => {
                let p = self.path(*d);
                let up: Vec<String> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|x| self.ty(x).to_string())
                    .collect();
                format!("\"k\":\"closure\",\"path\":{},\"args\":[{}]", esc(&p), up.join(","))
            }
            ty::FnDef(d, args) => {
                let p = self.path(*d);
                let args = self.tcx.instantiate_bound_regions_with_erased(*args);
                let callee = self.callee_json(*d, args, TypingEnv::fully_monomorphized(), 99);
                format!("\"k\":\"fndef\",\"path\":{},\"callee\":{}", esc(&p), callee)
            }
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            ty::Param(_) => "\"k\":\"param\"".to_string(),
            ty::Alias(..) => "\"k\":\"alias\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_) | ty::Str => {
                "\"k\":\"prim\"".to_string()
            }
            _ => "\"k\":\"other\"".to_string(),
        };
        self.ty_out[id] = format!("{{\"s\":{},{}}}", esc(&s), body);
        id
    }

    fn adt(&mut self, did: DefId) {
        if !self.adts.insert(did) {
            return;
        }
        let def = self.tcx.adt_def(did);
        let local = did.is_local();
        let mut vs = Vec::new();
        let discrs: Vec<(rustc_abi::VariantIdx, u128)> = if def.is_enum() {
            def.discriminants(self.tcx).map(|(i, d)| (i, d.val)).collect()
        } else {
            Vec::new()
        };
        for (vi, v) in def.variants().iter_enumerated() {
            let d = discrs.iter().find(|x| x.0 == vi).map(|x| x.1).unwrap_or(0);
            let mut fs = Vec::new();
            for f in v.fields.iter() {
                let fty = if local {
                    let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    self.ty(t) as i64
                } else {
                    -1
                };
                let vis = if local {
                    format!("{:?}", self.tcx.visibility(f.did))
                } else {
                    String::new()
                };
                fs.push(format!(
                    "{{\"n\":{},\"t\":{},\"vis\":{}}}",
                    esc(f.name.as_str()),
                    fty,
                    esc(&vis)
                ));
            }
            vs.push(format!(
                "{{\"n\":{},\"d\":{},\"fields\":[{}]}}",
                esc(v.name.as_str()),
                d,
                fs.join(",")
            ));
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let p = self.path(did);
        let sp = self.span(self.tcx.def_span(did));
        self.adt_out.push(format!(
            "{}:{{\"kind\":\"{}\",\"local\":{},\"span\":{},\"variants\":[{}]}}",
            esc(&p), kind, local, sp, vs.join(",")
        ));
    }

    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("[{},{}]", esc(&f), lo.line)
    }

    fn inst_key(&self, i: Instance<'tcx>) -> String {
        with_no_trimmed_paths!(match i.def {
            InstanceKind::Item(d) => self.tcx.def_path_str_with_args(d, i.args),
            k => format!("{:?}@{}", k, self.tcx.def_path_str_with_args(k.def_id(), i.args)),
        })
    }

    fn callee_json(
        &mut self,
        d: DefId,
        args: ty::GenericArgsRef<'tcx>,
        env: TypingEnv<'tcx>,
        depth: usize,
    ) -> String {
        let tcx = self.tcx;
        let raw = self.path(d);
        let targs: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let mut out = format!("\"raw\":{},\"targs\":[{}]", esc(&raw), targs.join(","));
        let is_fn = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..));
        if !is_fn {
            return format!("{{{}}}", out);
        }
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            // tuple constructor used as a function
            let parent = tcx.parent(d);
            let (adt, vidx) = match tcx.def_kind(parent) {
                DefKind::Variant => {
                    let adt = tcx.parent(parent);
                    let def = tcx.adt_def(adt);
                    (adt, def.variant_index_with_id(parent).as_usize())
                }
                _ => (parent, 0),
            };
            self.adt(adt);
            let _ = write!(out, ",\"ctor\":[{},{}]", esc(&self.path(adt)), vidx);
            return format!("{{{}}}", out);
        }
        let args = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
            let rd = inst.def.def_id();
            let rp = self.path(rd);
            let kind = match inst.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Virtual(..) => "virtual",
                InstanceKind::Intrinsic(_) => "intrinsic",
                InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closure_once",
                InstanceKind::Shim(ty::ShimKind::Clone(..)) => "clone_shim",
                InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptr_shim",
                InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => "drop",
                _ => "other",
            };
            let krate = tcx.crate_name(rd.krate).to_string();
            let _ = write!(
                out,
                ",\"res\":{},\"kind\":\"{}\",\"crate\":{}",
                esc(&rp), kind, esc(&krate)
            );
            // Self type for impl methods
            if let Some(imp) = tcx.impl_of_assoc(rd) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let st = with_no_trimmed_paths!(format!("{}", st));
                let _ = write!(out, ",\"selfty\":{}", esc(&st));
                if let Some(tr) = tcx.impl_opt_trait_id(imp) {
                    let _ = write!(out, ",\"trait\":{}", esc(&self.path(tr)));
                }
            } else if let Some(tr) = tcx.trait_of_assoc(rd) {
                let _ = write!(out, ",\"trait\":{}", esc(&self.path(tr)));
            }
            let want = match inst.def {
                InstanceKind::Item(_) => {
                    if rd.krate == LOCAL_CRATE {
                        true
                    } else {
                        depth < 8
                            && INLINE_CRATES.contains(&krate.as_str())
                            && external_ok(&rp)
                            && tcx.is_mir_available(rd)
                    }
                }
                _ => false,
            };
            if want {
                let key = self.inst_key(inst);
                let _ = write!(out, ",\"key\":{}", esc(&key));
                if depth < 99 && self.seen.insert(inst) {
                    let nd = if rd.krate == LOCAL_CRATE { 0 } else { depth + 1 };
                    self.queue.push_back((inst, nd));
                }
            }
        }
        format!("{{{}}}", out)
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut out = format!("[{}", p.local.as_usize());
        let mut cur = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => {
                    let t = self.ty(cur.ty);
                    let _ = write!(out, ",[\"*\",{}]", t);
                }
                ProjectionElem::Field(f, fty) => {
                    let name = match cur.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = cur.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                            if def.is_enum() && cur.variant_index.is_none() {
                                format!("{}", f.as_usize())
                            } else {
                                def.variant(vi).fields[f].name.to_string()
                            }
                        }
                        _ => format!("{}", f.as_usize()),
                    };
                    let ct = self.ty(cur.ty);
                    let ft = self.ty(fty);
                    let _ = write!(out, ",[\"f\",{},{},{},{}]", f.as_usize(), esc(&name), ct, ft);
                }
                ProjectionElem::Downcast(n, v) => {
                    let nm = n.map(|x| x.to_string()).unwrap_or_default();
                    let ct = self.ty(cur.ty);
                    let _ = write!(out, ",[\"v\",{},{},{}]", v.as_usize(), esc(&nm), ct);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(out, ",[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(out, ",[\"c\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(out, ",[\"s\",{},{},{}]", from, to, from_end);
                }
                _ => {
                    let _ = write!(out, ",[\"?\"]");
                }
            }
            cur = cur.projection_ty(tcx, e);
        }
        out.push(']');
        out
    }

    fn constant(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>, span: Span, depth: usize) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let args = self.tcx.instantiate_bound_regions_with_erased(*args);
            let callee = self.callee_json(*d, args, env, depth);
            return format!("{{\"k\":\"fn\",\"callee\":{}}}", callee);
        }
        let tid = self.ty(t);
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                return format!("{{\"k\":\"promoted\",\"idx\":{},\"t\":{}}}", p.as_usize(), tid);
            }
        }
        if let Ok(v) = c.eval(tcx, env, span) {
            return self.const_value(v, t, tid, c);
        }
        let s = with_no_trimmed_paths!(format!("{}", c));
        format!("{{\"k\":\"other\",\"v\":{},\"t\":{}}}", esc(&s), tid)
    }

    fn const_value(&mut self, v: ConstValue, t: Ty<'tcx>, tid: usize, c: &Const<'tcx>) -> String {
        let tcx = self.tcx;
        {
            if let ty::Adt(def, _) = t.kind() {
                if !matches!(v, ConstValue::ZeroSized) || def.is_enum() {
                    if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                        let vi = d.variant.map(|x| x.as_usize()).unwrap_or(0);
                        let path = self.path(def.did());
                        let mut fs = Vec::new();
                        for (fv, ft) in d.fields.iter() {
                            let ftid = self.ty(*ft);
                            fs.push(self.const_value(*fv, *ft, ftid, c));
                        }
                        return format!("{{\"k\":\"adt\",\"path\":{},\"variant\":{},\"fields\":[{}],\"t\":{}}}",
                            esc(&path), vi, fs.join(","), tid);
                    }
                }
            }
            match v {
                ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                    let bits = i.to_bits_unchecked();
                    let val = match t.kind() {
                        ty::Int(_) => format!("{}", i.to_int(i.size())),
                        ty::Bool => format!("{}", bits != 0),
                        ty::Char => esc(&char::from_u32(bits as u32).map(|c| c.to_string()).unwrap_or_default()),
                        _ => format!("{}", bits),
                    };
                    return format!("{{\"k\":\"scalar\",\"v\":{},\"t\":{}}}", val, tid);
                }
                ConstValue::Slice { .. } => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        let s = String::from_utf8_lossy(b);
                        return format!("{{\"k\":\"str\",\"v\":{},\"t\":{}}}", esc(&s), tid);
                    }
                }
                ConstValue::ZeroSized => {
                    return format!("{{\"k\":\"zst\",\"t\":{}}}", tid);
                }
                _ => {}
            }
        }
        let s = with_no_trimmed_paths!(format!("{}", c));
        format!("{{\"k\":\"other\",\"v\":{},\"t\":{}}}", esc(&s), tid)
    }

    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, p)),
            Operand::Constant(c) => {
                format!("[\"k\",{}]", self.constant(&c.const_, env, c.span, depth))
            }
            _ => "[\"k\",{\"k\":\"rtcheck\"}]".to_string(),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(body, o, env, depth)),
            Rvalue::Repeat(o, _) => format!("[\"repeat\",{}]", self.operand(body, o, env, depth)),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, mir::BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(body, p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"raw\",{}]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                format!(
                    "[\"cast\",{},{},{}]",
                    esc(&format!("{:?}", k)),
                    self.operand(body, o, env, depth),
                    t
                )
            }
            Rvalue::BinaryOp(op, ab) => {
                let a = self.operand(body, &ab.0, env, depth);
                let b = self.operand(body, &ab.1, env, depth);
                format!("[\"bin\",\"{:?}\",{},{}]", op, a, b)
            }
            Rvalue::UnaryOp(op, a) => {
                let a = self.operand(body, a, env, depth);
                format!("[\"un\",\"{:?}\",{}]", op, a)
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let t = self.ty(t);
                format!("[\"disc\",{},{}]", self.place(body, p), t)
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(body, o, env, depth)).collect();
                let kk = match &**k {
                    AggregateKind::Adt(d, v, args, _, _) => {
                        self.adt(*d);
                        let def = self.tcx.adt_def(*d);
                        let names: Vec<String> = def
                            .variant(*v)
                            .fields
                            .iter()
                            .map(|f| esc(f.name.as_str()))
                            .collect();
                        let ta: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
                        format!(
                            "[\"adt\",{},{},{},[{}],[{}]]",
                            esc(&self.path(*d)),
                            v.as_usize(),
                            esc(def.variant(*v).name.as_str()),
                            names.join(","),
                            ta.join(",")
                        )
                    }
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Array(_) => "[\"array\"]".into(),
                    AggregateKind::Closure(d, args) => {
                        let inst = Instance::new_raw(*d, self.tcx.erase_and_anonymize_regions(*args));
                        let key = self.inst_key(inst);
                        let ok = d.is_local()
                            || (depth < 8 && external_ok(&self.path(*d)) && self.tcx.is_mir_available(*d));
                        if ok && self.seen.insert(inst) {
                            self.queue.push_back((inst, if d.is_local() { 0 } else { depth + 1 }));
                        }
                        format!("[\"closure\",{},{}]", esc(&key), esc(&self.path(*d)))
                    }
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},[{}]]", kk, os.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(body, p)),
            r => format!("[\"other\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn block(&mut self, body: &Body<'tcx>, b: &BasicBlockData<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let mut st = Vec::new();
        for s in &b.statements {
            match &s.kind {
                StatementKind::Assign(pr) => {
                    let (p, r) = &**pr;
                    let ps = self.place(body, p);
                    let rs = self.rvalue(body, r, env, depth);
                    st.push(format!("[\"=\",{},{},{}]", ps, rs, self.span(s.source_info.span)));
                }
                StatementKind::SetDiscriminant { place, variant_index } => {
                    let ps = self.place(body, place);
                    st.push(format!("[\"disc\",{},{}]", ps, variant_index.as_usize()));
                }
                _ => {}
            }
        }
        let t = b.terminator();
        let sp = self.span(t.source_info.span);
        let ts = match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let d = self.operand(body, discr, env, depth);
                let dt = discr.ty(&body.local_decls, tcx);
                let dt = self.ty(dt);
                let vs: Vec<String> = targets
                    .iter()
                    .map(|(v, b)| format!("[{},{}]", v, b.as_usize()))
                    .collect();
                format!(
                    "[\"switch\",{},{},[{}],{}]",
                    d, dt, vs.join(","), targets.otherwise().as_usize()
                )
            }
            TerminatorKind::Return => "[\"return\"]".into(),
            TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
            TerminatorKind::Drop { place, target, .. } => {
                let p = self.place(body, place);
                let ty = place.ty(&body.local_decls, tcx).ty;
                let ty = self.ty(ty);
                format!("[\"drop\",{},{},{}]", p, target.as_usize(), ty)
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let f = self.operand(body, func, env, depth);
                let a: Vec<String> = args.iter().map(|x| self.operand(body, &x.node, env, depth)).collect();
                let d = self.place(body, destination);
                let dt = destination.ty(&body.local_decls, tcx).ty;
                let dt = self.ty(dt);
                let tg = target.map(|x| x.as_usize() as i64).unwrap_or(-1);
                format!("[\"call\",{},[{}],{},{},{}]", f, a.join(","), d, tg, dt)
            }
            TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                let c = self.operand(body, cond, env, depth);
                let m = format!("{:?}", msg).chars().take(60).collect::<String>();
                format!("[\"assert\",{},{},{},{}]", c, expected, target.as_usize(), esc(&m))
            }
            TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
            TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
            _ => "[\"abort\"]".into(),
        };
        format!("{{\"s\":[{}],\"t\":{},\"sp\":{},\"cl\":{}}}", st.join(","), ts, sp, b.is_cleanup)
    }

    fn body(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        let mut ls = Vec::new();
        for d in body.local_decls.iter() {
            ls.push(self.ty(d.ty).to_string());
        }
        let mut names = Vec::new();
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                let ps = self.place(body, &p);
                names.push(format!("[{},{}]", esc(v.name.as_str()), ps));
            }
        }
        let mut bs = Vec::new();
        for b in body.basic_blocks.iter() {
            bs.push(self.block(body, b, env, depth));
        }
        format!(
            "\"locals\":[{}],\"argc\":{},\"names\":[{}],\"blocks\":[{}]",
            ls.join(","), body.arg_count, names.join(","), bs.join(",")
        )
    }

    fn dump_instance(&mut self, inst: Instance<'tcx>, depth: usize, env: TypingEnv<'tcx>, generic: bool) {
        let tcx = self.tcx;
        let did = inst.def_id();
        let raw = tcx.instance_mir(inst.def);
        let body = if generic {
            raw.clone()
        } else {
            inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, raw.clone()))
        };
        let inner = self.body(&body, env, depth);
        let mut proms = Vec::new();
        if let InstanceKind::Item(d) = inst.def {
            for pb in tcx.promoted_mir(d).iter() {
                let pbody = if generic {
                    pb.clone()
                } else {
                    inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, pb.clone()))
                };
                let s = self.body(&pbody, env, depth);
                proms.push(format!("{{{}}}", s));
            }
        }
        let key = self.inst_key(inst);
        let p = self.path(did);
        let sp = self.span(tcx.def_span(did));
        let mut extra = String::new();
        let dk = tcx.def_kind(did);
        let vis = if did.is_local() && matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            tcx.visibility(did).is_public()
        } else {
            false
        };
        let _ = write!(extra, ",\"pub\":{}", vis);
        if let Some(imp) = tcx.impl_of_assoc(did) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let st = with_no_trimmed_paths!(format!("{}", st));
            let _ = write!(extra, ",\"selfty\":{}", esc(&st));
            if tcx.is_automatically_derived(imp) {
                extra.push_str(",\"derived\":true");
            }
            if let Some(tr) = tcx.impl_opt_trait_id(imp) {
                let _ = write!(extra, ",\"trait\":{}", esc(&self.path(tr)));
            }
        } else if let Some(tr) = tcx.trait_of_assoc(did) {
            let _ = write!(extra, ",\"intrait\":{}", esc(&self.path(tr)));
        }
        if matches!(dk, DefKind::Closure) {
            let par = tcx.typeck_root_def_id(did);
            let _ = write!(extra, ",\"closure_of\":{}", esc(&self.path(par)));
        }
        let krate = tcx.crate_name(did.krate).to_string();
        self.fn_out.push(format!(
            "{}:{{\"path\":{},\"crate\":{},\"generic\":{},\"span\":{}{},{},\"promoted\":[{}]}}",
            esc(&key), esc(&p), esc(&krate), generic, sp, extra, inner, proms.join(",")
        ));
    }
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let mut cx = Cx {
            tcx,
            ty_ids: HashMap::new(),
            ty_out: Vec::new(),
            adts: HashSet::new(),
            adt_out: Vec::new(),
            queue: VecDeque::new(),
            seen: HashSet::new(),
            fn_out: Vec::new(),
        };
        let mut statics = Vec::new();
        let mut unsafes = Vec::new();
        // every local ADT, even if unused
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => cx.adt(d),
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let ti = cx.ty(t);
                    let p = cx.path(d);
                    statics.push(format!(
                        "{{\"path\":{},\"mut\":{},\"t\":{},\"span\":{}}}",
                        esc(&p), mutability.is_mut(), ti, cx.span(tcx.def_span(d))
                    ));
                }
                _ => {}
            }
        }
        let mut impls = Vec::new();
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if let DefKind::Impl { .. } = tcx.def_kind(d) {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let st = with_no_trimmed_paths!(format!("{}", st));
                let tr = tcx.impl_opt_trait_id(d).map(|x| cx.path(x)).unwrap_or_default();
                impls.push(format!(
                    "{{\"self\":{},\"trait\":{},\"span\":{}}}",
                    esc(&st), esc(&tr), cx.span(tcx.def_span(d))
                ));
            }
        }
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            // user-written unsafe blocks
            {
                struct V<'a, 'tcx> {
                    out: &'a mut Vec<Span>,
                    tcx: TyCtxt<'tcx>,
                }
                impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'a, 'tcx> {
                    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                        if let rustc_hir::BlockCheckMode::UnsafeBlock(
                            rustc_hir::UnsafeSource::UserProvided,
                        ) = b.rules
                        {
                            self.out.push(b.span);
                        }
                        let _ = self.tcx;
                        rustc_hir::intravisit::walk_block(self, b);
                    }
                }
                let mut sp = Vec::new();
                let b = tcx.hir_body_owned_by(ld);
                let mut v = V { out: &mut sp, tcx };
                rustc_hir::intravisit::Visitor::visit_body(&mut v, b);
                for s in sp {
                    let p = cx.path(d);
                    unsafes.push(format!("{{\"fn\":{},\"span\":{}}}", esc(&p), cx.span(s)));
                }
            }
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {}
                _ => continue,
            }
            let gens = tcx.generics_of(d);
            if gens.requires_monomorphization(tcx) {
                continue;
            }
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance::new_raw(d, args);
            if cx.seen.insert(inst) {
                cx.queue.push_back((inst, 0));
            }
        }
        let env = TypingEnv::fully_monomorphized();
        while let Some((inst, depth)) = cx.queue.pop_front() {
            cx.dump_instance(inst, depth, env, false);
        }
        // generic local bodies (trait default methods, generic functions), as written
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {}
                _ => continue,
            }
            let gens = tcx.generics_of(d);
            if !gens.requires_monomorphization(tcx) {
                continue;
            }
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let inst = Instance::new_raw(d, args);
            let genv = TypingEnv::post_analysis(tcx, d);
            cx.dump_instance(inst, 99, genv, true);
            // its closures, as written too
            while let Some((c, _)) = cx.queue.pop_front() {
                if matches!(tcx.def_kind(c.def_id()), DefKind::Closure) {
                    cx.dump_instance(c, 99, genv, true);
                }
            }
        }
        let out = format!(
            "{{\"types\":[{}],\"adts\":{{{}}},\"fns\":{{{}}},\"statics\":[{}],\"unsafe\":[{}],\"impls\":[{}]}}",
            cx.ty_out.join(",\n"),
            cx.adt_out.join(",\n"),
            cx.fn_out.join(",\n"),
            statics.join(","),
            unsafes.join(","),
            impls.join(",\n")
        );
        let tmp = format!("{}.tmp{}", self.out, std::process::id());
        std::fs::write(&tmp, out).expect("write facts");
        std::fs::rename(&tmp, &self.out).expect("rename facts");
        rustc_driver::Compilation::Continue
    }
}

struct Nop;
impl rustc_driver::Callbacks for Nop {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    if args.len() > 1 && !args[1].starts_with('-') && args[1].contains("rustc") {
        args.remove(1);
    }
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1].contains("lib"));
    let out = std::env::var("HASTUR_FACTS_OUT").unwrap_or_default();
    if crate_name == "hastur" && !is_test && is_lib && !out.is_empty() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        let mut cb = Cb { out };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
