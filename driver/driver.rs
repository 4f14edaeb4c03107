// Fact extractor: dumps the (pre-borrowck) MIR of every body of the crate, with resolved callees,
// field names and enum variants, as JSON.  Injected with RUSTC_WORKSPACE_WRAPPER.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;

use rustc_driver::Callbacks;
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::ty;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::Ty;
use rustc_middle::ty::TyCtxt;
use rustc_span::def_id::DefId;
use rustc_span::def_id::LocalDefId;
use rustc_span::hygiene::ExpnKind;
use rustc_span::Span;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: BTreeMap<String, usize>,
    ty_list: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
    fn ty_idx(&mut self, t: Ty<'tcx>) -> usize {
        let mut s = with_no_trimmed_paths!(t.to_string());
        if s.len() > 400 {
            let mut k = 400;
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            s.truncate(k);
        }
        if let Some(i) = self.tys.get(&s) {
            return *i;
        }
        let i = self.ty_list.len();
        self.tys.insert(s.clone(), i);
        self.ty_list.push(s);
        i
    }

    fn uid(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }

    fn plain(&self, d: DefId) -> String {
        // a module-qualified path without impl blocks or generics
        let tcx = self.tcx;
        let mut s = tcx.crate_name(d.krate).to_string();
        for e in tcx.def_path(d).data.iter() {
            let n = e.as_sym(false).to_string();
            s.push_str("::");
            s.push_str(&n);
        }
        s
    }

    fn ty_head(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.plain(a.did()),
            ty::Ref(_, t, _) => format!("&{}", self.ty_head(*t)),
            ty::Slice(t) => format!("[{}]", self.ty_head(*t)),
            ty::Dynamic(p, ..) => match p.principal_def_id() {
                Some(d) => format!("dyn {}", self.plain(d)),
                None => "dyn".to_string(),
            },
            ty::Closure(d, _) | ty::Coroutine(d, _) => self.name(*d),
            _ => {
                let s = with_no_trimmed_paths!(t.to_string());
                s.chars().take(120).collect()
            }
        }
    }

    fn name(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let kind = tcx.def_kind(d);
        let nm = tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or("?".to_string());
        if matches!(kind, DefKind::Closure | DefKind::SyntheticCoroutineBody) {
            let p = tcx.parent(d);
            let dp = tcx.def_path(d);
            let last = dp.data.last().unwrap();
            return format!("{}::{{closure#{}}}", self.name(p), last.disambiguator);
        }
        if let Some(p) = tcx.opt_parent(d) {
            match tcx.def_kind(p) {
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(p).skip_binder();
                    let head = self.ty_head(st);
                    if of_trait {
                        let tr = tcx.impl_trait_ref(p).skip_binder();
                        return format!("<{} as {}>::{}", head, self.plain(tr.def_id), nm);
                    }
                    return format!("{}::{}", head, nm);
                }
                DefKind::Trait => return format!("{}::{}", self.plain(p), nm),
                DefKind::Fn | DefKind::AssocFn => {
                    if let Some(n) = tcx.opt_item_name(d) {
                        return format!("{}::{}", self.name(p), n);
                    }
                }
                _ => {}
            }
        }
        self.plain(d)
    }

    fn span(&self, sp: Span) -> (String, usize, Option<String>) {
        // file:line of the outermost call site; name of the outermost macro
        let mut mac = None;
        for e in sp.macro_backtrace() {
            match e.kind {
                ExpnKind::Macro(_, n) => mac = Some(n.to_string()),
                _ => {}
            }
        }
        let sp2 = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(sp2.lo());
        (format!("{}", loc.file.name.prefer_local_unconditionally()), loc.line, mac)
    }

    fn sp(&self, sp: Span) -> String {
        let (_, l, m) = self.span(sp);
        match m {
            Some(m) => format!("[{},{}]", l, esc(&m)),
            None => format!("[{}]", l),
        }
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut out = vec![format!("{}", p.local.as_u32())];
        let tcx = self.tcx;
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for elem in p.projection.iter() {
            let s = match elem {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, _) => {
                    let (base, fname) = match pty.ty.kind() {
                        ty::Adt(adt, _) => {
                            let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            let v = adt.variant(vi);
                            let n = v.fields.get(f).map(|x| x.name.to_string()).unwrap_or(format!("{}", f.as_u32()));
                            (self.plain(adt.did()), n)
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) | ty::CoroutineClosure(d, _) => {
                            let n = if let Some(ld) = d.as_local() {
                                tcx.closure_captures(ld)
                                    .get(f.as_usize())
                                    .map(|c| c.to_symbol().to_string())
                                    .unwrap_or(format!("{}", f.as_u32()))
                            } else {
                                format!("{}", f.as_u32())
                            };
                            ("^".to_string(), n)
                        }
                        ty::Tuple(_) => ("()".to_string(), format!("{}", f.as_u32())),
                        _ => ("?".to_string(), format!("{}", f.as_u32())),
                    };
                    format!("[\"f\",{},{},{}]", esc(&base), esc(&fname), f.as_u32())
                }
                ProjectionElem::Downcast(_, vi) => {
                    let n = match pty.ty.kind() {
                        ty::Adt(adt, _) if adt.is_enum() => adt.variant(vi).name.to_string(),
                        _ => format!("{}", vi.as_u32()),
                    };
                    format!("[\"v\",{}]", esc(&n))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"ci\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                _ => "[\"o\"]".to_string(),
            };
            out.push(s);
            pty = pty.projection_ty(tcx, elem);
        }
        format!("[{}]", out.join(","))
    }

    fn fn_ref(&mut self, owner: LocalDefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut res = String::from("null");
        let mut tr = String::from("null");
        let k = tcx.def_kind(d);
        if matches!(k, DefKind::AssocFn | DefKind::Fn) {
            if let Some(t) = tcx.trait_of_assoc(d) {
                tr = esc(&self.plain(t));
                let env = ty::TypingEnv::non_body_analysis(tcx, owner.to_def_id());
                let eargs = tcx.erase_and_anonymize_regions(args);
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, eargs) {
                    let rd = inst.def_id();
                    if rd != d {
                        res = format!("[{},{}]", esc(&self.name(rd)), esc(&self.uid(rd)));
                    } else if matches!(inst.def, ty::InstanceKind::Item(_)) {
                        // default body of the trait method itself
                        res = format!("[{},{}]", esc(&self.name(rd)), esc(&self.uid(rd)));
                    } else {
                        res = format!("[{},null]", esc(&format!("{:?}", inst.def).chars().take(60).collect::<String>()));
                    }
                }
            }
        }
        let mut targs = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                targs.push(format!("{}", self.ty_idx(t)));
            }
        }
        // for local closures as generic args, their uid
        let mut cl = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                match t.kind() {
                    ty::Closure(d, _) | ty::Coroutine(d, _) | ty::FnDef(d, _) => cl.push(esc(&self.uid(*d))),
                    _ => {}
                }
            }
        }
        let heads: Vec<String> =
            args.iter().filter_map(|a| a.as_type()).take(1).map(|t| esc(&self.ty_head(t))).collect();
        format!(
            "{{\"n\":{},\"u\":{},\"tr\":{},\"r\":{},\"a\":[{}],\"cl\":[{}],\"h\":{}}}",
            esc(&self.name(d)),
            esc(&self.uid(d)),
            tr,
            res,
            targs.join(","),
            cl.join(","),
            heads.first().cloned().unwrap_or("null".to_string())
        )
    }

    fn constant(&mut self, owner: LocalDefId, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        match t.kind() {
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let f = self.fn_ref(owner, *d, args);
                return format!("[\"fn\",{}]", f);
            }
            _ => {}
        }
        let mut val = with_no_trimmed_paths!(format!("{}", c.const_));
        if val.len() > 160 {
            let mut k = 160;
            while !val.is_char_boundary(k) {
                k -= 1;
            }
            val.truncate(k);
        }
        let def = match c.const_ {
            Const::Unevaluated(u, _) => esc(&self.name(u.def)),
            _ => "null".into(),
        };
        let ti = self.ty_idx(t);
        format!("[\"k\",{},{},{}]", esc(&val), ti, def)
    }

    fn operand(&mut self, owner: LocalDefId, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, p)),
            Operand::Constant(c) => self.constant(owner, c),
            _ => "[\"k\",\"rt\",0,null]".to_string(),
        }
    }

    fn rvalue(&mut self, owner: LocalDefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(owner, body, o)),
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Shared => "shr",
                    _ => "fake",
                };
                format!("[\"ref\",\"{}\",{}]", m, self.place(body, p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",\"mut\",{}]", self.place(body, p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"ref\",\"mut\",{}]", self.place(body, p)),
            Rvalue::Cast(_, o, t) => {
                let ti = self.ty_idx(*t);
                format!("[\"cast\",{},{}]", self.operand(owner, body, o), ti)
            }
            Rvalue::BinaryOp(op, ab) => {
                format!(
                    "[\"bin\",\"{:?}\",{},{}]",
                    op,
                    self.operand(owner, body, &ab.0),
                    self.operand(owner, body, &ab.1)
                )
            }
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(owner, body, a)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let mut m = vec![];
                let mut n = String::from("?");
                if let ty::Adt(adt, _) = t.kind() {
                    n = self.plain(adt.did());
                    if adt.is_enum() {
                        for (vi, d) in adt.discriminants(tcx) {
                            m.push(format!("\"{}\":{}", d.val, esc(adt.variant(vi).name.as_str())));
                        }
                    }
                }
                format!("[\"discr\",{},{},{{{}}}]", self.place(body, p), esc(&n), m.join(","))
            }
            Rvalue::Aggregate(k, ops) => {
                let o = arr(ops.iter().map(|o| self.operand(owner, body, o)).collect::<Vec<_>>());
                let kk = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        let adt = tcx.adt_def(*d);
                        let v = adt.variant(*vi);
                        let names = if let Some(f) = active {
                            arr(vec![esc(v.fields[*f].name.as_str())])
                        } else {
                            arr(v.fields.iter().map(|f| esc(f.name.as_str())))
                        };
                        format!("[\"adt\",{},{},{}]", esc(&self.plain(*d)), esc(v.name.as_str()), names)
                    }
                    AggregateKind::Closure(d, _)
                    | AggregateKind::Coroutine(d, _)
                    | AggregateKind::CoroutineClosure(d, _) => {
                        let w = if matches!(&**k, AggregateKind::Closure(..)) { "closure" } else { "coroutine" };
                        format!("[\"{}\",{}]", w, esc(&self.uid(*d)))
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", kk, o)
            }
            Rvalue::Repeat(o, _) => format!("[\"use\",{}]", self.operand(owner, body, o)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(body, p)),
            _ => "[\"other\"]".to_string(),
        }
    }

    fn body(&mut self, d: LocalDefId, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let did = d.to_def_id();
        let (file, line, mac) = self.span(body.span);
        let sm = tcx.sess.source_map();
        let hi = sm.lookup_char_pos(body.span.source_callsite().hi()).line;
        let kind = match tcx.def_kind(did) {
            DefKind::Closure => {
                if tcx.is_coroutine(did) {
                    "coroutine"
                } else {
                    "closure"
                }
            }
            _ => "fn",
        };
        let mut o = String::new();
        let parent = tcx.opt_parent(did).map(|p| esc(&self.uid(p))).unwrap_or("null".into());
        let mut derived = false;
        let mut implof = "null".to_string();
        let root = tcx.typeck_root_def_id(did);
        if let Some(i) = tcx.impl_of_assoc(root) {
            derived = tcx.is_automatically_derived(i);
            if let Some(t) = tcx.trait_of_assoc(root).or(tcx.impl_opt_trait_ref(i).map(|t| t.skip_binder().def_id)) {
                implof = esc(&self.plain(t));
            }
        }
        let vis = if kind == "fn" {
            let v = tcx.visibility(did);
            match v {
                ty::Visibility::Public => "pub",
                ty::Visibility::Restricted(m) => {
                    if m.is_crate_root() {
                        "crate"
                    } else {
                        "priv"
                    }
                }
            }
        } else {
            "priv"
        };
        let is_async = kind == "fn" && tcx.asyncness(did).is_async();
        let _ = write!(
            o,
            "{{\"uid\":{},\"name\":{},\"kind\":\"{}\",\"parent\":{},\"file\":{},\"line\":{},\"endline\":{},\"mac\":{},\"argc\":{},\"derived\":{},\"trait\":{},\"vis\":\"{}\",\"async\":{},",
            esc(&self.uid(did)),
            esc(&self.name(did)),
            kind,
            parent,
            esc(&file),
            line,
            hi,
            mac.map(|m| esc(&m)).unwrap_or("null".into()),
            body.arg_count,
            derived,
            implof,
            vis,
            is_async
        );
        if kind == "closure" || kind == "coroutine" {
            let caps = tcx.closure_captures(d).iter().map(|c| {
                let by = match c.info.capture_kind {
                    ty::UpvarCapture::ByValue | ty::UpvarCapture::ByUse => "val",
                    ty::UpvarCapture::ByRef(_) => "ref",
                };
                format!("[{},\"{}\"]", esc(c.to_symbol().as_str()), by)
            });
            let _ = write!(o, "\"caps\":{},", arr(caps.collect::<Vec<_>>()));
        }
        let mut names: BTreeMap<u32, String> = BTreeMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_u32(), v.name.to_string());
                }
            }
        }
        let locals = arr(body
            .local_decls
            .iter_enumerated()
            .map(|(l, ld)| {
                let h = esc(&self.ty_head(ld.ty.peel_refs()));
                let t = self.ty_idx(ld.ty);
                match names.get(&l.as_u32()) {
                    Some(n) => format!("[{},{},{}]", t, h, esc(n)),
                    None => format!("[{},{}]", t, h),
                }
            })
            .collect::<Vec<_>>());
        let _ = write!(o, "\"locals\":{},\"blocks\":[", locals);
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_u32() > 0 {
                o.push(',');
            }
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(pr) => {
                        let (p, r) = &**pr;
                        if let Rvalue::Ref(_, BorrowKind::Fake(_), _) = r {
                            continue;
                        }
                        let ps = self.place(body, p);
                        let rs = self.rvalue(d, body, r);
                        st.push(format!("[{},{},{}]", ps, rs, self.sp(s.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let ps = self.place(body, place);
                        st.push(format!(
                            "[{},[\"setd\",{}],{}]",
                            ps,
                            variant_index.as_u32(),
                            self.sp(s.source_info.span)
                        ));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.sp(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ds = self.operand(d, body, discr);
                    let dt = discr.ty(&body.local_decls, tcx);
                    let isb = dt.is_bool();
                    let tg = arr(targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_u32())));
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        ds,
                        tg,
                        targets.otherwise().as_u32(),
                        if isb { "true" } else { "false" }
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreach\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let ps = self.place(body, place);
                    format!("[\"drop\",{},{}]", ps, target.as_u32())
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let fs = self.operand(d, body, func);
                    let a = arr(args.iter().map(|a| self.operand(d, body, &a.node)).collect::<Vec<_>>());
                    let ds = self.place(body, destination);
                    let (_, l, _) = self.span(*fn_span);
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        fs,
                        a,
                        ds,
                        target.map(|t| t.as_u32().to_string()).unwrap_or("null".into()),
                        l
                    )
                }
                TerminatorKind::Assert { target, cond, expected, .. } => {
                    let c = self.operand(d, body, cond);
                    format!("[\"assert\",{},{},{}]", c, expected, target.as_u32())
                }
                TerminatorKind::Yield { resume, .. } => format!("[\"yield\",{}]", resume.as_u32()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".to_string(),
                TerminatorKind::CoroutineDrop => "[\"resume\"]".to_string(),
                _ => "[\"other\"]".to_string(),
            };
            let _ = write!(
                o,
                "{{\"s\":[{}],\"t\":{},\"p\":{}{}}}",
                st.join(","),
                ts,
                sp,
                if bb.is_cleanup { ",\"cl\":1" } else { "" }
            );
        }
        o.push_str("]}");
        o
    }
}

struct Cb;

// Every body is captured when the `mir_built` query computes it: later queries steal it.
thread_local! {
    static BODIES: std::cell::RefCell<std::collections::HashMap<LocalDefId, Box<Body<'static>>>> =
        std::cell::RefCell::new(Default::default());
}
type MirBuilt = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>;
static ORIG: std::sync::OnceLock<MirBuilt> = std::sync::OnceLock::new();

fn my_mir_built<'tcx>(
    tcx: TyCtxt<'tcx>,
    d: LocalDefId,
) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>> {
    let r = (ORIG.get().unwrap())(tcx, d);
    let b: Body<'tcx> = r.borrow().clone();
    // SAFETY: read again only in `after_expansion`, while `tcx` is alive.
    let b: Body<'static> = unsafe { std::mem::transmute(b) };
    BODIES.with(|m| m.borrow_mut().insert(d, Box::new(b)));
    r
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.override_queries = Some(|_s, p| {
            let _ = ORIG.set(p.queries.mir_built);
            p.queries.mir_built = my_mir_built;
        });
    }

    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let dir = match std::env::var("OR_FACTS_DIR") {
            Ok(d) => d,
            Err(_) => return Compilation::Continue,
        };
        let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        if krate.starts_with("build_script") {
            return Compilation::Continue;
        }
        let mut bodies: Vec<(LocalDefId, Body<'tcx>)> = vec![];
        let mut stolen = 0;
        let mut skipped = 0;
        for d in tcx.hir_body_owners() {
            let k = tcx.def_kind(d.to_def_id());
            if !matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody) {
                skipped += 1;
                continue;
            }
            let _ = tcx.mir_built(d);
            let b: Option<Box<Body<'static>>> = BODIES.with(|m| m.borrow_mut().remove(&d));
            let b: Option<Box<Body<'tcx>>> = unsafe { std::mem::transmute(b) };
            match b {
                Some(b) => bodies.push((d, *b)),
                None => stolen += 1,
            }
        }
        let mut cx = Cx { tcx, tys: BTreeMap::new(), ty_list: vec![] };
        let path = format!("{}/{}.json", dir, krate);
        let tmp = format!("{}.{}.tmp", path, std::process::id());
        {
            let f = std::fs::File::create(&tmp).expect("facts file");
            let mut f = std::io::BufWriter::new(f);
            writeln!(f, "{{\"crate\":{},\"stolen\":{},\"skipped\":{},\"bodies\":[", esc(&krate), stolen, skipped).unwrap();
            for (i, (d, b)) in bodies.iter().enumerate() {
                if i > 0 {
                    f.write_all(b",\n").unwrap();
                }
                let s = cx.body(*d, b);
                f.write_all(s.as_bytes()).unwrap();
            }
            f.write_all(b"],\n\"adts\":[").unwrap();
            let mut first = true;
            let mut impls = vec![];
            let mut traits = vec![];
            for id in tcx.hir_crate_items(()).definitions() {
                let did = id.to_def_id();
                match tcx.def_kind(did) {
                    DefKind::Struct | DefKind::Enum => {
                        let adt = tcx.adt_def(did);
                        let vs = arr(adt
                            .variants()
                            .iter()
                            .map(|v| {
                                let fs = arr(v
                                    .fields
                                    .iter()
                                    .map(|f| {
                                        let t = cx.ty_idx(tcx.type_of(f.did).skip_binder());
                                        let vis = match f.vis {
                                            ty::Visibility::Public => "pub",
                                            ty::Visibility::Restricted(m) => {
                                                if m.is_crate_root() {
                                                    "crate"
                                                } else {
                                                    "priv"
                                                }
                                            }
                                        };
                                        format!("[{},{},\"{}\"]", esc(f.name.as_str()), t, vis)
                                    })
                                    .collect::<Vec<_>>());
                                format!("[{},{}]", esc(v.name.as_str()), fs)
                            })
                            .collect::<Vec<_>>());
                        let (file, line, _) = cx.span(tcx.def_span(did));
                        let s = format!(
                            "{}{{\"name\":{},\"kind\":\"{}\",\"file\":{},\"line\":{},\"variants\":{}}}",
                            if first { "" } else { ",\n" },
                            esc(&cx.plain(did)),
                            if adt.is_enum() { "enum" } else { "struct" },
                            esc(&file),
                            line,
                            vs
                        );
                        first = false;
                        f.write_all(s.as_bytes()).unwrap();
                    }
                    DefKind::Impl { of_trait } => {
                        let st = tcx.type_of(did).skip_binder();
                        let tr = if of_trait { esc(&cx.plain(tcx.impl_trait_ref(did).skip_binder().def_id)) } else { "null".into() };
                        let items = arr(tcx
                            .associated_item_def_ids(did)
                            .iter()
                            .filter(|d| matches!(tcx.def_kind(**d), DefKind::AssocFn))
                            .map(|d| format!("[{},{}]", esc(&cx.name(*d)), esc(&cx.uid(*d))))
                            .collect::<Vec<_>>());
                        let (file, line, _) = cx.span(tcx.def_span(did));
                        let self_s = with_no_trimmed_paths!(st.to_string());
                        impls.push(format!(
                            "{{\"self\":{},\"selfty\":{},\"trait\":{},\"items\":{},\"derived\":{},\"file\":{},\"line\":{}}}",
                            esc(&cx.ty_head(st)),
                            esc(&self_s),
                            tr,
                            items,
                            tcx.is_automatically_derived(did),
                            esc(&file),
                            line
                        ));
                    }
                    DefKind::Trait => {
                        let items = arr(tcx
                            .associated_items(did)
                            .in_definition_order()
                            .filter(|a| matches!(a.kind, ty::AssocKind::Fn { .. }))
                            .map(|a| {
                                format!(
                                    "[{},{},{}]",
                                    esc(&cx.name(a.def_id)),
                                    esc(&cx.uid(a.def_id)),
                                    a.defaultness(tcx).has_value()
                                )
                            })
                            .collect::<Vec<_>>());
                        traits.push(format!("{{\"name\":{},\"items\":{}}}", esc(&cx.plain(did)), items));
                    }
                    _ => {}
                }
            }
            writeln!(f, "],\n\"impls\":[{}],\n\"traits\":[{}],", impls.join(",\n"), traits.join(",\n")).unwrap();
            write!(f, "\"tys\":{}}}", arr(cx.ty_list.iter().map(|s| esc(s)))).unwrap();
        }
        std::fs::rename(&tmp, &path).expect("rename");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as: driver <rustc> <args...>
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let code = rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
        std::process::ExitCode::SUCCESS
    });
    std::process::exit(if format!("{:?}", code) == format!("{:?}", std::process::ExitCode::SUCCESS) { 0 } else { 1 });
}
