// MIR fact extractor: a rustc_private driver used as RUSTC_WRAPPER under `cargo check`.
// For crates whose manifest lies under $PHX_ROOT it dumps the type-checked program
// (resolved callees, CFGs, places, constants, ADT layouts) as JSON into $PHX_FACTS.
// Every other crate is compiled by the plain rustc.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String { format!("[{}]", v.join(",")) }

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tmap: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, String>,
    adt_queue: Vec<DefId>,
}

impl<'tcx> Dump<'tcx> {
    fn key(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn path(&self, d: DefId) -> String {
        let s = ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d)));
        if d.is_local() { format!("{}::{}", self.tcx.crate_name(LOCAL_CRATE), s) } else { s }
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        ty::print::with_no_visible_paths!(ty::print::with_resolve_crate_name!(ty::print::with_no_trimmed_paths!(t.to_string())))
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        format!("{}:{}", f, lo.line)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tmap.get(&t) { return *i; }
        let i = self.types.len();
        self.types.push(String::new());
        self.tmap.insert(t, i);
        let s = self.tystr(t);
        let d = match *t.kind() {
            ty::Ref(_, inner, m) => { let x = self.ty(inner); format!("{{\"k\":\"ref\",\"m\":{},\"t\":{},\"s\":{}}}", m.is_mut(), x, q(&s)) }
            ty::RawPtr(inner, _) => { let x = self.ty(inner); format!("{{\"k\":\"ptr\",\"t\":{},\"s\":{}}}", x, q(&s)) }
            ty::Adt(def, args) => {
                if !self.adts.contains_key(&def.did()) { self.adts.insert(def.did(), String::new()); self.adt_queue.push(def.did()); }
                let a: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"adt\",\"d\":{},\"a\":{},\"s\":{}}}", q(&self.path(def.did())), arr(a), q(&s))
            }
            ty::Tuple(ts) => { let a: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect(); format!("{{\"k\":\"tuple\",\"a\":{},\"s\":{}}}", arr(a), q(&s)) }
            ty::Array(inner, _) | ty::Slice(inner) => { let x = self.ty(inner); format!("{{\"k\":\"array\",\"t\":{},\"s\":{}}}", x, q(&s)) }
            ty::Int(_) => format!("{{\"k\":\"int\",\"s\":{}}}", q(&s)),
            ty::Uint(_) => format!("{{\"k\":\"uint\",\"s\":{}}}", q(&s)),
            ty::Bool => format!("{{\"k\":\"bool\",\"s\":\"bool\"}}"),
            ty::Closure(d, _) => format!("{{\"k\":\"closure\",\"d\":{},\"s\":{}}}", q(&self.key(d)), q(&s)),
            ty::FnDef(d, args) => {
                let a: Vec<String> = args.no_bound_vars().map(|a| a.types().map(|t| self.ty(t).to_string()).collect()).unwrap_or_default();
                format!("{{\"k\":\"fndef\",\"d\":{},\"p\":{},\"a\":{},\"s\":{}}}", q(&self.key(d)), q(&self.path(d)), arr(a), q(&s))
            }
            ty::Never => format!("{{\"k\":\"never\",\"s\":\"!\"}}"),
            ty::Param(_) => format!("{{\"k\":\"param\",\"s\":{}}}", q(&s)),
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", q(&s)),
        };
        self.types[i] = d;
        i
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut pr = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, _) => {
                    let mut name = format!("{}", f.index());
                    let mut ad = String::from("null");
                    if let ty::Adt(def, _) = pt.ty.kind() {
                        if def.is_struct() || def.is_enum() {
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if let Some(fd) = def.variant(v).fields.get(f) { name = fd.name.to_string(); }
                            if def.is_struct() { ad = q(&self.path(def.did())); let t0 = self.tcx.erase_and_anonymize_regions(pt.ty); self.ty(t0); }
                        }
                    }
                    format!("{{\"f\":{},\"n\":{},\"a\":{}}}", f.index(), q(&name), ad)
                }
                ProjectionElem::Downcast(n, v) => format!("{{\"d\":{},\"n\":{}}}", v.index(), q(&n.map(|x| x.to_string()).unwrap_or_default())),
                ProjectionElem::Index(l) => format!("{{\"i\":{}}}", l.index()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("{{\"c\":[{},{},{}]}}", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("{{\"s\":[{},{},{}]}}", from, to, from_end),
                _ => "\"cast\"".to_string(),
            };
            pr.push(s);
            pt = pt.projection_ty(self.tcx, e);
        }
        format!("[{},{}]", p.local.index(), arr(pr))
    }
    fn callee(&mut self, owner: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, owner);
        let ta: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let mut rd = d;
        let mut rargs = args;
        let mut shim = String::new();
        let nargs = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args)).unwrap_or(args);
        let nargs = tcx.erase_and_anonymize_regions(nargs);
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, nargs) {
                rd = inst.def_id();
                rargs = inst.args;
                if !matches!(inst.def, ty::InstanceKind::Item(_)) { shim = format!("{:?}", inst.def).split('(').next().unwrap_or("").to_string(); }
            }
        }
        let ra: Vec<String> = rargs.types().map(|t| self.ty(t).to_string()).collect();
        let name = tcx.opt_item_name(rd).map(|s| s.to_string()).unwrap_or_default();
        let mut selfty = String::from("null");
        if let Some(imp) = tcx.impl_of_assoc(rd) {
            let st = tcx.type_of(imp).instantiate_identity().skip_normalization();
            selfty = self.ty(st).to_string();
        }
        let tr = tcx.trait_of_assoc(d).map(|t| q(&self.path(t))).unwrap_or("null".into());
        format!("{{\"k\":\"fn\",\"key\":{},\"path\":{},\"name\":{},\"decl\":{},\"self\":{},\"trait\":{},\"ga\":{},\"ra\":{},\"shim\":{},\"expn\":{}}}",
            q(&self.key(rd)), q(&self.path(rd)), q(&name), q(&self.path(d)), selfty, tr, arr(ta), arr(ra), q(&shim),
            tcx.def_span(rd).from_expansion())
    }
    fn constant(&mut self, owner: DefId, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, owner);
        let t = c.const_.ty();
        let ti = self.ty(t);
        if let ty::FnDef(d, args) = *t.kind() { return self.callee(owner, d, args.no_bound_vars().expect("bound")); }
        let mut named = String::from("null");
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted { return format!("{{\"k\":\"promoted\",\"def\":{},\"i\":{},\"t\":{}}}", q(&self.key(u.def)), p.index(), ti); }
            named = q(&self.key(u.def));
        }
        // do not evaluate generic constants
        let val = c.const_.eval(tcx, env, c.span).ok();
        if let Some(v) = val {
            if t.is_integral() || t.is_bool() || t.is_char() {
                if let Some(si) = v.try_to_scalar_int() {
                    let s = match t.kind() { ty::Int(_) => si.to_int(si.size()).to_string(), _ => si.to_bits(si.size()).to_string() };
                    return format!("{{\"k\":\"int\",\"v\":{},\"t\":{},\"named\":{}}}", q(&s), ti, named);
                }
            }
            if let ty::Ref(_, inner, _) = t.kind() {
                if inner.is_str() {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        return format!("{{\"k\":\"str\",\"v\":{},\"t\":{}}}", q(&String::from_utf8_lossy(b)), ti);
                    }
                }
            }
            if named == "null" {
                if let ConstValue::ZeroSized = v { return format!("{{\"k\":\"zst\",\"t\":{}}}", ti); }
                if let Some(si) = v.try_to_scalar_int() { return format!("{{\"k\":\"bits\",\"v\":{},\"t\":{}}}", q(&si.to_bits(si.size()).to_string()), ti); }
            }
        }
        if named != "null" { return format!("{{\"k\":\"named\",\"def\":{},\"t\":{}}}", named, ti); }
        format!("{{\"k\":\"opaque\",\"v\":{},\"t\":{}}}", q(&format!("{:?}", c.const_)), ti)
    }
    fn op(&mut self, owner: DefId, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"cp\",\"p\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"k\":\"mv\",\"p\":{}}}", self.place(body, p)),
            Operand::Constant(c) => self.constant(owner, c),
            Operand::RuntimeChecks(_) => { let b = self.ty(self.tcx.types.bool); format!("{{\"k\":\"int\",\"v\":\"1\",\"t\":{},\"named\":null}}", b) }
        }
    }
    fn rvalue(&mut self, owner: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(owner, body, o)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.op(owner, body, o), q(&n.to_string())),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }), self.place(body, p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"ref\",true,{}]", self.place(body, p)),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let ft = o.ty(&body.local_decls, self.tcx);
                let f = self.ty(ft); let x = self.ty(*t);
                format!("[\"cast\",{},{},{},{}]", q(&format!("{:?}", k)), self.op(owner, body, o), f, x)
            }
            Rvalue::BinaryOp(b, ops) => {
                let t = ops.0.ty(&body.local_decls, self.tcx);
                let ti = self.ty(t);
                format!("[\"bin\",{},{},{},{}]", q(&format!("{:?}", b)), self.op(owner, body, &ops.0), self.op(owner, body, &ops.1), ti)
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", q(&format!("{:?}", u)), self.op(owner, body, o)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                format!("[\"discr\",{},{}]", self.place(body, p), self.ty(t))
            }
            Rvalue::Aggregate(k, ops) => {
                let kind = match &**k {
                    AggregateKind::Array(_) => "{\"k\":\"array\"}".to_string(),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, v, args, _, af) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_normalization();
                        let ti = self.ty(t);
                        format!("{{\"k\":\"adt\",\"d\":{},\"v\":{},\"af\":{},\"t\":{}}}", q(&self.path(*d)), v.index(), af.map(|x| x.index() as i64).unwrap_or(-1), ti)
                    }
                    AggregateKind::Closure(d, _) => format!("{{\"k\":\"closure\",\"d\":{}}}", q(&self.key(*d))),
                    _ => "{\"k\":\"other\"}".to_string(),
                };
                let o: Vec<String> = ops.iter().map(|o| self.op(owner, body, o)).collect();
                format!("[\"agg\",{},{}]", kind, arr(o))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"k\":\"cp\",\"p\":{}}}]", self.place(body, p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"opaque\",{}]", q(&self.key(*d))),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.op(owner, body, o)),
        }
    }
    fn body(&mut self, owner: DefId, body: &Body<'tcx>) -> String {
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(format!("[{},{}]", q(v.name.as_str()), self.place(body, &p)));
            }
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            if !bb.is_cleanup {
                for s in &bb.statements {
                    match &s.kind {
                        StatementKind::Assign(b) => st.push(format!("[\"=\",{},{},{}]", self.place(body, &b.0), self.rvalue(owner, body, &b.1), q(&self.span(s.source_info.span)))),
                        StatementKind::SetDiscriminant { place, variant_index } => st.push(format!("[\"sd\",{},{}]", self.place(body, place), variant_index.index())),
                        _ => {}
                    }
                }
            }
            let t = bb.terminator();
            let sp = q(&self.span(t.source_info.span));
            let ts = if bb.is_cleanup { "[\"unwind\"]".to_string() } else {
                match &t.kind {
                    TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                    TerminatorKind::SwitchInt { discr, targets } => {
                        let dt = discr.ty(&body.local_decls, self.tcx);
                        let ti = self.ty(dt);
                        let v: Vec<String> = targets.iter().map(|(v, b)| {
                            let vs = match dt.kind() {
                                ty::Int(it) => {
                                    let bits = it.bit_width().unwrap_or(64);
                                    let sh = 128 - bits as u32;
                                    (((v << sh) as i128) >> sh).to_string()
                                }
                                _ => v.to_string(),
                            };
                            format!("[{},{}]", q(&vs), b.index())
                        }).collect();
                        format!("[\"switch\",{},{},{},{},{}]", self.op(owner, body, discr), arr(v), targets.otherwise().index(), ti, sp)
                    }
                    TerminatorKind::Return => "[\"return\"]".to_string(),
                    TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                    TerminatorKind::Drop { target, .. } => format!("[\"goto\",{}]", target.index()),
                    TerminatorKind::Call { func, args, destination, target, .. } => {
                        let a: Vec<String> = args.iter().map(|a| self.op(owner, body, &a.node)).collect();
                        let at: Vec<String> = args.iter().map(|a| { let t = a.node.ty(&body.local_decls, self.tcx); self.ty(t).to_string() }).collect();
                        let mac: Vec<String> = t.source_info.span.macro_backtrace().map(|e| q(&format!("{}", e.kind.descr()))).collect();
                        let rt = destination.ty(&body.local_decls, self.tcx).ty;
                        let rti = self.ty(rt);
                        format!("[\"call\",{},{},{},{},{},{},{},{}]", self.op(owner, body, func), arr(a), self.place(body, destination),
                            target.map(|b| b.index() as i64).unwrap_or(-1), sp, arr(at), arr(mac), rti)
                    }
                    TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                        let k = format!("{:?}", msg);
                        let k = match &**msg { AssertKind::Overflow(b, ..) => format!("overflow:{:?}", b), AssertKind::BoundsCheck { .. } => "bounds".into(),
                            AssertKind::OverflowNeg(_) => "overflow:Neg".into(), AssertKind::DivisionByZero(_) => "div0".into(), AssertKind::RemainderByZero(_) => "rem0".into(), _ => k };
                        format!("[\"assert\",{},{},{},{},{}]", self.op(owner, body, cond), expected, q(&k), target.index(), sp)
                    }
                    TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                    TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                    _ => "[\"unwind\"]".to_string(),
                }
            };
            blocks.push(format!("[{},{}]", arr(st), ts));
        }
        format!("{{\"argc\":{},\"locals\":{},\"names\":{},\"blocks\":{}}}", body.arg_count, arr(locals), arr(names), arr(blocks))
    }
    fn run(&mut self, out: &str) {
        let tcx = self.tcx;
        let mut fns = vec![];
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let (k, b): (&str, &Body<'tcx>) = match kind {
                DefKind::Fn | DefKind::AssocFn => ("fn", tcx.optimized_mir(d)),
                DefKind::Closure => ("closure", tcx.optimized_mir(d)),
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => {
                    if tcx.generics_of(d).own_requires_monomorphization() || tcx.generics_of(d).requires_monomorphization(tcx) { continue; }
                    ("const", tcx.mir_for_ctfe(d))
                }
                _ => continue,
            };
            let bs = self.body(d, b);
            let mut prom = vec![];
            if k == "fn" || k == "closure" {
                for pb in tcx.promoted_mir(d).iter() { prom.push(self.body(d, pb)); }
            } else {
                for pb in tcx.promoted_mir(d).iter() { prom.push(self.body(d, pb)); }
            }
            let mut selfty = String::from("null");
            let mut tr = String::from("null");
            if let Some(imp) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(imp).instantiate_identity().skip_normalization();
                selfty = self.ty(st).to_string();
                if let Some(t) = tcx.impl_opt_trait_ref(imp) { tr = q(&self.path(t.skip_binder().def_id)); }
            }
            let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
            let ds = tcx.def_span(d);
            let mac: Vec<String> = ds.macro_backtrace().map(|e| q(&format!("{}", e.kind.descr()))).collect();
            let parent = tcx.opt_parent(d).map(|p| q(&self.key(p))).unwrap_or("null".into());
            fns.push(format!("{{\"key\":{},\"path\":{},\"name\":{},\"kind\":{},\"self\":{},\"trait\":{},\"expn\":{},\"mac\":{},\"parent\":{},\"generic\":{},\"span\":{},\"body\":{},\"promoted\":{}}}",
                q(&self.key(d)), q(&self.path(d)), q(&name), q(k), selfty, tr, ds.from_expansion(), arr(mac), parent,
                tcx.generics_of(d).requires_monomorphization(tcx), q(&self.span(ds)), bs, arr(prom)));
        }
        while let Some(d) = self.adt_queue.pop() {
            let def = tcx.adt_def(d);
            let mut vs = vec![];
            if def.is_enum() || def.is_struct() {
                let discrs: Vec<i128> = if def.is_enum() { def.discriminants(tcx).map(|(_, x)| {
                    let bits = match x.ty.kind() { ty::Int(it) => it.bit_width().unwrap_or(64), ty::Uint(_) => 0, _ => 0 };
                    if bits == 0 { x.val as i128 } else { let sh = 128 - bits as u32; ((x.val << sh) as i128) >> sh }
                }).collect() } else { vec![0] };
                for (i, v) in def.variants().iter().enumerate() {
                    let fs: Vec<String> = v.fields.iter().map(|f| {
                        let t = tcx.type_of(f.did).instantiate_identity().skip_normalization();
                        format!("[{},{}]", q(f.name.as_str()), self.ty(t))
                    }).collect();
                    vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", q(v.name.as_str()), q(&discrs[i].to_string()), arr(fs)));
                }
            }
            let e = format!("{{\"path\":{},\"enum\":{},\"local\":{},\"variants\":{}}}", q(&self.path(d)), def.is_enum(), d.is_local(), arr(vs));
            self.adts.insert(d, e);
        }
        let adts: Vec<String> = self.adts.values().cloned().collect();
        let s = format!("{{\"crate\":{},\"types\":{},\"adts\":{},\"fns\":{}}}", q(tcx.crate_name(LOCAL_CRATE).as_str()), arr(self.types.clone()), arr(adts), arr(fns));
        let tmp = format!("{}.tmp{}", out, std::process::id());
        std::fs::write(&tmp, s).expect("write facts");
        std::fs::rename(&tmp, out).expect("rename facts");
    }
}

struct Cb { out: String }
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let mut d = Dump { tcx, types: vec![], tmap: HashMap::new(), adts: HashMap::new(), adt_queue: vec![] };
        d.run(&format!("{}/{}.json", self.out, tcx.crate_name(LOCAL_CRATE)));
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    // args[0] is the path to rustc (cargo wrapper protocol)
    let root = std::env::var("PHX_ROOT").unwrap_or_default();
    let man = std::env::var("CARGO_MANIFEST_DIR").unwrap_or_default();
    let facts = std::env::var("PHX_FACTS").unwrap_or_default();
    let is_ws = !root.is_empty() && !facts.is_empty() && man.starts_with(&format!("{}/", root)) && args.iter().any(|a| a == "--crate-name")
        && !args.iter().any(|a| a == "build_script_build" || a == "___");
    if !is_ws {
        if let Ok(eth) = std::env::var("PHX_ETHNUM") {
            for a in args.iter_mut() { if a.ends_with("/ethnum-1.5.0/src/lib.rs") { *a = format!("{}/lib.rs", eth); } }
        }
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(&args[0]).args(&args[1..]).exec();
        eprintln!("phx driver: cannot exec rustc: {}", e);
        return std::process::ExitCode::FAILURE;
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir=yes".into());
    args.push("-Awarnings".into());
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb { out: facts }))
}
