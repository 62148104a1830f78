// MIR extractor: a rustc_private driver used as RUSTC_WORKSPACE_WRAPPER under
// `cargo +nightly check`.  It type-checks the crate exactly as cargo asks, then
// writes the type-resolved, region-erased MIR of every function of the crate
// (and of every callee whose MIR is available and is not on the stop list) as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// Callees never followed: formatting, panics, error tracking, third-party (de)serialisers, allocator.
const STOP: &[&str] = &[
    "core::fmt", "std::fmt", "alloc::fmt", "core::panicking", "std::panicking", "std::rt", "trackable::",
    "serde", "bincode", "tokio", "std::io::", "alloc::alloc", "alloc::raw_vec", "core::alloc", "std::alloc",
    "core::str", "std::str", "alloc::str", "alloc::string", "std::string", "core::unicode", "core::num::flt2dec",
    "core::hash", "std::hash", "core::any", "core::ptr", "std::ptr", "alloc::vec", "std::vec", "std::boxed",
    "alloc::boxed", "core::slice", "std::slice", "core::iter::adapters", "std::iter::adapters",
];

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<String, String>,
    queue: VecDeque<(String, Instance<'tcx>, TypingEnv<'tcx>, String, u32)>,
    queued: HashSet<String>,
    consts: VecDeque<(String, DefId, ty::GenericArgsRef<'tcx>, Option<Promoted>, TypingEnv<'tcx>, String, u32)>,
    cur_root: String,
    cur_env: TypingEnv<'tcx>,
    cur_depth: u32,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(t.to_string())
    }
    fn span(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp0 = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp0.lo());
        let name = match &lo.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_else(|| "?".into()),
            _ => "?".to_string(),
        };
        let mut name = name;
        if let Ok(cwd) = std::env::current_dir() {
            if let Some(s) = name.strip_prefix(&format!("{}/", cwd.display())) {
                name = s.to_string();
            }
        }
        format!("{}:{}", name, lo.line)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.type_ids.get(&t) {
            return i;
        }
        let id = self.types.len();
        self.types.push(String::new());
        self.type_ids.insert(t, id);
        let s = self.tystr(t);
        let body = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":true", i.bit_width().unwrap_or(64)),
            ty::Uint(u) => format!("\"k\":\"int\",\"bits\":{},\"signed\":false", u.bit_width().unwrap_or(64)),
            ty::Float(f) => format!("\"k\":\"float\",\"bits\":{}", f.bit_width()),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Param(p) => format!("\"k\":\"param\",\"name\":{}", esc(p.name.as_str())),
            ty::Ref(_, inner, m) => {
                let i = self.ty(*inner);
                format!("\"k\":\"ref\",\"to\":{},\"mut\":{}", i, m.is_mut())
            }
            ty::RawPtr(inner, m) => {
                let i = self.ty(*inner);
                format!("\"k\":\"ptr\",\"to\":{},\"mut\":{}", i, m.is_mut())
            }
            ty::Slice(e) => {
                let i = self.ty(*e);
                format!("\"k\":\"slice\",\"elem\":{}", i)
            }
            ty::Array(e, n) => {
                let i = self.ty(*e);
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("\"k\":\"array\",\"elem\":{},\"len\":{}", i, n)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"elems\":[{}]", v.join(","))
            }
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                let v: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                self.adt(*def, &p);
                let fields = if def.is_struct() || def.is_enum() {
                    let mut vs = Vec::new();
                    // field types instantiated, only for crate-local types and Option/Result-like enums
                    if def.did().is_local() || p.ends_with("Option") || p.ends_with("Result") || p.ends_with("Poll") {
                        for vd in def.variants() {
                            let mut fs = Vec::new();
                            for f in &vd.fields {
                                let ft = f.ty(self.tcx, args).skip_norm_wip();
                                let ft = self.tcx.try_normalize_erasing_regions(self.cur_env, ty::Unnormalized::new_wip(ft)).unwrap_or(ft);
                                fs.push(self.ty(ft).to_string());
                            }
                            vs.push(format!("[{}]", fs.join(",")));
                        }
                    }
                    format!("[{}]", vs.join(","))
                } else {
                    "[]".to_string()
                };
                format!("\"k\":\"adt\",\"path\":{},\"args\":[{}],\"vfields\":{}", esc(&p), v.join(","), fields)
            }
            ty::FnDef(d, args) => {
                let c = self.callee(*d, args.no_bound_vars().unwrap());
                format!("\"k\":\"fndef\",\"callee\":{}", c)
            }
            ty::Closure(d, args) => {
                let inst = Instance::new_raw(*d, args);
                let key = self.enqueue(inst);
                let caps: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"closure\",\"path\":{},\"key\":{},\"caps\":[{}]", esc(&self.path(*d)), esc(&key), caps.join(","))
            }
            ty::Alias(..) => "\"k\":\"alias\"".to_string(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.types[id] = format!("{{\"id\":{},\"s\":{},{}}}", id, esc(&s), body);
        id
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>, p: &str) {
        if self.adts.contains_key(p) {
            return;
        }
        self.adts.insert(p.to_string(), String::new());
        let mut vs = Vec::new();
        if !def.is_union() {
            for (i, vd) in def.variants().iter_enumerated() {
                let discr = if def.is_enum() { def.discriminant_for_variant(self.tcx, i).val.to_string() } else { "0".into() };
                let fs: Vec<String> = vd.fields.iter().map(|f| {
                    format!("{{\"n\":{},\"pub\":{}}}", esc(f.name.as_str()), f.vis.is_public())
                }).collect();
                vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", esc(vd.name.as_str()), discr, fs.join(",")));
            }
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let s = format!("{{\"kind\":\"{}\",\"local\":{},\"variants\":[{}]}}", kind, def.did().is_local(), vs.join(","));
        self.adts.insert(p.to_string(), s);
    }
    fn inst_key(&self, inst: Instance<'tcx>) -> String {
        let s = with_no_trimmed_paths!(format!("{}", self.tcx.def_path_str_with_args(inst.def_id(), inst.args)));
        let kind = match inst.def {
            InstanceKind::Item(_) => "".to_string(),
            o => format!("{:?}", o).split('(').next().unwrap_or("").to_string(),
        };
        // closures of different functions may print alike: add the raw index
        let extra = format!("{:?}", inst.def_id().index);
        let generic = inst.args.has_param();
        if generic {
            format!("{}|{}|{}|{}", self.cur_root, kind, s, extra)
        } else {
            format!("|{}|{}|{}", kind, s, extra)
        }
    }
    fn enqueue(&mut self, inst: Instance<'tcx>) -> String {
        let key = self.inst_key(inst);
        if !self.queued.contains(&key) {
            self.queued.insert(key.clone());
            self.queue.push_back((key.clone(), inst, self.cur_env, self.cur_root.clone(), self.cur_depth + 1));
        }
        key
    }
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let p = self.path(d);
        let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        let cargs: Vec<String> = args.consts().map(|c| c.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into())).collect();
        let mut tr = "null".to_string();
        let mut has_self = "null".to_string();
        if let Some(t) = tcx.trait_of_assoc(d) {
            tr = esc(&self.path(t));
            has_self = self.ty(args.type_at(0)).to_string();
        }
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let mut key = "null".to_string();
        let mut rpath = "null".to_string();
        let mut rkind = String::from("unresolved");
        let mut rlocal = false;
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let sig = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip().skip_binder();
            let out = tcx.try_normalize_erasing_regions(self.cur_env, ty::Unnormalized::new_wip(sig.output())).unwrap_or(sig.output());
            let rt = self.ty(out);
            let vi = match out.kind() {
                ty::Adt(def, _) => def.variant_index_with_ctor_id(d).as_usize(),
                _ => 0,
            };
            return format!("{{\"path\":{},\"name\":{},\"kind\":\"ctor\",\"ret\":{},\"variant\":{},\"targs\":[{}],\"trait\":null,\"self\":null,\"key\":null,\"rpath\":null,\"local\":false,\"cargs\":[]}}",
                esc(&p), esc(&name), rt, vi, targs.join(","));
        }
        let args_e = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.cur_env, d, args_e) {
            let rp = self.path(inst.def_id());
            rpath = esc(&rp);
            rlocal = inst.def_id().is_local();
            match inst.def {
                InstanceKind::Item(_) => {
                    rkind = "item".into();
                    if self.followable(inst, &rp) {
                        key = esc(&self.enqueue(inst));
                    }
                }
                InstanceKind::Intrinsic(_) => rkind = "intrinsic".into(),
                InstanceKind::Virtual(..) => rkind = "virtual".into(),
                o => {
                    rkind = format!("shim:{}", format!("{:?}", o).split('(').next().unwrap_or(""));
                }
            }
        }
        format!("{{\"path\":{},\"name\":{},\"kind\":{},\"targs\":[{}],\"cargs\":[{}],\"trait\":{},\"self\":{},\"key\":{},\"rpath\":{},\"local\":{}}}",
            esc(&p), esc(&name), esc(&rkind), targs.join(","), cargs.join(","), tr, has_self, key, rpath, rlocal)
    }
    fn followable(&self, inst: Instance<'tcx>, rp: &str) -> bool {
        let d = inst.def_id();
        if d.is_local() {
            return true;
        }
        if self.cur_depth > 7 {
            return false;
        }
        let krate = self.tcx.crate_name(d.krate).to_string();
        if !matches!(krate.as_str(), "core" | "alloc" | "std" | "byteorder") {
            return false;
        }
        let full = format!("{}::{}", krate, rp.splitn(2, "::").nth(1).unwrap_or(""));
        if STOP.iter().any(|s| rp.starts_with(s) || full.starts_with(s)) {
            return false;
        }
        if self.tcx.opt_item_name(d).is_some_and(|n| self.tcx.is_intrinsic(d, n)) {
            return false;
        }
        self.tcx.is_mir_available(d)
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut v = Vec::new();
        let _ = body;
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(n, i) => format!("[\"d\",{},{}]", i.as_usize(), esc(&n.map(|x| x.to_string()).unwrap_or_default())),
                ProjectionElem::OpaqueCast(_) => "[\"oc\"]".to_string(),
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local.as_usize(), v.join(","))
    }
    fn const_op(&mut self, c: &Const<'tcx>) -> String {
        let tcx = self.tcx;
        let t = self.ty(c.ty());
        match c.ty().kind() {
            ty::FnDef(..) => return format!("{{\"c\":\"fn\",\"ty\":{}}}", t),
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(pr) = u.promoted {
                let key = format!("promoted|{}|{}|{:?}|{}", self.cur_root, with_no_trimmed_paths!(tcx.def_path_str_with_args(u.def, u.args)), u.def.index, pr.as_usize());
                if self.queued.insert(key.clone()) {
                    self.consts.push_back((key.clone(), u.def, u.args, Some(pr), self.cur_env, self.cur_root.clone(), self.cur_depth));
                }
                return format!("{{\"c\":\"promoted\",\"key\":{},\"ty\":{}}}", esc(&key), t);
            }
        }
        if let Some(si) = c.try_eval_scalar_int(tcx, self.cur_env) {
            let size = si.size();
            let bits = si.to_bits(size);
            let val: String = match c.ty().kind() {
                ty::Int(_) => size.sign_extend(bits).to_string(),
                _ => bits.to_string(),
            };
            return format!("{{\"c\":\"int\",\"v\":{},\"ty\":{}}}", val, t);
        }
        let mut named = "null".to_string();
        if let Const::Unevaluated(u, _) = c {
            named = esc(&self.path(u.def));
            if u.def.is_local() && !u.args.has_param() || (u.def.is_local() && tcx.is_mir_available(u.def)) {
                let key = format!("const|{}|{}|{:?}", self.cur_root, with_no_trimmed_paths!(tcx.def_path_str_with_args(u.def, u.args)), u.def.index);
                if self.queued.insert(key.clone()) {
                    self.consts.push_back((key.clone(), u.def, u.args, None, self.cur_env, self.cur_root.clone(), self.cur_depth));
                }
                return format!("{{\"c\":\"const\",\"key\":{},\"ty\":{}}}", esc(&key), t);
            }
        }
        if let Ok(v) = c.eval(tcx, self.cur_env, rustc_span::DUMMY_SP) {
            if let ConstValue::ZeroSized = v {
                return format!("{{\"c\":\"zst\",\"ty\":{}}}", t);
            }
            let slicey = c.ty().builtin_deref(true).map_or(false, |t| t.is_str() || t.is_slice());
            if let Some(bytes) = if slicey { v.try_get_slice_bytes_for_diagnostics(tcx) } else { None } {
                let s = String::from_utf8_lossy(bytes).to_string();
                let hex: Vec<String> = bytes.iter().take(64).map(|b| b.to_string()).collect();
                return format!("{{\"c\":\"str\",\"v\":{},\"len\":{},\"bytes\":[{}],\"ty\":{}}}", esc(&s), bytes.len(), hex.join(","), t);
            }
        }
        let txt = with_no_trimmed_paths!(format!("{}", c));
        format!("{{\"c\":\"opaque\",\"v\":{},\"named\":{},\"ty\":{}}}", esc(&txt), named, t)
    }
    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"copy\",\"p\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"o\":\"move\",\"p\":{}}}", self.place(body, p)),
            Operand::Constant(c) => format!("{{\"o\":\"const\",\"v\":{}}}", self.const_op(&c.const_)),
            _ => "{\"o\":\"rtcheck\"}".to_string(),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(body, o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(body, o), n)
            }
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }), self.place(body, p)),
            Rvalue::RawPtr(k, p) => format!("[\"rawptr\",{},{}]", matches!(k, RawPtrKind::Mut), self.place(body, p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"use\",{{\"o\":\"copy\",\"p\":{}}},{}]", self.place(body, p), m.is_mut()),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                let st = o.ty(&body.local_decls, self.tcx);
                let si = self.ty(st);
                format!("[\"cast\",{},{},{},{}]", esc(&ks), self.operand(body, o), si, self.ty(*t))
            }
            Rvalue::BinaryOp(op, ab) => {
                let lt = ab.0.ty(&body.local_decls, self.tcx);
                let lt = self.ty(lt);
                format!("[\"bin\",\"{:?}\",{},{},{}]", op, self.operand(body, &ab.0), self.operand(body, &ab.1), lt)
            }
            Rvalue::UnaryOp(op, o) => {
                let lt = o.ty(&body.local_decls, self.tcx);
                let lt = self.ty(lt);
                format!("[\"un\",\"{:?}\",{},{}]", op, self.operand(body, o), lt)
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                format!("[\"discr\",{},{}]", self.place(body, p), self.ty(t))
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(body, o)).collect();
                let ks = match &**k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, vi, args, _, fi) => {
                        let p = self.path(*d);
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let ti = self.ty(t);
                        format!("[\"adt\",{},{},{},{}]", esc(&p), vi.as_usize(), ti, fi.map(|f| f.as_usize().to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", ks, v.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"o\":\"copy\",\"p\":{}}}]", self.place(body, p)),
            _ => format!("[\"other\",{}]", esc(&format!("{:?}", r))),
        }
    }
    fn body(&mut self, key: &str, root: &str, body: &Body<'tcx>, meta: &str) -> String {
        let mut out = String::new();
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let locals: Vec<String> = body.local_decls.iter_enumerated().map(|(i, l)| {
            let t = self.ty(l.ty);
            format!("[{},{}]", t, names.get(&i.as_usize()).map(|s| esc(s)).unwrap_or("null".into()))
        }).collect();
        let _ = write!(out, "{{\"key\":{},\"root\":{},{}\"span\":{},\"args\":{},\"spread\":{},\"locals\":[{}],\"blocks\":[",
            esc(key), esc(root), meta, esc(&self.span(body.span)), body.arg_count,
            body.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()), locals.join(","));
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 { out.push(','); }
            out.push_str("{\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                let s = match &st.kind {
                    StatementKind::Assign(pr) => {
                        let (p, r) = &**pr;
                        let pt = p.ty(&body.local_decls, self.tcx).ty;
                        format!("[\"=\",{},{},{},{}]", self.place(body, p), self.rvalue(body, r), self.ty(pt), esc(&self.span(st.source_info.span)))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => format!("[\"setdiscr\",{},{}]", self.place(body, place), variant_index.as_usize()),
                    StatementKind::Intrinsic(i) => format!("[\"intr\",{}]", esc(&format!("{:?}", i))),
                    _ => continue,
                };
                if !first { out.push(','); }
                first = false;
                out.push_str(&s);
            }
            out.push_str("],\"t\":");
            let t = bb.terminator();
            let sp = esc(&self.span(t.source_info.span));
            let unsafe_ = false;
            let _ = unsafe_;
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let dt = self.ty(dt);
                    let v: Vec<String> = targets.iter().map(|(x, b)| format!("[{},{}]", x, b.as_usize())).collect();
                    format!("[\"switch\",{},[{}],{},{},{}]", self.operand(body, discr), v.join(","), targets.otherwise().as_usize(), dt, sp)
                }
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, self.tcx).ty;
                    format!("[\"drop\",{},{},{}]", self.place(body, place), target.as_usize(), self.ty(t))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&body.local_decls, self.tcx);
                    let f = match ft.kind() {
                        ty::FnDef(d, a) => self.callee(*d, a.no_bound_vars().unwrap()),
                        _ => format!("{{\"path\":\"<indirect>\",\"name\":\"\",\"kind\":\"indirect\",\"op\":{},\"targs\":[],\"trait\":null,\"self\":null,\"key\":null,\"rpath\":null,\"local\":false,\"cargs\":[]}}", self.operand(body, func)),
                    };
                    let av: Vec<String> = args.iter().map(|a| self.operand(body, &a.node)).collect();
                    let dt = destination.ty(&body.local_decls, self.tcx).ty;
                    let dt = self.ty(dt);
                    format!("[\"call\",{},[{}],{},{},{},{}]", f, av.join(","), self.place(body, destination),
                        target.map(|b| b.as_usize().to_string()).unwrap_or("null".into()), dt, sp)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(_) => "divzero".to_string(),
                        AssertKind::RemainderByZero(_) => "remzero".to_string(),
                        _ => "other".to_string(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.operand(body, cond), expected, esc(&kind), target.as_usize(), sp)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"unwind\"]".to_string(),
                _ => "[\"other\"]".to_string(),
            };
            out.push_str(&ts);
            let _ = write!(out, ",\"cleanup\":{}}}", bb.is_cleanup);
        }
        out.push_str("]}");
        out
    }
}

struct Cb {
    out: String,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx {
            tcx,
            types: vec![],
            type_ids: HashMap::new(),
            adts: HashMap::new(),
            queue: VecDeque::new(),
            queued: HashSet::new(),
            consts: VecDeque::new(),
            cur_root: String::new(),
            cur_env: TypingEnv::fully_monomorphized(),
            cur_depth: 0,
        };
        let mut fns = Vec::new();
        let mut bodies = Vec::new();
        let mut unsafe_blocks = Vec::new();
        for &ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let dk = tcx.def_kind(d);
            if !matches!(dk, DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            if tcx.is_constructor(d) { continue; }
            cx.cur_root = cx.path(d);
            cx.cur_env = TypingEnv::post_analysis(tcx, d);
            cx.cur_depth = 0;
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance::new_raw(d, args);
            let key = cx.enqueue(inst);
            let parent = tcx.parent(d);
            let (mut tr, mut selfty, mut pk) = ("null".to_string(), "null".to_string(), "mod".to_string());
            match tcx.def_kind(parent) {
                DefKind::Impl { of_trait } => {
                    pk = "impl".into();
                    let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                    selfty = cx.ty(tcx.erase_and_anonymize_regions(st)).to_string();
                    if of_trait {
                        let t = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                        tr = esc(&cx.path(t.def_id));
                    }
                }
                DefKind::Trait => {
                    pk = "trait".into();
                    tr = esc(&cx.path(parent));
                }
                _ => {}
            }
            let vis = tcx.visibility(d).is_public();
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            let uns = sig.safety().is_unsafe();
            let from_exp = tcx.def_span(d).from_expansion();
            fns.push(format!("{{\"path\":{},\"name\":{},\"key\":{},\"pk\":\"{}\",\"trait\":{},\"self\":{},\"pub\":{},\"unsafe\":{},\"derived\":{},\"expanded\":{},\"span\":{}}}",
                esc(&cx.cur_root.clone()), esc(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default()), esc(&key), pk, tr, selfty, vis, uns,
                tcx.is_builtin_derived(parent), from_exp, esc(&cx.span(tcx.def_span(d)))));
        }
        // unsafe blocks (THIR is gone by now: use HIR)
        struct V<'a, 'tcx> { tcx: TyCtxt<'tcx>, out: &'a mut Vec<(rustc_span::Span, bool)> }
        impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'a, 'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::All;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
                    self.out.push((b.span, b.span.from_expansion()));
                }
                rustc_hir::intravisit::walk_block(self, b);
            }
        }
        let mut ub = Vec::new();
        {
            let mut v = V { tcx, out: &mut ub };
            tcx.hir_walk_toplevel_module(&mut v);
        }
        for (sp, exp) in ub {
            unsafe_blocks.push(format!("{{\"span\":{},\"expanded\":{}}}", esc(&cx.span(sp)), exp));
        }
        // local impls
        let mut impls = Vec::new();
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if let DefKind::Impl { of_trait } = tcx.def_kind(d) {
                cx.cur_env = TypingEnv::post_analysis(tcx, d);
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let st = cx.ty(tcx.erase_and_anonymize_regions(st));
                let tr = if of_trait { esc(&cx.path(tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip().def_id)) } else { "null".into() };
                let items: Vec<String> = tcx.associated_item_def_ids(d).iter().map(|x| esc(&tcx.opt_item_name(*x).map(|s| s.to_string()).unwrap_or_default())).collect();
                impls.push(format!("{{\"self\":{},\"trait\":{},\"items\":[{}],\"span\":{}}}", st, tr, items.join(","), esc(&cx.span(tcx.def_span(d)))));
            }
        }
        loop {
            if let Some((key, inst, env, root, depth)) = cx.queue.pop_front() {
                cx.cur_root = root.clone();
                cx.cur_env = env;
                cx.cur_depth = depth;
                let d = inst.def_id();
                if !matches!(inst.def, InstanceKind::Item(_)) { continue; }
                if !d.is_local() && !tcx.is_mir_available(d) { continue; }
                let b = tcx.instance_mir(inst.def);
                let b = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, b.clone())) {
                    Ok(b) => b,
                    Err(_) => continue,
                };
                let meta = format!("\"path\":{},\"local\":{},", esc(&cx.path(d)), d.is_local());
                let s = cx.body(&key, &root, &b, &meta);
                bodies.push(s);
                continue;
            }
            if let Some((key, def, args, pr, env, root, depth)) = cx.consts.pop_front() {
                cx.cur_root = root.clone();
                cx.cur_env = env;
                cx.cur_depth = depth;
                let b: Option<mir::Body<'tcx>> = match pr {
                    Some(p) => tcx.promoted_mir(def).get(p).cloned(),
                    None => Some(tcx.mir_for_ctfe(def).clone()),
                };
                if let Some(b) = b {
                    let b = tcx.try_instantiate_and_normalize_erasing_regions(args, env, EarlyBinder::bind(tcx, b));
                    if let Ok(b) = b {
                        let meta = format!("\"path\":{},\"local\":{},\"promoted\":true,", esc(&key), def.is_local());
                        let s = cx.body(&key, &root, &b, &meta);
                        bodies.push(s);
                    }
                }
                continue;
            }
            break;
        }
        let adts: Vec<String> = cx.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let out = format!("{{\"crate\":{},\"fns\":[\n{}\n],\"impls\":[\n{}\n],\"unsafe_blocks\":[{}],\"adts\":{{{}}},\"types\":[\n{}\n],\"bodies\":[\n{}\n]}}\n",
            esc(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str()),
            fns.join(",\n"), impls.join(",\n"), unsafe_blocks.join(","), adts.join(",\n"), cx.types.join(",\n"), bodies.join(",\n"));
        std::fs::write(&self.out, out).expect("write mir dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    args.remove(1);
    args[0] = "rustc".into();
    let out = std::env::var("MIRX_OUT").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "bytecodec") && !out.is_empty();
    if is_target {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Cdebug-assertions=off".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        struct N;
        impl rustc_driver::Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}
