//! mirdump: a rustc driver that compiles one crate (metadata only), then writes the *monomorphic, resolved* MIR
//! of every function reachable from the crate's own items as JSON lines.  Nothing is executed.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER.  Environment:
//!   MIRDUMP_OUT    output file        MIRDUMP_CRATE  crate to dump (other crates are compiled normally)
//!   MIRDUMP_STOPS  file with path prefixes whose bodies are not followed (they are modelled by the analyser)
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_middle::ty as ity;
use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: std::io::BufWriter<std::fs::File>,
    fns: HashMap<Instance, usize>,
    fnq: VecDeque<(Instance, usize)>,
    tys: HashMap<Ty, usize>,
    tyq: VecDeque<(Ty, usize)>,
    allocs: HashMap<AllocIdKey, usize>,
    allocq: VecDeque<(rustc_public::mir::alloc::AllocId, usize)>,
    stops: Vec<String>,
    methods: Vec<(String, rustc_hir::def_id::DefId)>,
    impl_done: HashSet<Ty>,
    implq: VecDeque<Ty>,
}
type AllocIdKey = String;

impl<'tcx> D<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.tys.len();
        self.tys.insert(t, i);
        self.tyq.push_back((t, i));
        i
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.fns.get(&i) {
            return *x;
        }
        let n = self.fns.len();
        self.fns.insert(i, n);
        self.fnq.push_back((i, n));
        n
    }
    fn alloc(&mut self, a: rustc_public::mir::alloc::AllocId) -> usize {
        let k = format!("{:?}", a);
        if let Some(x) = self.allocs.get(&k) {
            return *x;
        }
        let n = self.allocs.len();
        self.allocs.insert(k, n);
        self.allocq.push_back((a, n));
        n
    }
    fn def_path(&self, i: Instance) -> (String, String, bool) {
        let ii = rustc_internal::internal(self.tcx, i);
        let did = ii.def_id();
        let p = self.tcx.def_path_str(did);
        let krate = self.tcx.crate_name(did.krate).to_string();
        (p, krate, did.is_local())
    }
    fn line(&self, s: Span) -> (String, usize) {
        let l = s.get_lines();
        (s.get_filename(), l.start_line)
    }
    // line of the outermost expansion site
    fn sline(&self, s: Span) -> usize {
        let sp = rustc_internal::internal(self.tcx, s);
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        lo.line
    }
    fn place(&mut self, p: &Place) -> String {
        let mut s = format!("[{},[", p.local);
        for (k, e) in p.projection.iter().enumerate() {
            if k > 0 {
                s.push(',');
            }
            match e {
                ProjectionElem::Deref => s.push_str("[\"*\"]"),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(*t);
                    let _ = write!(s, "[\"f\",{},{}]", i, t);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(s, "[\"i\",{}]", l);
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(s, "[\"c\",{},{},{}]", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(s, "[\"s\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(v) => {
                    let _ = write!(s, "[\"d\",{}]", rustc_internal::internal(self.tcx, *v).as_usize());
                }
                ProjectionElem::OpaqueCast(_) => s.push_str("[\"o\"]"),
            }
        }
        s.push_str("]]");
        s
    }
    fn allocation(&mut self, a: &Allocation) -> String {
        let mut s = String::from("[[");
        for (i, b) in a.bytes.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            match b {
                Some(b) => {
                    let _ = write!(s, "{}", b);
                }
                None => s.push_str("null"),
            }
        }
        s.push_str("],[");
        for (i, (off, p)) in a.provenance.ptrs.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            let id = self.alloc(p.0);
            let _ = write!(s, "[{},{}]", off, id);
        }
        s.push_str("]]");
        s
    }
    fn fn_of_ty(&mut self, t: Ty) -> Option<usize> {
        if let TyKind::RigidTy(RigidTy::FnDef(d, args)) = t.kind() {
            if let Ok(i) = Instance::resolve(d, &args) {
                return Some(self.inst(i));
            }
        }
        None
    }
    fn constant(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        if let TyKind::RigidTy(RigidTy::FnDef(d, ref args)) = t.kind() {
            return match Instance::resolve(d, args) {
                Ok(i) => format!("[\"F\",{},{}]", tid, self.inst(i)),
                Err(_) => format!("[\"F\",{},-1]", tid),
            };
        }
        match c.kind() {
            ConstantKind::Allocated(a) => {
                let s = self.allocation(a);
                format!("[\"A\",{},{}]", tid, s)
            }
            ConstantKind::ZeroSized => format!("[\"Z\",{}]", tid),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => {
                    let s = self.allocation(a);
                    format!("[\"A\",{},{}]", tid, s)
                }
                _ => format!("[\"Z\",{}]", tid),
            },
            _ => format!("[\"U\",{}]", tid),
        }
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(&c.const_)),
            Operand::RuntimeChecks(k) => format!("[\"rc\",{}]", esc(&format!("{:?}", k))),
        }
    }
    fn operands(&mut self, os: &[Operand]) -> String {
        let v: Vec<String> = os.iter().map(|o| self.operand(o)).collect();
        format!("[{}]", v.join(","))
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"ref\",\"raw\",{}]", self.place(p)),
            Rvalue::Ref(_, bk, p) => format!(
                "[\"ref\",{},{}]",
                if matches!(bk, BorrowKind::Shared) { "\"shr\"" } else { "\"mut\"" },
                self.place(p)
            ),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os = self.operands(ops);
                let ks = match k {
                    AggregateKind::Array(t) => format!("[\"arr\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tup\"]".into(),
                    AggregateKind::Adt(d, v, args, _, fi) => {
                        let t = d.ty_with_args(args);
                        let t = self.ty(t);
                        format!(
                            "[\"adt\",{},{},{}]",
                            t,
                            rustc_internal::internal(self.tcx, *v).as_usize(),
                            fi.map(|x| x as i64).unwrap_or(-1)
                        )
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(*d, args.clone());
                        let t = self.ty(t);
                        format!("[\"clo\",{}]", t)
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", ks, os)
            }
            Rvalue::BinaryOp(op, a, b) => {
                format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b))
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                format!("[\"cbin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b))
            }
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(a)),
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.operand(o), t)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => {
                let n = n.eval_target_usize().unwrap_or(0);
                format!("[\"rep\",{},{}]", self.operand(o), n)
            }
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let mut s = String::from("[");
        for (bi, bb) in b.blocks.iter().enumerate() {
            if bi > 0 {
                s.push(',');
            }
            s.push_str("[[");
            let mut first = true;
            for st in &bb.statements {
                let t = match &st.kind {
                    StatementKind::Assign(p, r) => {
                        format!("[\"a\",{},{},{}]", self.place(p), self.rvalue(r), self.sline(st.source_info.span))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!(
                            "[\"sd\",{},{}]",
                            self.place(place),
                            rustc_internal::internal(self.tcx, *variant_index).as_usize()
                        )
                    }
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => format!(
                        "[\"cno\",{},{},{}]",
                        self.operand(&c.src),
                        self.operand(&c.dst),
                        self.operand(&c.count)
                    ),
                    _ => continue,
                };
                if !first {
                    s.push(',');
                }
                first = false;
                s.push_str(&t);
            }
            s.push_str("],");
            let ln = self.sline(bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    format!("[\"sw\",{},[{}],{},{}]", self.operand(discr), br.join(","), targets.otherwise(), ln)
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let di = match place.ty(b.locals()) {
                        Ok(t) => self.ty(t) as i64,
                        Err(_) => -1,
                    };
                    format!("[\"drop\",{},{},{},{}]", self.place(place), target, di, ln)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(b.locals()).ok();
                    let fid = fty.and_then(|t| self.fn_of_ty(t));
                    let callee = match fid {
                        Some(i) => format!("{}", i),
                        None => self.operand(func),
                    };
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        callee,
                        self.operands(args),
                        self.place(destination),
                        target.map(|t| t as i64).unwrap_or(-1),
                        ln
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "BoundsCheck".to_string(),
                        AssertMessage::Overflow(op, _, _) => format!("Overflow({:?})", op),
                        AssertMessage::OverflowNeg(_) => "OverflowNeg".to_string(),
                        AssertMessage::DivisionByZero(_) => "DivisionByZero".to_string(),
                        AssertMessage::RemainderByZero(_) => "RemainderByZero".to_string(),
                        _ => "Other".to_string(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.operand(cond), expected, esc(&m), target, ln)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            s.push_str(&t);
            s.push(']');
        }
        s.push(']');
        s
    }
    fn emit_fn(&mut self, i: Instance, id: usize) {
        let (path, krate, local) = self.def_path(i);
        let name = i.name();
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let ii = rustc_internal::internal(self.tcx, i);
        let shim = match ii.def {
            ity::InstanceKind::Item(_) => String::new(),
            ref d => format!("{:?}", d).split(|c| c == '(' || c == ' ').next().unwrap_or("").to_string(),
        };
        let mut targs = vec![];
        let mut cargs = vec![];
        for a in i.args().0.iter() {
            match a {
                GenericArgKind::Type(t) => {
                    let n = self.ty(*t);
                    targs.push(n.to_string());
                }
                GenericArgKind::Const(c) => {
                    cargs.push(match c.kind() {
                        TyConstKind::Value(_, a) => match a.read_uint() {
                            Ok(v) => v.to_string(),
                            Err(_) => "null".into(),
                        },
                        _ => "null".into(),
                    });
                }
                _ => {}
            }
        }
        let is_closure = self.tcx.is_closure_like(ii.def_id());
        let stopped = self.stops.iter().any(|s| path.starts_with(s.as_str()) || path.strip_prefix('<').map_or(false, |p| p.starts_with(s.as_str())))
            || self.stops.iter().any(|s| s.ends_with("::") && krate == s[..s.len() - 2]);
        let drop_glue = shim == "DropGlue";
        // trait information: which trait method this instance implements (if any)
        let mut tr = String::new();
        let did = ii.def_id();
        if let Some(assoc) = self.tcx.opt_associated_item(did) {
            if let Some(tdid) = assoc.trait_item_def_id() {
                tr = self.tcx.def_path_str(tdid);
            } else if assoc.trait_container(self.tcx).is_some() {
                tr = self.tcx.def_path_str(did);
            }
        }
        let has = !stopped && i.has_body() && !matches!(i.kind, InstanceKind::Virtual { .. });
        {
            for a in i.args().0.iter() {
                if let GenericArgKind::Type(t) = a {
                    if self.impl_done.insert(*t) {
                        self.implq.push_back(*t);
                    }
                }
            }
        }
        let b = if has { i.body() } else { None };
        let is_unsafe = matches!(i.ty().kind(), TyKind::RigidTy(RigidTy::FnDef(..)))
            && format!("{:?}", i.ty().kind().fn_sig().map(|s| s.skip_binder().safety)).contains("Unsafe");
        let vis = if let Some(ld) = did.as_local() {
            if self.tcx.effective_visibilities(()).is_reachable(ld) { "pub" } else { "priv" }
        } else {
            ""
        };
        let ctor: i64 = if matches!(self.tcx.def_kind(did), rustc_hir::def::DefKind::Ctor(..)) {
            let mut ad = self.tcx.parent(did);
            if matches!(self.tcx.def_kind(ad), rustc_hir::def::DefKind::Variant) {
                ad = self.tcx.parent(ad);
            }
            self.tcx.adt_def(ad).variant_index_with_ctor_id(did).as_usize() as i64
        } else {
            -1
        };
        let mut s = format!(
            "[\"fn\",{{\"ctor\":{},\"id\":{},\"name\":{},\"path\":{},\"crate\":{},\"local\":{},\"kind\":\"{}\",\"shim\":{},\"targs\":[{}],\"cargs\":[{}],\"clo\":{},\"stop\":{},\"glue\":{},\"tr\":{},\"vis\":\"{}\",\"unsafe\":{}",
            ctor,
            id,
            esc(&name),
            esc(&path),
            esc(&krate),
            local,
            kind,
            esc(&shim),
            targs.join(","),
            cargs.join(","),
            is_closure,
            stopped,
            drop_glue,
            esc(&tr),
            vis,
            is_unsafe,
        );
        if let Some(b) = b {
            let (f, l) = self.line(b.span);
            let lts: Vec<String> = b.locals().iter().map(|l| l.ty).collect::<Vec<_>>().into_iter().map(|t| self.ty(t).to_string()).collect();
            let mut names = String::from("{");
            let mut firstn = true;
            for v in &b.var_debug_info {
                if let VarDebugInfoContents::Place(p) = &v.value {
                    if p.projection.is_empty() {
                        if !firstn {
                            names.push(',');
                        }
                        firstn = false;
                        let _ = write!(names, "\"{}\":{}", p.local, esc(&v.name.to_string()));
                    }
                }
            }
            names.push('}');
            let blocks = self.body(&b);
            let _ = write!(
                s,
                ",\"file\":{},\"line\":{},\"argc\":{},\"spread\":{},\"locals\":[{}],\"names\":{},\"blocks\":{}",
                esc(&f),
                l,
                b.arg_locals().len(),
                b.spread_arg().map(|x| x as i64).unwrap_or(-1),
                lts.join(","),
                names,
                blocks
            );
        }
        s.push_str("}]\n");
        self.out.write_all(s.as_bytes()).unwrap();
    }
    fn emit_ty(&mut self, t: Ty, id: usize) {
        let mut s = format!("[\"ty\",{{\"id\":{},\"name\":{}", id, esc(&t.to_string()));
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => s.push_str(",\"k\":\"bool\""),
                RigidTy::Char => s.push_str(",\"k\":\"char\""),
                RigidTy::Int(x) => {
                    let _ = write!(s, ",\"k\":\"int\",\"bits\":{}", x.num_bytes() * 8);
                }
                RigidTy::Uint(x) => {
                    let _ = write!(s, ",\"k\":\"uint\",\"bits\":{}", x.num_bytes() * 8);
                }
                RigidTy::Float(x) => {
                    let _ = write!(s, ",\"k\":\"float\",\"bits\":{}", match format!("{:?}", x).as_str() { "F16" => 16, "F32" => 32, "F64" => 64, _ => 128 });
                }
                RigidTy::Adt(d, args) => {
                    let kd = match d.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Union => "union",
                        AdtKind::Struct => "struct",
                    };
                    let path = self.tcx.def_path_str(rustc_internal::internal(self.tcx, d.def_id()));
                    let _ = write!(s, ",\"k\":\"{}\",\"path\":{},\"box\":{},\"args\":[", kd, esc(&path), d.is_box());
                    let mut f = true;
                    for a in args.0.iter() {
                        if let GenericArgKind::Type(t) = a {
                            if !f {
                                s.push(',');
                            }
                            f = false;
                            let n = self.ty(*t);
                            let _ = write!(s, "{}", n);
                        }
                    }
                    s.push_str("],\"variants\":[");
                    for (vi, v) in d.variants().into_iter().enumerate() {
                        if vi > 0 {
                            s.push(',');
                        }
                        let disc = if matches!(d.kind(), AdtKind::Enum) {
                            d.discriminant_for_variant(VariantIdx::to_val(vi)).val
                        } else {
                            0
                        };
                        let _ = write!(s, "[{},{},[", esc(&v.name().to_string()), disc);
                        for (fi, f) in v.fields().into_iter().enumerate() {
                            if fi > 0 {
                                s.push(',');
                            }
                            let ft = f.ty_with_args(&args);
                            let fti = self.tcx.normalize_erasing_regions(
                                ity::TypingEnv::fully_monomorphized(),
                                ity::Unnormalized::new_wip(rustc_internal::internal(self.tcx, ft)),
                            );
                            let ft = rustc_internal::stable(fti);
                            let n = self.ty(ft);
                            let _ = write!(s, "[{},{}]", esc(&f.name.to_string()), n);
                        }
                        s.push_str("]]");
                    }
                    s.push(']');
                }
                RigidTy::Str => s.push_str(",\"k\":\"str\""),
                RigidTy::Array(t, n) => {
                    let n = n.eval_target_usize().unwrap_or(0);
                    let t = self.ty(t);
                    let _ = write!(s, ",\"k\":\"array\",\"elem\":{},\"n\":{}", t, n);
                }
                RigidTy::Slice(t) => {
                    let t = self.ty(t);
                    let _ = write!(s, ",\"k\":\"slice\",\"elem\":{}", t);
                }
                RigidTy::RawPtr(t, m) => {
                    let t = self.ty(t);
                    let _ = write!(s, ",\"k\":\"ptr\",\"elem\":{},\"mut\":{}", t, m == Mutability::Mut);
                }
                RigidTy::Ref(_, t, m) => {
                    let t = self.ty(t);
                    let _ = write!(s, ",\"k\":\"ref\",\"elem\":{},\"mut\":{}", t, m == Mutability::Mut);
                }
                RigidTy::FnDef(d, args) => {
                    let f = match Instance::resolve(d, &args) {
                        Ok(i) => self.inst(i) as i64,
                        Err(_) => -1,
                    };
                    let _ = write!(s, ",\"k\":\"fndef\",\"fn\":{}", f);
                }
                RigidTy::FnPtr(_) => s.push_str(",\"k\":\"fnptr\""),
                RigidTy::Closure(d, args) => {
                    let it = rustc_internal::internal(self.tcx, t);
                    let (up, ck) = match it.kind() {
                        ity::TyKind::Closure(_, a) => {
                            let a = a.as_closure();
                            (a.upvar_tys().iter().collect::<Vec<_>>(), a.kind())
                        }
                        _ => (vec![], ity::ClosureKind::Fn),
                    };
                    let sk = match ck {
                        ity::ClosureKind::Fn => ClosureKind::Fn,
                        ity::ClosureKind::FnMut => ClosureKind::FnMut,
                        ity::ClosureKind::FnOnce => ClosureKind::FnOnce,
                    };
                    let ups: Vec<String> = up
                        .into_iter()
                        .map(|u| {
                            let u = rustc_internal::stable(u);
                            self.ty(u).to_string()
                        })
                        .collect();
                    let f = match Instance::resolve_closure(d, &args, sk) {
                        Ok(i) => self.inst(i) as i64,
                        Err(_) => -1,
                    };
                    let _ = write!(s, ",\"k\":\"closure\",\"fn\":{},\"ck\":\"{:?}\",\"up\":[{}]", f, ck, ups.join(","));
                }
                RigidTy::Dynamic(..) => s.push_str(",\"k\":\"dyn\""),
                RigidTy::Never => s.push_str(",\"k\":\"never\""),
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    let _ = write!(s, ",\"k\":\"tuple\",\"elems\":[{}]", v.join(","));
                }
                RigidTy::Pat(t, _) => {
                    let t = self.ty(t);
                    let _ = write!(s, ",\"k\":\"pat\",\"elem\":{}", t);
                }
                _ => s.push_str(",\"k\":\"other\""),
            },
            _ => s.push_str(",\"k\":\"other\""),
        }
        if let ity::TyKind::Adt(ad, aargs) = rustc_internal::internal(self.tcx, t).kind() {
            if ad.did().is_local() {
                if let Some(de) = self.tcx.adt_destructor(ad.did()) {
                    let i = ity::Instance::expect_resolve(self.tcx, ity::TypingEnv::fully_monomorphized(), de.did, aargs, rustc_span::DUMMY_SP);
                    let id = self.inst(rustc_internal::stable(i));
                    let _ = write!(s, ",\"dropimpl\":{}", id);
                }
            }
        }
        if let Ok(l) = t.layout() {
            let sh = l.shape();
            if sh.is_sized() {
                let _ = write!(s, ",\"size\":{},\"align\":{}", sh.size.bytes(), sh.abi_align);
                if let FieldsShape::Arbitrary { offsets } = &sh.fields {
                    let v: Vec<String> = offsets.iter().map(|o| o.bytes().to_string()).collect();
                    let _ = write!(s, ",\"off\":[{}]", v.join(","));
                }
                match &sh.variants {
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let tf = match &sh.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                            _ => 0,
                        };
                        let tdbg = format!("{:?}", tag);
                        let tsz = if tdbg.contains("length: I8") { 1 } else if tdbg.contains("length: I16") { 2 } else if tdbg.contains("length: I32") { 4 } else { 8 };
                        let vo: Vec<String> = variants
                            .iter()
                            .map(|v| format!("[{}]", v.offsets.iter().map(|o| o.bytes().to_string()).collect::<Vec<_>>().join(",")))
                            .collect();
                        let enc = match tag_encoding {
                            TagEncoding::Direct => "[\"direct\"]".to_string(),
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => format!(
                                "[\"niche\",{},{},{},{}]",
                                rustc_internal::internal(self.tcx, *untagged_variant).as_usize(),
                                rustc_internal::internal(self.tcx, *niche_variants.start()).as_usize(),
                                rustc_internal::internal(self.tcx, *niche_variants.end()).as_usize(),
                                niche_start
                            ),
                        };
                        let _ = write!(s, ",\"tag\":[{},{},{}],\"voff\":[{}]", tf, tsz, enc, vo.join(","));
                    }
                    VariantsShape::Single { index } => {
                        let _ = write!(s, ",\"single\":{}", rustc_internal::internal(self.tcx, *index).as_usize());
                    }
                    _ => {}
                }
            }
        }
        s.push_str("}]\n");
        self.out.write_all(s.as_bytes()).unwrap();
    }
    fn emit_alloc(&mut self, a: rustc_public::mir::alloc::AllocId, id: usize) {
        let s = match GlobalAlloc::from(a) {
            GlobalAlloc::Function(i) => format!("[\"alloc\",{},[\"fn\",{}]]\n", id, self.inst(i)),
            GlobalAlloc::Static(d) => {
                let t = self.ty(d.ty());
                let m = match d.eval_initializer() {
                    Ok(a) => self.allocation(&a),
                    Err(_) => "null".into(),
                };
                format!("[\"alloc\",{},[\"static\",{},{},{}]]\n", id, esc(&d.name()), t, m)
            }
            GlobalAlloc::Memory(m) => {
                let m = self.allocation(&m);
                format!("[\"alloc\",{},[\"mem\",{}]]\n", id, m)
            }
            GlobalAlloc::VTable(t, _) => {
                let t = self.ty(t);
                format!("[\"alloc\",{},[\"vtable\",{}]]\n", id, t)
            }
            _ => format!("[\"alloc\",{},[\"other\"]]\n", id),
        };
        self.out.write_all(s.as_bytes()).unwrap();
    }
    fn emit_impls(&mut self, t: Ty) {
        let it = rustc_internal::internal(self.tcx, t);
        if matches!(it.kind(), ity::TyKind::Dynamic(..) | ity::TyKind::Str | ity::TyKind::Slice(_) | ity::TyKind::Never) {
            return;
        }
        let env = ity::TypingEnv::fully_monomorphized();
        let mut v = vec![];
        let local_ty = match it.kind() {
            ity::TyKind::Adt(d, _) => d.did().is_local(),
            ity::TyKind::Closure(d, _) => d.is_local(),
            _ => false,
        };
        for (n, did) in self.methods.clone() {
            let always = matches!(n.as_str(), "next" | "next_back" | "into_iter" | "read" | "read_exact" | "write" | "write_all" | "flush");
            if !always && !local_ty {
                continue;
            }
            let gens = self.tcx.generics_of(did);
            if gens.own_requires_monomorphization() {
                continue;
            }
            let parent = self.tcx.generics_of(self.tcx.parent(did));
            let nparams = parent.own_params.len();
            let args = if nparams == 1 {
                self.tcx.mk_args(&[it.into()])
            } else {
                self.tcx.mk_args(&[it.into(), it.into()])
            };
            if let Ok(Some(i)) = ity::Instance::try_resolve(self.tcx, env, did, args) {
                let si = rustc_internal::stable(i);
                let id = self.inst(si);
                v.push(format!("[{},{}]", esc(&n), id));
            }
        }
        if !v.is_empty() {
            let id = self.ty(t);
            let s = format!("[\"impls\",{},[{}]]\n", id, v.join(","));
            self.out.write_all(s.as_bytes()).unwrap();
        }
    }
    fn drain(&mut self) {
        loop {
            if let Some((i, id)) = self.fnq.pop_front() {
                self.emit_fn(i, id);
            } else if let Some(t) = self.implq.pop_front() {
                self.emit_impls(t);
            } else if let Some((t, id)) = self.tyq.pop_front() {
                self.emit_ty(t, id);
            } else if let Some((a, id)) = self.allocq.pop_front() {
                self.emit_alloc(a, id);
            } else {
                break;
            }
        }
    }
}

fn dump(tcx: TyCtxt<'_>) -> ControlFlow<()> {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let stops = std::env::var("MIRDUMP_STOPS")
        .ok()
        .and_then(|p| std::fs::read_to_string(p).ok())
        .unwrap_or_default()
        .lines()
        .map(|l| l.trim().to_string())
        .filter(|l| !l.is_empty() && !l.starts_with('#'))
        .collect();
    let mut methods = vec![];
    for (tr, ms) in [
        ("core::iter::Iterator", vec!["next"]),
        ("core::iter::DoubleEndedIterator", vec!["next_back"]),
        ("core::iter::IntoIterator", vec!["into_iter"]),
        ("std::io::Read", vec!["read", "read_exact"]),
        ("std::io::Write", vec!["write", "write_all", "flush"]),
        ("core::clone::Clone", vec!["clone"]),
        ("core::cmp::PartialEq", vec!["eq"]),
        ("core::cmp::PartialOrd", vec!["partial_cmp", "lt", "le", "gt", "ge"]),
        ("core::cmp::Ord", vec!["cmp"]),
        ("core::default::Default", vec!["default"]),
    ] {
        for td in tcx.all_traits_including_private() {
            let p = tcx.def_path_str(td);
            let cn = tcx.crate_name(td.krate).to_string();
            let full = p.clone();
            let last = tr.rsplit("::").next().unwrap();
            if (cn == "core" || cn == "std") && full.rsplit("::").next() == Some(last) && (full == tr || full == tr.replace("core::", "std::")) {
                for m in &ms {
                    for ai in tcx.associated_items(td).in_definition_order() {
                        if ai.opt_name().map(|s| s.to_string()) == Some(m.to_string()) {
                            methods.push((m.to_string(), ai.def_id));
                        }
                    }
                }
            }
        }
    }
    let mut d = D {
        tcx,
        out: std::io::BufWriter::with_capacity(1 << 20, std::fs::File::create(&out).unwrap()),
        fns: HashMap::new(),
        fnq: VecDeque::new(),
        tys: HashMap::new(),
        tyq: VecDeque::new(),
        allocs: HashMap::new(),
        allocq: VecDeque::new(),
        stops,
        methods,
        impl_done: HashSet::new(),
        implq: VecDeque::new(),
    };
    let mut roots = 0;
    let mut generic = 0;
    let items: Vec<CrateItem> = rustc_public::all_local_items();
    for it in items {
        if !matches!(it.kind(), rustc_public::ItemKind::Fn) {
            continue;
        }
        if it.requires_monomorphization() {
            generic += 1;
            let s = format!("[\"generic\",{}]\n", esc(&it.name()));
            d.out.write_all(s.as_bytes()).unwrap();
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            roots += 1;
            d.inst(i);
        }
        d.drain();
    }
    d.drain();
    let s = format!("[\"end\",{{\"roots\":{},\"generic\":{},\"fns\":{},\"tys\":{},\"crate\":{}}}]\n", roots, generic, d.fns.len(), d.tys.len(), esc(&tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string()));
    d.out.write_all(s.as_bytes()).unwrap();
    d.out.flush().unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let mut is = false;
    for w in args.windows(2) {
        if w[0] == "--crate-name" && want.split(',').any(|x| x == w[1]) {
            is = true;
        }
    }
    if is {
        let r = rustc_public::run_with_tcx!(&args, |tcx: TyCtxt<'_>| dump(tcx));
        if r.is_err() {
            std::process::exit(1);
        }
    } else {
        struct Nop;
        impl rustc_driver::Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
