// mirdump: a rustc driver that writes the type-checked program (MIR, resolved callees, types,
// trait impls, unsafe operations, statics) of one crate as JSON. It runs no code of the crate.
//
// Used as RUSTC_WORKSPACE_WRAPPER: argv = [mirdump, rustc, args...].
// Output goes to $MIRDUMP_OUT/<crate>-<bin|lib>.json.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_middle::ty::print::PrintTraitRefExt as _;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgKind, Instance, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(x: T) -> J { J::S(x.into()) }
fn esc(o: &mut String, t: &str) {
    o.push('"');
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => { let _ = write!(o, "{}", n); }
            J::S(t) => esc(o, t),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    esc(o, k); o.push(':'); x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, ()>,
    adt_out: Vec<J>,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_forced_impl_filename_line!(self.rawpath(d)))
    }
    fn rawpath(&self, d: DefId) -> String {
        // A stable readable path: crate-qualified, impl blocks rendered through their self type.
        let tcx = self.tcx;
        let krate = tcx.crate_name(d.krate).to_string();
        let mut parts: Vec<String> = vec![];
        let mut cur = d;
        loop {
            let key = tcx.def_key(cur);
            use rustc_hir::definitions::DefPathData as P;
            match key.disambiguated_data.data {
                P::CrateRoot => break,
                P::Impl => {
                    let st = tcx.type_of(cur).instantiate_identity().skip_norm_wip();
                    let st = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", st));
                    let of = tcx.impl_opt_trait_ref(cur).map(|t| {
                        let t = t.instantiate_identity().skip_norm_wip();
                        rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t.print_only_trait_path()))
                    });
                    parts.push(match of {
                        Some(t) => format!("<{} as {}>", st, t),
                        None => format!("<{}>", st),
                    });
                    break;
                }
                P::Closure => parts.push(format!("{{closure#{}}}", key.disambiguated_data.disambiguator)),
                ref other => {
                    let n = other.get_opt_name().map(|x| x.to_string()).unwrap_or_else(|| format!("{:?}", other));
                    let dis = key.disambiguated_data.disambiguator;
                    parts.push(if dis > 0 { format!("{}#{}", n, dis) } else { n });
                }
            }
            match key.parent {
                Some(p) => cur = DefId { krate: cur.krate, index: p },
                None => break,
            }
        }
        parts.push(krate);
        parts.reverse();
        parts.join("::")
    }
    fn gargs(&mut self, args: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            match a.kind() {
                GenericArgKind::Type(t) => v.push(J::N(self.ty(t) as i128)),
                GenericArgKind::Const(c) => v.push(self.konst(c)),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        J::A(v)
    }
    fn konst(&mut self, c: ty::Const<'tcx>) -> J {
        if let Some(n) = c.try_to_target_usize(self.tcx) { J::O(vec![("const", J::N(n as i128))]) }
        else { J::O(vec![("constp", s(format!("{}", c)))]) }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) { return *i; }
        let idx = self.tys.len();
        self.tymap.insert(t, idx);
        self.tys.push(J::Null);
        let repr = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t));
        let mut o: Vec<(&'static str, J)> = vec![];
        match *t.kind() {
            TyKind::Bool => o.push(("k", s("bool"))),
            TyKind::Char => o.push(("k", s("char"))),
            TyKind::Str => o.push(("k", s("str"))),
            TyKind::Never => o.push(("k", s("never"))),
            TyKind::Int(i) => { o.push(("k", s("int"))); o.push(("n", s(i.name_str()))); }
            TyKind::Uint(i) => { o.push(("k", s("int"))); o.push(("n", s(i.name_str()))); }
            TyKind::Float(f) => { o.push(("k", s("float"))); o.push(("n", s(f.name_str()))); }
            TyKind::Ref(_, t2, m) => { o.push(("k", s("ref"))); o.push(("mut", J::B(m.is_mut()))); let x = self.ty(t2); o.push(("t", J::N(x as i128))); }
            TyKind::RawPtr(t2, m) => { o.push(("k", s("ptr"))); o.push(("mut", J::B(m.is_mut()))); let x = self.ty(t2); o.push(("t", J::N(x as i128))); }
            TyKind::Slice(t2) => { o.push(("k", s("slice"))); let x = self.ty(t2); o.push(("t", J::N(x as i128))); }
            TyKind::Array(t2, c) => { o.push(("k", s("array"))); let x = self.ty(t2); o.push(("t", J::N(x as i128))); let l = self.konst(c); o.push(("len", l)); }
            TyKind::Tuple(ts) => { o.push(("k", s("tuple"))); let v: Vec<J> = ts.iter().map(|x| J::N(self.ty(x) as i128)).collect(); o.push(("ts", J::A(v))); }
            TyKind::Adt(a, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(self.path(a.did()))));
                let g = self.gargs(args);
                o.push(("args", g));
                self.adt(a.did());
            }
            TyKind::Param(p) => { o.push(("k", s("param"))); o.push(("name", s(p.name.to_string()))); o.push(("idx", J::N(p.index as i128))); }
            TyKind::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("path", s(self.path(d))));
                let up: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| J::N(self.ty(x) as i128)).collect();
                o.push(("up", J::A(up)));
                let pa: Vec<J> = args.as_closure().parent_args().iter().filter_map(|a| match a.kind() { GenericArgKind::Type(t) => Some(J::N(self.ty(t) as i128)), _ => None }).collect();
                o.push(("pargs", J::A(pa)));
            }
            TyKind::FnDef(d, args) => { o.push(("k", s("fndef"))); o.push(("path", s(self.path(d)))); let g = self.gargs(args.skip_binder()); o.push(("args", g)); }
            TyKind::FnPtr(..) => o.push(("k", s("fnptr"))),
            TyKind::Dynamic(preds, _) => {
                o.push(("k", s("dyn")));
                if let Some(p) = preds.principal_def_id() { o.push(("trait", s(self.path(p)))); }
            }
            TyKind::Alias(_, at) => {
                o.push(("k", s("alias")));
                let d: DefId = match at.kind { ty::AliasTyKind::Projection { def_id } => def_id.into(), ty::AliasTyKind::Opaque { def_id } => def_id.into(), ty::AliasTyKind::Inherent { def_id } => def_id.into(), ty::AliasTyKind::Free { def_id } => def_id.into() };
                o.push(("path", s(self.path(d))));
                let g = self.gargs(at.args);
                o.push(("args", g));
            }
            _ => o.push(("k", s("other"))),
        }
        o.push(("s", s(repr)));
        self.tys[idx] = J::O(o);
        idx
    }
    fn adt(&mut self, d: DefId) {
        if self.adts.insert(d, ()).is_some() { return; }
        let tcx = self.tcx;
        let a = tcx.adt_def(d);
        let full = d.is_local() || {
            let k = tcx.crate_name(d.krate).to_string();
            a.is_enum() || a.all_fields().all(|f| f.vis.is_public()) || k.starts_with("smdiff") || k.starts_with("vcdiff")
        };
        let mut vs = vec![];
        if full {
            let discs: Vec<(rustc_abi::VariantIdx, u128)> = if a.is_enum() { a.discriminants(tcx).map(|(v, x)| (v, x.val)).collect() } else { vec![] };
            for (vi, v) in a.variants().iter_enumerated() {
                let mut fs = vec![];
                for f in v.fields.iter() {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let ti = self.ty(t);
                    fs.push(J::O(vec![("name", s(f.name.to_string())), ("ty", J::N(ti as i128)), ("pub", J::B(f.vis.is_public()))]));
                }
                let dv = discs.iter().find(|x| x.0 == vi).map(|x| J::N(x.1 as i128)).unwrap_or(J::Null);
                vs.push(J::O(vec![("name", s(v.name.to_string())), ("discr", dv), ("fields", J::A(fs))]));
            }
        }
        let kind = if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" };
        let gens = self.generics(d);
        self.adt_out.push(J::O(vec![("path", s(self.path(d))), ("kind", s(kind)), ("full", J::B(full)), ("variants", J::A(vs)), ("generics", gens), ("local", J::B(d.is_local()))]));
    }
    fn generics(&self, d: DefId) -> J {
        let mut v = vec![];
        let mut cur = Some(d);
        let mut chain = vec![];
        while let Some(c) = cur { let g = self.tcx.generics_of(c); chain.push(g); cur = g.parent; }
        chain.reverse();
        for g in chain {
            for p in &g.own_params {
                match p.kind { ty::GenericParamDefKind::Lifetime => {}, _ => v.push(s(p.name.to_string())) }
            }
        }
        J::A(v)
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        J::S(format!("{}:{}", f, lo.line))
    }
    fn expn(&self, sp: Span) -> J {
        // chain of macros this span comes from, outermost last
        let mut v = vec![];
        for e in sp.macro_backtrace() { v.push(s(format!("{}", e.kind.descr()))); }
        if v.is_empty() { J::Null } else { J::A(v) }
    }
    fn place(&mut self, b: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        let mut pt = PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => v.push(s("*")),
                ProjectionElem::Field(f, _t) => v.push(J::N(f.as_usize() as i128)),
                ProjectionElem::Index(l) => v.push(J::O(vec![("i", J::N(l.as_usize() as i128))])),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => v.push(J::O(vec![("ci", J::N(offset as i128)), ("min", J::N(min_length as i128)), ("end", J::B(from_end))])),
                ProjectionElem::Subslice { from, to, from_end } => v.push(J::O(vec![("from", J::N(from as i128)), ("to", J::N(to as i128)), ("end", J::B(from_end))])),
                ProjectionElem::Downcast(_, vi) => v.push(J::O(vec![("v", J::N(vi.as_usize() as i128))])),
                _ => v.push(s("?")),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        let t = self.ty(pt.ty);
        J::A(vec![J::N(p.local.as_usize() as i128), J::A(v), J::N(t as i128)])
    }
    fn scalar_const(&mut self, env: TypingEnv<'tcx>, c: &Const<'tcx>, sp: Span) -> J {
        let t = c.ty();
        let ti = self.ty(t);
        let mut o = vec![("ty", J::N(ti as i128))];
        match t.kind() {
            TyKind::FnDef(d, args) => {
                o.push(("fn", s(self.path(*d))));
                let g = self.gargs(args.skip_binder());
                o.push(("args", g));
                return J::O(o);
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                o.push(("promoted", s(format!("{}::promoted[{}]", self.path(u.def), p.as_usize()))));
                return J::O(o);
            }
        }
        if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(b) = c.try_eval_bits(self.tcx, env) {
                let v: i128 = if t.is_signed() {
                    let size = self.tcx.layout_of(env.as_query_input(t)).unwrap().size;
                    size.sign_extend(b)
                } else { b as i128 };
                // u128 beyond i128 does not occur in this code base
                o.push(("int", J::N(v)));
                if let Const::Unevaluated(u, _) = c { o.push(("name", s(self.path(u.def)))); }
                return J::O(o);
            }
        }
        if let Const::Unevaluated(u, _) = c {
            o.push(("uneval", s(self.path(u.def))));
            let g = self.gargs(u.args);
            o.push(("args", g));
            return J::O(o);
        }
        if let Ok(v) = c.eval(self.tcx, env, sp) {
            match v {
                ConstValue::ZeroSized => { o.push(("zst", J::B(true))); }
                ConstValue::Slice { .. } => {
                    if let Some(bytes) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                        let st = String::from_utf8_lossy(bytes).to_string();
                        o.push(("str", s(st)));
                        o.push(("len", J::N(bytes.len() as i128)));
                    }
                }
                _ => { o.push(("opaque", s(format!("{:?}", v)))); }
            }
        }
        J::O(o)
    }
    fn operand(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => { let x = self.place(b, p); J::O(vec![("copy", x)]) }
            Operand::Move(p) => { let x = self.place(b, p); J::O(vec![("move", x)]) }
            Operand::Constant(c) => { let x = self.scalar_const(env, &c.const_, c.span); J::O(vec![("const", x)]) }
            #[allow(unreachable_patterns)]
            o => J::O(vec![("runtime", s(format!("{:?}", o)))]),
        }
    }
    fn rvalue(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => { let x = self.operand(b, env, o); J::O(vec![("use", x)]) }
            Rvalue::Repeat(o, c) => { let x = self.operand(b, env, o); let n = self.konst(*c); J::O(vec![("repeat", x), ("n", n)]) }
            Rvalue::Ref(_, k, p) => { let x = self.place(b, p); J::O(vec![("ref", x), ("mut", J::B(matches!(k, BorrowKind::Mut { .. })))]) }
            Rvalue::RawPtr(k, p) => { let x = self.place(b, p); J::O(vec![("rawptr", x), ("mut", s(format!("{:?}", k)))]) }
            Rvalue::ThreadLocalRef(d) => J::O(vec![("tls", s(self.path(*d)))]),
            Rvalue::Cast(k, o, t) => {
                let x = self.operand(b, env, o);
                let from = o.ty(b, self.tcx);
                let f = self.ty(from);
                let ti = self.ty(*t);
                J::O(vec![("cast", x), ("kind", s(format!("{:?}", k))), ("from", J::N(f as i128)), ("to", J::N(ti as i128))])
            }
            Rvalue::BinaryOp(op, bx) => {
                let t = bx.0.ty(b, self.tcx);
                let ti = self.ty(t);
                let a = self.operand(b, env, &bx.0);
                let c = self.operand(b, env, &bx.1);
                J::O(vec![("bin", s(format!("{:?}", op))), ("a", a), ("b", c), ("ty", J::N(ti as i128))])
            }
            Rvalue::UnaryOp(op, o) => {
                let t = o.ty(b, self.tcx);
                let ti = self.ty(t);
                let a = self.operand(b, env, o);
                J::O(vec![("un", s(format!("{:?}", op))), ("a", a), ("ty", J::N(ti as i128))])
            }
            Rvalue::Discriminant(p) => { let x = self.place(b, p); J::O(vec![("discr", x)]) }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(b, env, o)).collect();
                let mut o = match &**k {
                    AggregateKind::Array(t) => { let ti = self.ty(*t); vec![("agg", s("array")), ("ty", J::N(ti as i128))] }
                    AggregateKind::Tuple => vec![("agg", s("tuple"))],
                    AggregateKind::Adt(d, vi, args, _, fld) => {
                        self.adt(*d);
                        let g = self.gargs(args);
                        let mut r = vec![("agg", s("adt")), ("path", s(self.path(*d))), ("variant", J::N(vi.as_usize() as i128)), ("args", g)];
                        if let Some(f) = fld { r.push(("union_field", J::N(f.as_usize() as i128))); }
                        r
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let ti = self.ty(t);
                        vec![("agg", s("closure")), ("path", s(self.path(*d))), ("ty", J::N(ti as i128))]
                    }
                    other => vec![("agg", s("other")), ("what", s(format!("{:?}", other)))],
                };
                o.push(("ops", J::A(v)));
                J::O(o)
            }
            Rvalue::CopyForDeref(p) => { let x = self.place(b, p); J::O(vec![("use", J::O(vec![("copy", x)]))]) }
            #[allow(unreachable_patterns)]
            other => J::O(vec![("other", s(format!("{:?}", other)))]),
        }
    }
    fn body(&mut self, path: String, kind: &str, d: LocalDefId, b: &Body<'tcx>, exported: bool) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, d.to_def_id());
        let mut locals = vec![];
        for ld in b.local_decls.iter() {
            let t = self.ty(ld.ty);
            locals.push(J::N(t as i128));
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pl = self.place(b, p);
                names.push(J::A(vec![s(v.name.to_string()), pl]));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(bx) => {
                        let p = self.place(b, &bx.0);
                        let r = self.rvalue(b, env, &bx.1);
                        let sp = self.span(x.source_info.span);
                        st.push(J::O(vec![("a", p), ("r", r), ("sp", sp)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(b, place);
                        st.push(J::O(vec![("setd", p), ("v", J::N(variant_index.as_usize() as i128))]));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(J::O(vec![("intr", s(format!("{:?}", i)))]));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = self.span(term.source_info.span);
            let ex = self.expn(term.source_info.span);
            let mut t: Vec<(&'static str, J)> = vec![];
            let bbn = |x: &BasicBlock| J::N(x.as_usize() as i128);
            match &term.kind {
                TerminatorKind::Goto { target, .. } => { t.push(("t", s("goto"))); t.push(("to", bbn(target))); }
                TerminatorKind::SwitchInt { discr, targets } => {
                    t.push(("t", s("switch")));
                    let o = self.operand(b, env, discr);
                    t.push(("on", o));
                    let dt = discr.ty(b, tcx);
                    let ti = self.ty(dt);
                    t.push(("ty", J::N(ti as i128)));
                    let mut cs = vec![];
                    for (v, bt) in targets.iter() {
                        let v2: i128 = if dt.is_signed() { let size = tcx.layout_of(env.as_query_input(dt)).unwrap().size; size.sign_extend(v) } else { v as i128 };
                        cs.push(J::A(vec![J::N(v2), bbn(&bt)]));
                    }
                    t.push(("cases", J::A(cs)));
                    let o = targets.otherwise();
                    t.push(("other", bbn(&o)));
                }
                TerminatorKind::Return => t.push(("t", s("return"))),
                TerminatorKind::Unreachable => t.push(("t", s("unreachable"))),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => t.push(("t", s("resume"))),
                TerminatorKind::Drop { place, target, .. } => {
                    t.push(("t", s("drop")));
                    let p = self.place(b, place);
                    t.push(("p", p));
                    t.push(("to", bbn(target)));
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    t.push(("t", s("call")));
                    let f = self.callee(b, env, func);
                    t.push(("f", f));
                    let v: Vec<J> = args.iter().map(|a| self.operand(b, env, &a.node)).collect();
                    t.push(("args", J::A(v)));
                    let dp = self.place(b, destination);
                    t.push(("dest", dp));
                    t.push(("to", target.as_ref().map(bbn).unwrap_or(J::Null)));
                    let fsp = self.span(*fn_span);
                    t.push(("fsp", fsp));
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    t.push(("t", s("assert")));
                    let c = self.operand(b, env, cond);
                    t.push(("cond", c));
                    t.push(("exp", J::B(*expected)));
                    let m: (&str, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds", vec![self.operand(b, env, len), self.operand(b, env, index)]),
                        AssertKind::Overflow(op, a, c2) => { let n = match op { BinOp::Add => "overflow:Add", BinOp::Sub => "overflow:Sub", BinOp::Mul => "overflow:Mul", BinOp::Shl => "overflow:Shl", BinOp::Shr => "overflow:Shr", _ => "overflow:other" }; (n, vec![self.operand(b, env, a), self.operand(b, env, c2)]) }
                        AssertKind::OverflowNeg(a) => ("overflow:Neg", vec![self.operand(b, env, a)]),
                        AssertKind::DivisionByZero(a) => ("div0", vec![self.operand(b, env, a)]),
                        AssertKind::RemainderByZero(a) => ("rem0", vec![self.operand(b, env, a)]),
                        _ => ("other", vec![]),
                    };
                    t.push(("msg", s(m.0)));
                    t.push(("mops", J::A(m.1)));
                    t.push(("to", bbn(target)));
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => { t.push(("t", s("goto"))); t.push(("to", bbn(real_target))); }
                other => { t.push(("t", s("other"))); t.push(("what", s(format!("{:?}", other)))); }
            }
            t.push(("sp", sp));
            t.push(("ex", ex));
            blocks.push(J::O(vec![("s", J::A(st)), ("t", J::O(t)), ("cleanup", J::B(bb.is_cleanup))]));
        }
        let gens = self.generics(d.to_def_id());
        let sp = self.span(tcx.def_span(d.to_def_id()));
        J::O(vec![
            ("path", s(path)), ("kind", s(kind)), ("generics", gens), ("argc", J::N(b.arg_count as i128)),
            ("locals", J::A(locals)), ("names", J::A(names)), ("blocks", J::A(blocks)), ("sp", sp), ("exported", J::B(exported)),
            ("spread", b.spread_arg.map(|x| J::N(x.as_usize() as i128)).unwrap_or(J::Null)),
        ])
    }
    fn callee(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>, func: &Operand<'tcx>) -> J {
        let tcx = self.tcx;
        let ft = func.ty(b, tcx);
        if let TyKind::FnDef(d, args) = *ft.kind() {
            let args = args.skip_binder();
            let g = self.gargs(args);
            let mut o = vec![("path", s(self.path(d))), ("args", g), ("local", J::B(d.is_local()))];
            if let Some(tr) = tcx.trait_of_assoc(d) {
                o.push(("trait", s(self.path(tr))));
                let st = args.type_at(0);
                let si = self.ty(st);
                o.push(("self", J::N(si as i128)));
            }
            o.push(("unsafe", J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())));
            let ga = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, ga) {
                let rd = inst.def_id();
                if rd != d {
                    o.push(("res", s(self.path(rd))));
                    let g2 = self.gargs(inst.args);
                    o.push(("res_args", g2));
                }
            }
            J::O(o)
        } else {
            let x = self.operand(b, env, func);
            J::O(vec![("ptr", x)])
        }
    }
}

struct UnsafeV<'tcx> { tcx: TyCtxt<'tcx>, out: Vec<(Span, &'static str)> }
impl<'tcx> Visitor<'tcx> for UnsafeV<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
            if let rustc_hir::UnsafeSource::UserProvided = src { self.out.push((b.span, "unsafe block")); }
        }
        intravisit::walk_block(self, b);
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("MIRDUMP_OUT") { Ok(o) => o, Err(_) => return Compilation::Continue };
        let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let is_bin = tcx.entry_fn(()).is_some();
        let mut d = D { tcx, tys: vec![], tymap: HashMap::new(), adts: HashMap::new(), adt_out: vec![] };
        let ev = tcx.effective_visibilities(());
        let mut fns = vec![];
        let mut statics = vec![];
        for ld in tcx.hir_body_owners() {
            let did = ld.to_def_id();
            let kind = tcx.def_kind(did);
            let path = d.path(did);
            let exported = ev.is_exported(ld);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let b = tcx.optimized_mir(did);
                    let k = if matches!(kind, DefKind::Closure) { "closure" } else { "fn" };
                    let j = d.body(path.clone(), k, ld, b, exported);
                    fns.push(j);
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => {
                    if let DefKind::Static { mutability, .. } = kind {
                        statics.push(J::O(vec![("path", s(path.clone())), ("mut", J::B(mutability.is_mut())), ("sp", d.span(tcx.def_span(did)))]));
                    }
                    if tcx.generics_of(did).requires_monomorphization(tcx) && matches!(kind, DefKind::AnonConst) { continue; }
                    let b = tcx.mir_for_ctfe(did);
                    let j = d.body(path.clone(), "const", ld, b, exported);
                    fns.push(j);
                }
                _ => continue,
            }
            let proms = tcx.promoted_mir(did);
            for (pi, pb) in proms.iter_enumerated() {
                let j = d.body(format!("{}::promoted[{}]", path, pi.as_usize()), "promoted", ld, pb, false);
                fns.push(j);
            }
        }
        // trait impls
        let mut impls = vec![];
        let mut unsafe_items: Vec<(Span, &'static str)> = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let si = d.ty(st);
                    let mut tr = J::Null;
                    let mut targs = J::Null;
                    let mut items = vec![];
                    if of_trait {
                        let t = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                        tr = s(d.path(t.def_id));
                        targs = d.gargs(t.args);
                    }
                    for it in tcx.associated_items(did).in_definition_order() {
                        let ti = it.trait_item_def_id().map(|x| s(d.path(x))).unwrap_or(J::Null);
                        items.push(J::A(vec![ti, s(d.path(it.def_id))]));
                    }
                    let gens = d.generics(did);
                    impls.push(J::O(vec![("trait", tr), ("trait_args", targs), ("self", J::N(si as i128)), ("items", J::A(items)), ("generics", gens)]));
                    if let rustc_hir::Node::Item(it) = tcx.hir_node_by_def_id(id) {
                        if let rustc_hir::ItemKind::Impl(im) = &it.kind {
                            if tcx.is_automatically_derived(did) {} else if let Some(ot) = im.of_trait { if let rustc_hir::Safety::Unsafe = ot.safety { unsafe_items.push((it.span, "unsafe impl")); } }
                        }
                    }
                }
                DefKind::Fn | DefKind::AssocFn => {
                    if tcx.fn_sig(did).skip_binder().safety().is_unsafe() { unsafe_items.push((tcx.def_span(did), "unsafe fn")); }
                }
                DefKind::ForeignMod => unsafe_items.push((tcx.def_span(did), "extern block")),
                DefKind::Static { mutability, .. } if mutability.is_mut() => unsafe_items.push((tcx.def_span(did), "static mut")),
                _ => {}
            }
        }
        let mut uv = UnsafeV { tcx, out: vec![] };
        tcx.hir_visit_all_item_likes_in_crate(&mut uv);
        let mut us = vec![];
        for (sp, k) in uv.out.iter().chain(unsafe_items.iter()) {
            us.push(J::O(vec![("what", s(*k)), ("sp", d.span(*sp))]));
        }
        let mut root_attrs = vec![];
        for a in tcx.hir_attrs(rustc_hir::CRATE_HIR_ID) { root_attrs.push(s(format!("{:?}", a))); }
        let j = J::O(vec![
            ("crate", s(krate.clone())), ("bin", J::B(is_bin)),
            ("fns", J::A(fns)), ("impls", J::A(impls)), ("statics", J::A(statics)), ("unsafe", J::A(us)),
            ("adts", J::A(std::mem::take(&mut d.adt_out))),
            ("types", J::A(std::mem::take(&mut d.tys))),
        ]);
        let mut o = String::new();
        j.w(&mut o);
        let f = format!("{}/{}-{}.json", out, krate, if is_bin { "bin" } else { "lib" });
        std::fs::write(&f, o).expect("mirdump: cannot write output");
        Compilation::Continue
    }
}

fn main() {
    rustc_driver::install_ice_hook("mirdump", |_| ());
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper protocol: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) { args.remove(1); }
    let is_target = args.iter().any(|a| a == "--crate-name");
    if is_target {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        args.push("-Zinline-mir=no".into());
        args.push("-Coverflow-checks=on".into());
        // the encoder without its debugging assertions: what it finds must be true because it was compared,
        // not because a debugging build would stop otherwise
        let encoder = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "smdiff_encoder");
        args.push(if encoder { "-Cdebug-assertions=off" } else { "-Cdebug-assertions=on" }.into());
    }
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
