//! Compiler driver that writes the type-checked program (HIR trees with resolved callees and
//! types) of every workspace crate as JSON.  It only reads the program; nothing is executed.
#![feature(rustc_private)]

extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir as hir;
use rustc_hir::def::{DefKind, Res};
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_hir::{ExprKind, PatKind, StmtKind};
use rustc_interface::interface;
use rustc_middle::ty::print::PrintTraitRefExt as _;
use rustc_middle::ty::{self, TyCtxt, TypeckResults};
use rustc_span::{ExpnKind, MacroKind, Span};
use std::collections::HashMap;
use std::fmt::Write as _;

struct J {
    s: String,
}

impl J {
    fn new() -> Self {
        J { s: String::new() }
    }
    fn str(&mut self, v: &str) {
        self.s.push('"');
        for c in v.chars() {
            match c {
                '"' => self.s.push_str("\\\""),
                '\\' => self.s.push_str("\\\\"),
                '\n' => self.s.push_str("\\n"),
                '\r' => self.s.push_str("\\r"),
                '\t' => self.s.push_str("\\t"),
                c if (c as u32) < 0x20 => {
                    let _ = write!(self.s, "\\u{:04x}", c as u32);
                }
                c => self.s.push(c),
            }
        }
        self.s.push('"');
    }
    fn key(&mut self, k: &str) {
        if !self.s.ends_with('{') {
            self.s.push(',');
        }
        self.str(k);
        self.s.push(':');
    }
    fn kstr(&mut self, k: &str, v: &str) {
        self.key(k);
        self.str(v);
    }
    fn kint(&mut self, k: &str, v: i128) {
        self.key(k);
        let _ = write!(self.s, "{}", v);
    }
    fn kbool(&mut self, k: &str, v: bool) {
        self.key(k);
        self.s.push_str(if v { "true" } else { "false" });
    }
    fn sep(&mut self) {
        if !self.s.ends_with('[') {
            self.s.push(',');
        }
    }
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    j: J,
    tys: HashMap<String, usize>,
    tylist: Vec<String>,
    krate: String,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        let s = ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(
            self.tcx.def_path_str(d)
        ));
        s
    }

    fn raw_path(&self, d: DefId) -> String {
        let p = self.tcx.def_path(d);
        format!("{}{}", self.tcx.crate_name(d.krate), p.to_string_no_crate_verbose())
    }

    fn ty(&mut self, t: ty::Ty<'tcx>) -> usize {
        let s = ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(t.to_string()));
        if let Some(i) = self.tys.get(&s) {
            return *i;
        }
        let i = self.tylist.len();
        self.tylist.push(s.clone());
        self.tys.insert(s, i);
        i
    }

    fn span_of(&self, sp: Span) -> (String, usize, usize) {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let name = format!("{}", loc.file.name.prefer_local_unconditionally());
        (name, loc.line, loc.col.0 + 1)
    }

    fn macs(&self, sp: Span) -> Vec<String> {
        let mut out = Vec::new();
        for e in sp.macro_backtrace() {
            if let ExpnKind::Macro(MacroKind::Bang, _) = e.kind {
                match e.macro_def_id {
                    Some(d) => out.push(self.path(d)),
                    None => out.push("?".into()),
                }
            } else if let ExpnKind::Macro(MacroKind::Derive, n) = e.kind {
                out.push(format!("derive:{}", n));
            }
        }
        out
    }

    fn common(&mut self, sp: Span) {
        let (_, line, col) = self.span_of(sp);
        self.j.kint("ln", line as i128);
        self.j.kint("col", col as i128);
        if sp.from_expansion() {
            let m = self.macs(sp);
            if !m.is_empty() {
                self.j.key("mac");
                self.j.s.push('[');
                for x in m {
                    self.j.sep();
                    self.j.str(&x);
                }
                self.j.s.push(']');
            }
        }
    }

    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) {
        self.j.key("ga");
        self.j.s.push('[');
        for g in a.iter() {
            if let Some(_) = g.as_region() {
                continue;
            }
            let s = ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(
                g.to_string()
            ));
            self.j.sep();
            self.j.str(&s);
        }
        self.j.s.push(']');
    }

    /// Emits "def" (the named item), and "res" (the implementation it resolves to when known).
    fn callee(&mut self, owner: LocalDefId, d: DefId, a: ty::GenericArgsRef<'tcx>) {
        let p = self.path(d);
        self.j.kstr("def", &p);
        self.args(a);
        let kind = self.tcx.def_kind(d);
        if matches!(kind, DefKind::AssocFn) && self.tcx.trait_of_assoc(d).is_some() {
            let env = ty::TypingEnv::post_analysis(self.tcx, owner.to_def_id());
            let a = self.tcx.erase_and_anonymize_regions(a);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(self.tcx, env, d, a) {
                let rd = inst.def_id();
                if rd != d {
                    let rp = self.raw_path(rd);
                    self.j.kstr("res", &rp);
                }
            }
        } else if d.is_local() || matches!(kind, DefKind::AssocFn | DefKind::Fn) {
            let rp = self.raw_path(d);
            self.j.kstr("res", &rp);
        }
    }

    fn qpath(&mut self, owner: LocalDefId, tr: &TypeckResults<'tcx>, q: &hir::QPath<'tcx>, id: hir::HirId) {
        let res = tr.qpath_res(q, id);
        match res {
            Res::Local(h) => {
                self.j.kstr("r", "local");
                self.j.kstr("id", &format!("{}", h.local_id.as_u32()));
                let name = self.tcx.hir_name(h);
                self.j.kstr("n", name.as_str());
            }
            Res::Def(k, d) => {
                self.j.kstr("r", "def");
                self.j.kstr("dk", &format!("{:?}", k));
                let a = tr.node_args(id);
                self.callee(owner, d, a);
            }
            Res::SelfCtor(d) => {
                self.j.kstr("r", "selfctor");
                let t = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let t = self.ty(t);
                self.j.kint("st", t as i128);
            }
            Res::SelfTyAlias { alias_to, .. } => {
                self.j.kstr("r", "selfty");
                let t = self.tcx.type_of(alias_to).instantiate_identity().skip_norm_wip();
                let t = self.ty(t);
                self.j.kint("st", t as i128);
            }
            r => {
                self.j.kstr("r", "other");
                self.j.kstr("n", &format!("{:?}", r));
            }
        }
    }

    fn lit(&mut self, l: &hir::Lit) {
        use rustc_ast::LitKind;
        match &l.node {
            LitKind::Str(s, _) => {
                self.j.kstr("lk", "str");
                self.j.kstr("v", s.as_str());
            }
            LitKind::ByteStr(b, _) | LitKind::CStr(b, _) => {
                self.j.kstr("lk", "bytes");
                self.j.kstr("v", &b.as_byte_str().iter().map(|x| *x as char).collect::<String>());
            }
            LitKind::Byte(b) => {
                self.j.kstr("lk", "int");
                self.j.kint("v", *b as i128);
            }
            LitKind::Char(c) => {
                self.j.kstr("lk", "char");
                self.j.kstr("v", &c.to_string());
            }
            LitKind::Int(v, _) => {
                self.j.kstr("lk", "int");
                self.j.kstr("vs", &v.get().to_string());
                if v.get() < (1u128 << 62) {
                    self.j.kint("v", v.get() as i128);
                }
            }
            LitKind::Float(s, _) => {
                self.j.kstr("lk", "float");
                self.j.kstr("v", s.as_str());
            }
            LitKind::Bool(b) => {
                self.j.kstr("lk", "bool");
                self.j.kbool("v", *b);
            }
            LitKind::Err(_) => {
                self.j.kstr("lk", "err");
            }
        }
    }

    fn pat(&mut self, o: LocalDefId, tr: &TypeckResults<'tcx>, p: &'tcx hir::Pat<'tcx>) {
        self.j.s.push('{');
        match p.kind {
            PatKind::Wild | PatKind::Missing | PatKind::Never => self.j.kstr("k", "Wild"),
            PatKind::Binding(_, hid, ident, sub) => {
                self.j.kstr("k", "Bind");
                self.j.kstr("id", &format!("{}", hid.local_id.as_u32()));
                self.j.kstr("n", ident.name.as_str());
                let t = tr.node_type(p.hir_id);
                let t = self.ty(t);
                self.j.kint("t", t as i128);
                if let Some(bm) = tr.pat_binding_modes().get(p.hir_id) {
                    if let hir::ByRef::Yes(_, m) = bm.0 {
                        self.j.kstr("byref", if m.is_mut() { "mut" } else { "ref" });
                    }
                    if bm.1.is_mut() {
                        self.j.kbool("mut", true);
                    }
                }
                if let Some(s) = sub {
                    self.j.key("sub");
                    self.pat(o, tr, s);
                }
            }
            PatKind::Struct(ref q, fields, _) => {
                self.j.kstr("k", "Struct");
                self.j.key("path");
                self.j.s.push('{');
                self.qpath(o, tr, q, p.hir_id);
                self.j.s.push('}');
                self.j.key("fs");
                self.j.s.push('[');
                for f in fields {
                    self.j.sep();
                    self.j.s.push('{');
                    self.j.kstr("n", f.ident.name.as_str());
                    self.j.key("p");
                    self.pat(o, tr, f.pat);
                    self.j.s.push('}');
                }
                self.j.s.push(']');
            }
            PatKind::TupleStruct(ref q, ps, dd) => {
                self.j.kstr("k", "TStruct");
                self.j.key("path");
                self.j.s.push('{');
                self.qpath(o, tr, q, p.hir_id);
                self.j.s.push('}');
                if let Some(n) = dd.as_opt_usize() {
                    self.j.kint("dd", n as i128);
                }
                self.pats(o, tr, ps);
            }
            PatKind::Tuple(ps, dd) => {
                self.j.kstr("k", "Tuple");
                if let Some(n) = dd.as_opt_usize() {
                    self.j.kint("dd", n as i128);
                }
                self.pats(o, tr, ps);
            }
            PatKind::Or(ps) => {
                self.j.kstr("k", "Or");
                self.pats(o, tr, ps);
            }
            PatKind::Deref(s) => {
                self.j.kstr("k", "Ref");
                self.j.key("p");
                self.pat(o, tr, s);
            }
            PatKind::Ref(s, ..) => {
                self.j.kstr("k", "Ref");
                self.j.key("p");
                self.pat(o, tr, s);
            }
            PatKind::Expr(e) => self.pat_expr(o, tr, e),
            PatKind::Guard(s, g) => {
                self.j.kstr("k", "Guard");
                self.j.key("p");
                self.pat(o, tr, s);
                self.j.key("g");
                self.expr(o, tr, g);
            }
            PatKind::Range(a, b, end) => {
                self.j.kstr("k", "Range");
                if let Some(a) = a {
                    self.j.key("lo");
                    self.j.s.push('{');
                    self.pat_expr(o, tr, a);
                    self.j.s.push('}');
                }
                if let Some(b) = b {
                    self.j.key("hi");
                    self.j.s.push('{');
                    self.pat_expr(o, tr, b);
                    self.j.s.push('}');
                }
                self.j.kstr("end", &format!("{:?}", end));
            }
            PatKind::Slice(a, m, b) => {
                self.j.kstr("k", "Slice");
                self.j.key("pre");
                self.j.s.push('[');
                for x in a {
                    self.j.sep();
                    self.pat(o, tr, x);
                }
                self.j.s.push(']');
                if let Some(m) = m {
                    self.j.key("mid");
                    self.pat(o, tr, m);
                }
                self.j.key("post");
                self.j.s.push('[');
                for x in b {
                    self.j.sep();
                    self.pat(o, tr, x);
                }
                self.j.s.push(']');
            }
            PatKind::Err(_) => self.j.kstr("k", "Err"),
        }
        self.j.s.push('}');
    }

    fn pat_expr(&mut self, o: LocalDefId, tr: &TypeckResults<'tcx>, e: &'tcx hir::PatExpr<'tcx>) {
        match e.kind {
            hir::PatExprKind::Lit { ref lit, negated } => {
                self.j.kstr("k", "Lit");
                self.lit(lit);
                if negated {
                    self.j.kbool("neg", true);
                }
            }
            hir::PatExprKind::Path(ref q) => {
                self.j.kstr("k", "Path");
                self.qpath(o, tr, q, e.hir_id);
            }
        }
    }

    fn pats(&mut self, o: LocalDefId, tr: &TypeckResults<'tcx>, ps: &'tcx [hir::Pat<'tcx>]) {
        self.j.key("ps");
        self.j.s.push('[');
        for x in ps {
            self.j.sep();
            self.pat(o, tr, x);
        }
        self.j.s.push(']');
    }

    fn block(&mut self, o: LocalDefId, tr: &TypeckResults<'tcx>, b: &'tcx hir::Block<'tcx>) {
        self.j.kstr("k", "Block");
        if let hir::BlockCheckMode::UnsafeBlock(_) = b.rules {
            self.j.kbool("unsafe", true);
        }
        self.j.key("st");
        self.j.s.push('[');
        for s in b.stmts {
            match s.kind {
                StmtKind::Let(l) => {
                    self.j.sep();
                    self.j.s.push('{');
                    self.j.kstr("k", "SLet");
                    self.common(l.span);
                    self.j.key("p");
                    self.pat(o, tr, l.pat);
                    if let Some(e) = l.init {
                        self.j.key("e");
                        self.expr(o, tr, e);
                    }
                    if let Some(b) = l.els {
                        self.j.key("els");
                        self.j.s.push('{');
                        self.block(o, tr, b);
                        self.j.s.push('}');
                    }
                    self.j.s.push('}');
                }
                StmtKind::Item(i) => {
                    self.j.sep();
                    self.j.s.push('{');
                    self.j.kstr("k", "SItem");
                    let p = self.raw_path(i.owner_id.to_def_id());
                    self.j.kstr("def", &p);
                    self.j.kstr("dk", &format!("{:?}", self.tcx.def_kind(i.owner_id.to_def_id())));
                    self.common(s.span);
                    self.j.s.push('}');
                }
                StmtKind::Expr(e) => {
                    self.j.sep();
                    self.expr(o, tr, e);
                }
                StmtKind::Semi(e) => {
                    self.j.sep();
                    self.expr(o, tr, e);
                }
            }
        }
        self.j.s.push(']');
        if let Some(e) = b.expr {
            self.j.key("e");
            self.expr(o, tr, e);
        }
    }

    fn exprs(&mut self, o: LocalDefId, tr: &TypeckResults<'tcx>, k: &str, es: &'tcx [hir::Expr<'tcx>]) {
        self.j.key(k);
        self.j.s.push('[');
        for x in es {
            self.j.sep();
            self.expr(o, tr, x);
        }
        self.j.s.push(']');
    }

    fn kexpr(&mut self, o: LocalDefId, tr: &TypeckResults<'tcx>, k: &str, e: &'tcx hir::Expr<'tcx>) {
        self.j.key(k);
        self.expr(o, tr, e);
    }

    fn overloaded(&mut self, o: LocalDefId, tr: &TypeckResults<'tcx>, id: hir::HirId) {
        if let Some(d) = tr.type_dependent_def_id(id) {
            let a = tr.node_args(id);
            self.callee(o, d, a);
        }
    }

    fn expr(&mut self, o: LocalDefId, tr: &TypeckResults<'tcx>, e: &'tcx hir::Expr<'tcx>) {
        // Transparent wrappers.
        match e.kind {
            ExprKind::DropTemps(x) | ExprKind::Type(x, _) | ExprKind::Use(x, _) => {
                return self.expr(o, tr, x)
            }
            _ => {}
        }
        self.j.s.push('{');
        self.expr_inner(o, tr, e);
        self.common(e.span);
        let t = tr.expr_ty(e);
        let t = self.ty(t);
        self.j.kint("t", t as i128);
        let adj = tr.expr_adjustments(e);
        if !adj.is_empty() {
            use ty::adjustment::{Adjust, AutoBorrow, DerefAdjustKind};
            let mut s: Vec<String> = Vec::new();
            for a in adj {
                match &a.kind {
                    Adjust::Deref(DerefAdjustKind::Overloaded(_)) => s.push("oderef".into()),
                    Adjust::Deref(_) => s.push("deref".into()),
                    Adjust::Borrow(AutoBorrow::Ref(m)) => {
                        let mu = matches!(m, ty::adjustment::AutoBorrowMutability::Mut { .. });
                        s.push(if mu { "refmut".into() } else { "ref".into() })
                    }
                    Adjust::Borrow(_) => s.push("rawref".into()),
                    Adjust::NeverToAny => {}
                    _ => s.push("coerce".into()),
                }
            }
            if !s.is_empty() {
                self.j.kstr("adj", &s.join(","));
                let at = tr.expr_ty_adjusted(e);
                let at = self.ty(at);
                self.j.kint("at", at as i128);
            }
        }
        self.j.s.push('}');
    }

    fn expr_inner(&mut self, o: LocalDefId, tr: &TypeckResults<'tcx>, e: &'tcx hir::Expr<'tcx>) {
        match e.kind {
            ExprKind::Path(ref q) => {
                self.j.kstr("k", "Path");
                self.qpath(o, tr, q, e.hir_id);
            }
            ExprKind::Lit(ref l) => {
                self.j.kstr("k", "Lit");
                self.lit(l);
            }
            ExprKind::Call(f, args) => {
                self.j.kstr("k", "Call");
                self.kexpr(o, tr, "f", f);
                self.exprs(o, tr, "a", args);
            }
            ExprKind::MethodCall(seg, recv, args, _) => {
                self.j.kstr("k", "MCall");
                self.j.kstr("m", seg.ident.name.as_str());
                self.overloaded(o, tr, e.hir_id);
                self.kexpr(o, tr, "s", recv);
                self.exprs(o, tr, "a", args);
            }
            ExprKind::Binary(op, a, b) => {
                self.j.kstr("k", "Bin");
                self.j.kstr("op", op.node.as_str());
                self.overloaded(o, tr, e.hir_id);
                self.kexpr(o, tr, "l", a);
                self.kexpr(o, tr, "rh", b);
            }
            ExprKind::Unary(op, a) => {
                self.j.kstr("k", "Un");
                self.j.kstr(
                    "op",
                    match op {
                        hir::UnOp::Deref => "*",
                        hir::UnOp::Not => "!",
                        hir::UnOp::Neg => "-",
                    },
                );
                self.overloaded(o, tr, e.hir_id);
                self.kexpr(o, tr, "e", a);
            }
            ExprKind::Cast(a, _) => {
                self.j.kstr("k", "Cast");
                self.kexpr(o, tr, "e", a);
            }
            ExprKind::Let(l) => {
                self.j.kstr("k", "LetE");
                self.j.key("p");
                self.pat(o, tr, l.pat);
                self.kexpr(o, tr, "e", l.init);
            }
            ExprKind::If(c, t, el) => {
                self.j.kstr("k", "If");
                self.kexpr(o, tr, "c", c);
                self.kexpr(o, tr, "th", t);
                if let Some(x) = el {
                    self.kexpr(o, tr, "el", x);
                }
            }
            ExprKind::Loop(b, label, src, _) => {
                // Re-sugar `while`.
                if let hir::LoopSource::While = src {
                    if let Some(x) = b.expr {
                        if let ExprKind::If(c, t, _) = x.kind {
                            self.j.kstr("k", "While");
                            if let Some(l) = label {
                                self.j.kstr("label", l.ident.name.as_str());
                            }
                            self.j.kstr("id", &format!("{}", e.hir_id.local_id.as_u32()));
                            self.kexpr(o, tr, "c", c);
                            self.kexpr(o, tr, "b", t);
                            return;
                        }
                    }
                }
                self.j.kstr("k", "Loop");
                self.j.kstr("id", &format!("{}", e.hir_id.local_id.as_u32()));
                if let Some(l) = label {
                    self.j.kstr("label", l.ident.name.as_str());
                }
                self.j.key("b");
                self.j.s.push('{');
                self.block(o, tr, b);
                self.j.s.push('}');
            }
            ExprKind::Match(scrut, arms, src) => {
                match src {
                    hir::MatchSource::AwaitDesugar => {
                        if let ExprKind::Call(_, args) = scrut.kind {
                            if args.len() == 1 {
                                self.j.kstr("k", "Await");
                                self.kexpr(o, tr, "e", &args[0]);
                                return;
                            }
                        }
                    }
                    hir::MatchSource::TryDesugar(_) => {
                        if let ExprKind::Call(_, args) = scrut.kind {
                            if args.len() == 1 {
                                self.j.kstr("k", "Try");
                                self.kexpr(o, tr, "e", &args[0]);
                                return;
                            }
                        }
                    }
                    hir::MatchSource::ForLoopDesugar => {
                        if let (ExprKind::Call(_, args), [arm]) = (&scrut.kind, arms) {
                            if let ExprKind::Loop(b, label, _, _) = arm.body.kind {
                                let inner = b.expr.or_else(|| {
                                    b.stmts.first().and_then(|s| match s.kind {
                                        StmtKind::Expr(x) | StmtKind::Semi(x) => Some(x),
                                        _ => None,
                                    })
                                });
                                if let Some(inner) = inner {
                                    if let ExprKind::Match(_, iarms, _) = inner.kind {
                                        // arms: None => break, Some(pat) => body
                                        for a in iarms {
                                            let sub: Option<&'tcx hir::Pat<'tcx>> = match a.pat.kind {
                                                PatKind::Struct(_, fs, _) if fs.len() == 1 => Some(fs[0].pat),
                                                PatKind::TupleStruct(_, ps, _) if ps.len() == 1 => Some(&ps[0]),
                                                _ => None,
                                            };
                                            if let Some(p) = sub {
                                                self.j.kstr("k", "For");
                                                if let Some(l) = label {
                                                    self.j.kstr("label", l.ident.name.as_str());
                                                }
                                                self.j.kstr("id", &format!("{}", arm.body.hir_id.local_id.as_u32()));
                                                self.j.key("p");
                                                self.pat(o, tr, p);
                                                self.kexpr(o, tr, "it", &args[0]);
                                                self.kexpr(o, tr, "b", a.body);
                                                return;
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                    _ => {}
                }
                self.j.kstr("k", "Match");
                self.kexpr(o, tr, "e", scrut);
                self.j.key("arms");
                self.j.s.push('[');
                for a in arms {
                    self.j.sep();
                    self.j.s.push('{');
                    self.j.key("p");
                    self.pat(o, tr, a.pat);
                    if let Some(g) = a.guard {
                        self.kexpr(o, tr, "g", g);
                    }
                    self.kexpr(o, tr, "b", a.body);
                    self.j.s.push('}');
                }
                self.j.s.push(']');
            }
            ExprKind::Closure(c) => {
                self.j.kstr("k", "Closure");
                let kind = match c.kind {
                    hir::ClosureKind::Closure => "closure",
                    hir::ClosureKind::Coroutine(hir::CoroutineKind::Desugared(
                        hir::CoroutineDesugaring::Async,
                        src,
                    )) => match src {
                        hir::CoroutineSource::Block => "async_block",
                        hir::CoroutineSource::Closure => "async_closure_body",
                        hir::CoroutineSource::Fn => "async_fn",
                    },
                    hir::ClosureKind::Coroutine(_) => "coroutine",
                    hir::ClosureKind::CoroutineClosure(_) => "async_closure",
                };
                self.j.kstr("ck", kind);
                self.j.kbool("mv", matches!(c.capture_clause, hir::CaptureBy::Value { .. }));
                let p = self.raw_path(c.def_id.to_def_id());
                self.j.kstr("cid", &p);
                let body = self.tcx.hir_body(c.body);
                self.body(o, tr, body);
            }
            ExprKind::Block(b, label) => {
                if let Some(l) = label {
                    self.j.kstr("label", l.ident.name.as_str());
                }
                self.j.kstr("id", &format!("{}", e.hir_id.local_id.as_u32()));
                self.block(o, tr, b);
            }
            ExprKind::Assign(l, r, _) => {
                self.j.kstr("k", "Assign");
                self.kexpr(o, tr, "l", l);
                self.kexpr(o, tr, "rh", r);
            }
            ExprKind::AssignOp(op, l, r) => {
                self.j.kstr("k", "AssignOp");
                let s = op.node.as_str();
                self.j.kstr("op", s.trim_end_matches('='));
                self.overloaded(o, tr, e.hir_id);
                self.kexpr(o, tr, "l", l);
                self.kexpr(o, tr, "rh", r);
            }
            ExprKind::Field(b, id) => {
                self.j.kstr("k", "Field");
                self.j.kstr("n", id.name.as_str());
                self.kexpr(o, tr, "e", b);
            }
            ExprKind::Index(b, i, _) => {
                self.j.kstr("k", "Index");
                self.overloaded(o, tr, e.hir_id);
                self.kexpr(o, tr, "e", b);
                self.kexpr(o, tr, "i", i);
            }
            ExprKind::AddrOf(_, m, x) => {
                self.j.kstr("k", "Ref");
                self.j.kbool("mut", m.is_mut());
                self.kexpr(o, tr, "e", x);
            }
            ExprKind::Break(d, x) => {
                self.j.kstr("k", "Break");
                if let Ok(t) = d.target_id {
                    self.j.kstr("target", &format!("{}", t.local_id.as_u32()));
                }
                if let Some(x) = x {
                    self.kexpr(o, tr, "e", x);
                }
            }
            ExprKind::Continue(d) => {
                self.j.kstr("k", "Continue");
                if let Ok(t) = d.target_id {
                    self.j.kstr("target", &format!("{}", t.local_id.as_u32()));
                }
            }
            ExprKind::Ret(x) => {
                self.j.kstr("k", "Ret");
                if let Some(x) = x {
                    self.kexpr(o, tr, "e", x);
                }
            }
            ExprKind::Struct(q, fs, tail) => {
                self.j.kstr("k", "Struct");
                self.j.key("path");
                self.j.s.push('{');
                self.qpath(o, tr, q, e.hir_id);
                self.j.s.push('}');
                self.j.key("fs");
                self.j.s.push('[');
                for f in fs {
                    self.j.sep();
                    self.j.s.push('{');
                    self.j.kstr("n", f.ident.name.as_str());
                    self.kexpr(o, tr, "e", f.expr);
                    self.j.s.push('}');
                }
                self.j.s.push(']');
                if let hir::StructTailExpr::Base(b) = tail {
                    self.kexpr(o, tr, "base", b);
                }
            }
            ExprKind::Tup(xs) => {
                self.j.kstr("k", "Tup");
                self.exprs(o, tr, "a", xs);
            }
            ExprKind::Array(xs) => {
                self.j.kstr("k", "Array");
                self.exprs(o, tr, "a", xs);
            }
            ExprKind::Repeat(x, _) => {
                self.j.kstr("k", "Repeat");
                self.kexpr(o, tr, "e", x);
                let t = tr.expr_ty(e);
                if let ty::Array(_, n) = t.kind() {
                    self.j.kstr("n", &n.to_string());
                }
            }
            ExprKind::ConstBlock(c) => {
                self.j.kstr("k", "ConstBlock");
                let rp = self.raw_path(c.def_id.to_def_id());
                self.j.kstr("res", &rp);
            }
            ExprKind::Yield(x, _) => {
                self.j.kstr("k", "Yield");
                self.kexpr(o, tr, "e", x);
            }
            _ => self.j.kstr("k", "Other"),
        }
    }

    fn body(&mut self, o: LocalDefId, tr: &TypeckResults<'tcx>, b: &'tcx hir::Body<'tcx>) {
        self.j.key("params");
        self.j.s.push('[');
        for p in b.params {
            self.j.sep();
            self.pat(o, tr, p.pat);
        }
        self.j.s.push(']');
        self.kexpr(o, tr, "body", b.value);
    }

    fn run(&mut self) {
        let tcx = self.tcx;
        self.j.s.push('{');
        self.j.kstr("crate", &self.krate.clone());
        self.j.kbool("debug_assertions", tcx.sess.opts.debug_assertions);
        self.j.key("bodies");
        self.j.s.push('[');
        for ldid in tcx.hir_body_owners() {
            let did = ldid.to_def_id();
            let kind = tcx.def_kind(did);
            if matches!(
                kind,
                DefKind::Closure | DefKind::SyntheticCoroutineBody
            ) {
                continue;
            }
            let Some(body) = tcx.hir_maybe_body_owned_by(ldid) else { continue };
            let tr = tcx.typeck(ldid);
            self.j.sep();
            self.j.s.push('{');
            let rp = self.raw_path(did);
            let p = self.path(did);
            self.j.kstr("id", &rp);
            self.j.kstr("path", &p);
            self.j.kstr("dk", &format!("{:?}", kind));
            let (f, l, _) = self.span_of(tcx.def_span(did));
            self.j.kstr("file", &f);
            self.j.kint("line", l as i128);
            if tcx.def_span(did).from_expansion() {
                let m = self.macs(tcx.def_span(did));
                self.j.kstr("expn", &m.join(","));
            }
            self.j.key("generics");
            self.j.s.push('[');
            let mut gs: Vec<String> = Vec::new();
            let mut cur = Some(did);
            while let Some(c) = cur {
                let g = tcx.generics_of(c);
                let mut v: Vec<String> = g
                    .own_params
                    .iter()
                    .filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))
                    .map(|p| p.name.to_string())
                    .collect();
                v.extend(gs);
                gs = v;
                cur = g.parent;
            }
            for g in gs {
                self.j.sep();
                self.j.str(&g);
            }
            self.j.s.push(']');
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                self.j.kbool("async", tcx.asyncness(did).is_async());
                self.j.kbool("pub", tcx.visibility(did).is_public());
                self.j.kstr("vis", &format!("{:?}", tcx.visibility(did)));
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
                let out = self.ty(sig.output());
                self.j.kint("out", out as i128);
                self.j.key("ins");
                self.j.s.push('[');
                for i in sig.inputs() {
                    let i = self.ty(*i);
                    self.j.sep();
                    let _ = write!(self.j.s, "{}", i);
                }
                self.j.s.push(']');
                if let Some(impl_id) = tcx.impl_of_assoc(did) {
                    let st = tcx.type_of(impl_id).instantiate_identity().skip_norm_wip();
                    let st = self.ty(st);
                    self.j.kint("self_ty", st as i128);
                    if let Some(trf) = tcx.impl_opt_trait_ref(impl_id) {
                        let t = trf.instantiate_identity().skip_norm_wip();
                        let s = ty::print::with_no_trimmed_paths!(
                            ty::print::with_resolve_crate_name!(t.print_only_trait_path().to_string())
                        );
                        self.j.kstr("trait", &s);
                    }
                }
                self.j.kstr("name", tcx.item_name(did).as_str());
            }
            self.body(ldid, tr, body);
            self.j.s.push('}');
        }
        self.j.s.push(']');

        // Type definitions, statics and foreign functions.
        self.j.key("adts");
        self.j.s.push('[');
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum => {
                    self.j.sep();
                    self.j.s.push('{');
                    let p = self.path(did);
                    self.j.kstr("path", &p);
                    let (f, l, _) = self.span_of(tcx.def_span(did));
                    self.j.kstr("file", &f);
                    self.j.kint("line", l as i128);
                    self.j.kstr("dk", &format!("{:?}", tcx.def_kind(did)));
                    self.j.kbool("pub", tcx.visibility(did).is_public());
                    let adt = tcx.adt_def(did);
                    self.j.key("variants");
                    self.j.s.push('[');
                    for v in adt.variants() {
                        self.j.sep();
                        self.j.s.push('{');
                        self.j.kstr("n", v.name.as_str());
                        self.j.key("fields");
                        self.j.s.push('[');
                        for f in &v.fields {
                            self.j.sep();
                            self.j.s.push('{');
                            self.j.kstr("n", f.name.as_str());
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let t = self.ty(t);
                            self.j.kint("t", t as i128);
                            self.j.kbool("pub", f.vis.is_public());
                            self.j.s.push('}');
                        }
                        self.j.s.push(']');
                        self.j.s.push('}');
                    }
                    self.j.s.push(']');
                    self.j.s.push('}');
                }
                _ => {}
            }
        }
        self.j.s.push(']');
        self.j.key("statics");
        self.j.s.push('[');
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if let DefKind::Static { .. } = tcx.def_kind(did) {
                self.j.sep();
                self.j.s.push('{');
                let p = self.raw_path(did);
                self.j.kstr("path", &p);
                let parent = self.raw_path(tcx.parent(did));
                self.j.kstr("parent", &parent);
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let t = self.ty(t);
                self.j.kint("t", t as i128);
                let (f, l, _) = self.span_of(tcx.def_span(did));
                self.j.kstr("file", &f);
                self.j.kint("line", l as i128);
                self.j.s.push('}');
            }
        }
        self.j.s.push(']');
        self.j.key("tys");
        self.j.s.push('[');
        let l = std::mem::take(&mut self.tylist);
        for t in l {
            self.j.sep();
            self.j.str(&t);
        }
        self.j.s.push(']');
        self.j.s.push('}');
    }
}

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(dir) = std::env::var("SGDUMP_OUT") {
            let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
            let is_bin = tcx.crate_types().iter().any(|c| format!("{:?}", c) == "Executable");
            let mut d = D {
                tcx,
                j: J::new(),
                tys: HashMap::new(),
                tylist: Vec::new(),
                krate: krate.clone(),
            };
            d.run();
            let name = format!("{}/{}-{}.json", dir, if is_bin { "bin" } else { "lib" }, krate);
            std::fs::write(&name, &d.j.s).expect("write dump");
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    // Invoked as RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(0);
    }
    let print_only = args.iter().any(|a| a == "-vV" || a == "--version" || a == "--print");
    if print_only {
        struct No;
        impl Callbacks for No {}
        return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut No));
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
