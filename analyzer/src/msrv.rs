//! Which version of Rust the crate being compiled needs (C27).

use crate::rules::*;
use rustc_attr_ir::StableSince;
use rustc_hir::def::{DefKind, Res};
use rustc_hir::intravisit::{self, Visitor};
use rustc_hir::{self as hir, HirId};
use rustc_middle::hir::nested_filter;
use rustc_middle::mir;
use rustc_middle::ty::{self, TyCtxt, TypeckResults};
use rustc_span::def_id::DefId;
use rustc_span::{ExpnKind, MacroKind, Span};
use std::collections::{BTreeMap, BTreeSet};

struct Look<'tcx> {
    tcx: TyCtxt<'tcx>,
    minor: u16,
    /// only code the derives generated
    derived: bool,
    typeck: Option<&'tcx TypeckResults<'tcx>>,
    owner: Option<rustc_span::def_id::LocalDefId>,
    constant: bool,
    /// the `!` of a function's return type
    ret: Option<HirId>,
    used: BTreeSet<String>,
    found: BTreeMap<String, (String, Span)>,
}

fn standard(tcx: TyCtxt<'_>, d: DefId) -> bool {
    !d.is_local() && matches!(tcx.crate_name(d.krate).as_str(), "core" | "alloc" | "std" | "proc_macro")
}

impl<'tcx> Look<'tcx> {
    /// Is this code ours to judge?  Macros of the standard library may use whatever their own version has.
    fn ours(&mut self, span: Span) -> bool {
        let mut derived = false;
        for e in std::iter::successors((!span.ctxt().is_root()).then(|| span.ctxt().outer_expn_data()), |e| (!e.call_site.ctxt().is_root()).then(|| e.call_site.ctxt().outer_expn_data())) {
            if let Some(m) = e.macro_def_id {
                if standard(self.tcx, m) {
                    let inside = self.derived && !derived && !e.call_site.ctxt().is_root() || !self.derived;
                    if inside {
                        self.item(m, e.call_site);
                    }
                    return false;
                }
            }
            if let ExpnKind::Macro(MacroKind::Derive, n) = e.kind {
                derived |= ["AsStd140", "AsStd430", "GlslStruct"].iter().any(|x| n.as_str().ends_with(x));
            }
        }
        derived || !self.derived
    }

    fn too_new(&self, s: StableSince) -> Option<String> {
        match s {
            StableSince::Version(v) if v.major > 1 || v.minor > self.minor => Some(format!("{}.{}", v.major, v.minor)),
            StableSince::Current => Some("a later version".into()),
            _ => None,
        }
    }

    fn note(&mut self, what: String, since: String, span: Span) {
        self.found.entry(what).or_insert((since, span));
    }

    fn item(&mut self, d: DefId, span: Span) {
        let tcx = self.tcx;
        if !standard(tcx, d) {
            return;
        }
        let name = rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(d));
        self.used.insert(name.clone());
        let mut x = Some(d);
        while let Some(i) = x {
            if let Some(v) = tcx.lookup_stability(i).and_then(|s| s.stable_since()).and_then(|s| self.too_new(s)) {
                self.note(name, v, span);
                return;
            }
            // constructors and variants carry their owner's version
            x = match tcx.def_kind(i) {
                DefKind::Ctor(..) | DefKind::Variant => tcx.opt_parent(i),
                _ => None,
            };
        }
        if self.constant && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Some(v) = tcx.lookup_const_stability(d).and_then(|s| s.level.stable_since()).and_then(|s| self.too_new(s)) {
                self.note(format!("{name} in a constant"), v, span);
            }
        }
    }

    fn resolved(&mut self, id: HirId, span: Span) {
        let Some(t) = self.typeck.filter(|t| t.hir_owner == id.owner) else { return };
        let Some(d) = t.type_dependent_def_id(id) else { return };
        self.item(d, span);
    }

    /// The implementation a call chooses may be younger than its trait.
    fn chosen(&mut self, body: &mir::Body<'tcx>) {
        let env = body.typing_env(self.tcx);
        for c in &consts(body) {
            let ty::FnDef(d, args) = c.const_.ty().kind() else { continue };
            if self.tcx.trait_of_assoc(*d).is_none() || !self.ours(c.span) {
                continue;
            }
            let Ok(args) = self.tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args.skip_binder())) else { continue };
            if let Ok(Some(i)) = ty::Instance::try_resolve(self.tcx, env, *d, args) {
                if let Some(imp) = self.tcx.opt_parent(i.def_id()).filter(|p| matches!(self.tcx.def_kind(*p), DefKind::Impl { .. })) {
                    self.item(imp, c.span);
                }
            }
        }
    }

    fn lang(&mut self, what: &str, since: u16, span: Span) {
        if since > self.minor && self.ours(span) {
            self.note(what.into(), format!("1.{since}"), span);
        }
    }
}

fn consts<'tcx>(body: &mir::Body<'tcx>) -> Vec<mir::ConstOperand<'tcx>> {
    struct V<'tcx>(Vec<mir::ConstOperand<'tcx>>);
    impl<'tcx> mir::visit::Visitor<'tcx> for V<'tcx> {
        fn visit_const_operand(&mut self, c: &mir::ConstOperand<'tcx>, _: mir::Location) {
            self.0.push(*c);
        }
    }
    let mut v = V(vec![]);
    mir::visit::Visitor::visit_body(&mut v, body);
    v.0
}

fn has_let(e: &hir::Expr<'_>) -> bool {
    match e.kind {
        hir::ExprKind::Let(_) => true,
        hir::ExprKind::Binary(op, a, b) if op.node == hir::BinOpKind::And => has_let(a) || has_let(b),
        hir::ExprKind::DropTemps(e) => has_let(e),
        _ => false,
    }
}

impl<'tcx> Visitor<'tcx> for Look<'tcx> {
    type NestedFilter = nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_nested_body(&mut self, id: hir::BodyId) {
        let old = (self.typeck, self.owner, self.constant);
        let o = self.tcx.hir_body_owner_def_id(id);
        self.typeck = Some(self.tcx.typeck_body(id));
        self.owner = Some(o);
        self.constant = self.tcx.hir_body_const_context(o).is_some();
        let b = self.tcx.hir_body(id);
        self.visit_body(b);
        (self.typeck, self.owner, self.constant) = old;
    }
    fn visit_path(&mut self, p: &hir::Path<'tcx>, _: HirId) {
        if self.ours(p.span) {
            if let Res::Def(_, d) = p.res {
                self.item(d, p.span);
            }
            for s in p.segments {
                if let Res::Def(_, d) = s.res {
                    self.item(d, p.span);
                }
            }
        }
        intravisit::walk_path(self, p)
    }
    fn visit_qpath(&mut self, q: &'tcx hir::QPath<'tcx>, id: HirId, span: Span) {
        if self.ours(span) {
            self.resolved(id, span);
        }
        intravisit::walk_qpath(self, q, id)
    }
    fn visit_fn_decl(&mut self, f: &'tcx hir::FnDecl<'tcx>) {
        if let hir::FnRetTy::Return(t) = f.output {
            if matches!(t.kind, hir::TyKind::Never) {
                self.ret = Some(t.hir_id);
            }
        }
        intravisit::walk_fn_decl(self, f)
    }
    fn visit_ty(&mut self, t: &'tcx hir::Ty<'tcx, hir::AmbigArg>) {
        if matches!(t.kind, hir::TyKind::Never) && self.ret != Some(t.hir_id) {
            self.lang("the type `!`", 100, t.span);
        }
        intravisit::walk_ty(self, t)
    }
    fn visit_infer(&mut self, id: HirId, span: Span, kind: intravisit::InferKind<'tcx>) {
        if let intravisit::InferKind::Const(_) = kind {
            self.lang("an inferred constant argument", 89, span);
        }
        self.visit_id(id)
    }
    fn visit_trait_item(&mut self, i: &'tcx hir::TraitItem<'tcx>) {
        struct Use(Option<Span>);
        impl<'v> Visitor<'v> for Use {
            fn visit_precise_capturing_arg(&mut self, a: &'v hir::PreciseCapturingArg<'v>) {
                if let hir::PreciseCapturingArgKind::Param(p) = a {
                    self.0 = Some(p.ident.span);
                }
            }
        }
        let mut u = Use(None);
        intravisit::walk_trait_item(&mut u, i);
        if let Some(s) = u.0 {
            self.lang("precise capturing in a trait", 87, s);
        }
        intravisit::walk_trait_item(self, i)
    }
    fn visit_arm(&mut self, a: &'tcx hir::Arm<'tcx>) {
        if let Some(g) = a.guard.filter(|g| has_let(g)) {
            self.lang("`if let` in a match guard", 95, g.span);
        }
        intravisit::walk_arm(self, a)
    }
    fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
        if let hir::ExprKind::If(c, ..) = e.kind {
            if let hir::ExprKind::Binary(..) = c.peel_drop_temps().kind {
                if has_let(c) {
                    self.lang("`let` in a chain of conditions", 88, c.span);
                }
            }
        }
        if self.ours(e.span) {
            if !matches!(e.kind, hir::ExprKind::Path(_)) {
                self.resolved(e.hir_id, e.span);
            }
            if let Some(t) = self.typeck.filter(|t| t.hir_owner == e.hir_id.owner) {
                for w in t.expr_adjustments(e).windows(1) {
                    if let ty::adjustment::Adjust::Pointer(ty::adjustment::PointerCoercion::Unsize) = w[0].kind {
                        let from = t.expr_ty(e).peel_refs();
                        let to = w[0].target.peel_refs();
                        if let (ty::Dynamic(a, ..), ty::Dynamic(b, ..)) = (from.kind(), to.kind()) {
                            if a.principal_def_id() != b.principal_def_id() && b.principal_def_id().is_some() {
                                self.note("trait upcasting".into(), "1.86".into(), e.span);
                            }
                        }
                    }
                }
            }
        }
        intravisit::walk_expr(self, e)
    }
}

impl<'tcx> Ctx<'tcx> {
    /// Everything the local crate uses was stable in Rust `1.minor`.
    pub fn rule_msrv(&mut self, mode: &str) {
        let tcx = self.tcx;
        let minor: u16 = std::env::var("CREVICE_VERIF_MSRV").ok().and_then(|v| v.parse().ok()).unwrap_or(85);
        let rule = format!("msrv.{mode}");
        let krate = rustc_public::local_crate().name;
        let mut v = Look { tcx, minor, derived: mode == "derived", typeck: None, owner: None, constant: false, ret: None, used: BTreeSet::new(), found: BTreeMap::new() };
        tcx.hir_walk_toplevel_module(&mut v);
        for d in tcx.mir_keys(()).iter().cloned() {
            if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
                continue;
            }
            match tcx.hir_body_const_context(d) {
                None | Some(hir::ConstContext::ConstFn) => v.chosen(tcx.optimized_mir(d)),
                _ => v.chosen(tcx.mir_for_ctfe(d)),
            }
        }
        let (used, found) = (v.used, v.found);
        for name in &used {
            if !found.keys().any(|k| k == name || k.starts_with(&format!("{name} "))) {
                self.ok(&rule, || format!("{krate}: {name} is in Rust 1.{minor}"));
            }
        }
        self.ok(&rule, || format!("{krate}: language constructs of Rust 1.{minor} only"));
        let what = if mode == "derived" { "code generated by the derives".to_string() } else { krate };
        for (k, (since, s)) in found {
            self.bad(&rule, format!("{what}: {k}"), format!("{what} uses {k}, which Rust has since {since}; the crate promises to build with 1.{minor}"), tcx.sess.source_map().span_to_diagnostic_string(s.source_callsite()));
        }
    }
}
