//! What the crate being compiled touches besides its arguments (C28, C29).

use crate::rules::*;
use rustc_hir::def::DefKind;
use rustc_middle::mir::visit::Visitor;
use rustc_middle::mir::{self, ConstOperand, Location, Operand, Rvalue, TerminatorKind};
use rustc_middle::ty::{self, TyCtxt};
use rustc_span::def_id::{DefId, LocalDefId};
use rustc_span::Span;
use std::collections::BTreeSet;

/// Paths whose functions look at, or change, something outside their arguments.
const OUTSIDE: &[(&str, &str)] = &[
    ("std::env", "the environment"),
    ("std::time", "the clock"),
    ("std::fs", "files"),
    ("std::net", "the network"),
    ("std::process", "processes"),
    ("std::thread", "threads or thread-local state"),
    ("std::os", "the operating system"),
    ("std::sync", "state shared between calls"),
    ("core::sync", "state shared between calls"),
    ("std::io::stdin", "standard input"),
    ("std::io::stdout", "standard output"),
    ("std::io::stderr", "standard error"),
    ("std::io::_print", "standard output"),
    ("std::io::_eprint", "standard error"),
    ("std::io::stdio", "standard streams"),
    ("std::hash::random", "a random seed"),
    ("std::collections::hash_map::RandomState", "a random seed"),
    ("std::backtrace", "the call stack"),
    ("std::random", "random numbers"),
    ("std::panic::set_hook", "the panic hook"),
    ("std::panic::take_hook", "the panic hook"),
    ("core::arch", "processor state"),
    ("proc_macro::tracked", "the environment"),
];

/// A hash table's order differs from run to run.
const UNORDERED: &[&str] = &["iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "into_iter", "drain", "retain", "extract_if", "union", "intersection", "difference", "symmetric_difference", "next"];

/// Where an item stands in its file is not part of the item.
const POSITION: &[&str] = &["line", "column", "file", "local_file", "source_file", "source_text", "byte_range", "start", "end"];

struct Look<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'a mir::Body<'tcx>,
    derive: bool,
    calls: usize,
    /// the body puts things into an order of its own
    sorts: bool,
    found: Vec<(String, Span)>,
}

fn plain(tcx: TyCtxt<'_>, d: DefId) -> String {
    let krate = tcx.crate_name(d.krate).to_string();
    let mut p = krate;
    for x in tcx.def_path(d).data {
        if let Some(n) = x.data.get_opt_name() {
            p.push_str("::");
            p.push_str(n.as_str());
        }
    }
    p
}

fn within(p: &str, prefix: &str) -> bool {
    p == prefix || p.starts_with(prefix) && p[prefix.len()..].starts_with("::")
}

/// A name a reader would write: the path the standard library exports.
fn public(tcx: TyCtxt<'_>, d: DefId) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(d))
}

fn freeze<'tcx>(tcx: TyCtxt<'tcx>, t: ty::Ty<'tcx>) -> bool {
    t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized())
}

impl<'a, 'tcx> Look<'a, 'tcx> {
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, span: Span) {
        let tcx = self.tcx;
        self.calls += 1;
        let names = [plain(tcx, d), public(tcx, d)];
        for (prefix, what) in OUTSIDE {
            if self.derive && *what == "standard error" {
                continue;
            }
            if names.iter().any(|n| within(n, prefix)) {
                self.found.push((format!("uses {what}: {}", names[1]), span));
                return;
            }
        }
        if tcx.is_foreign_item(d) {
            self.found.push((format!("calls the foreign function {}", names[1]), span));
        }
        let name = tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default();
        let ordered = |t: ty::Ty<'tcx>| t.walk().any(|a| matches!(a.as_type().map(|t| t.kind().clone()), Some(ty::Adt(a, _)) if plain(tcx, a.did()).contains("::btree::")));
        self.sorts |= name.starts_with("sort") || args.types().any(ordered);
        if UNORDERED.contains(&name.as_str()) {
            let mut tables = args.types().filter(|t| {
                t.walk().any(|a| match a.as_type().map(|t| t.peel_refs().kind().clone()) {
                    Some(ty::Adt(a, _)) => {
                        let p = plain(tcx, a.did());
                        p.starts_with("std::collections::hash") || p.starts_with("hashbrown")
                    }
                    _ => false,
                })
            });
            let own = names[0].starts_with("std::collections::hash") || names[0].starts_with("hashbrown");
            if own || name == "into_iter" && tables.next().is_some() {
                self.found.push((format!("depends on the order of a hash table: {}", names[1]), span));
            }
        }
        if self.derive && POSITION.contains(&name.as_str()) && (names[0].starts_with("proc_macro") && names[0].contains("Span") || names[0].contains("span::") || names[0].contains("::location")) {
            self.found.push((format!("depends on where the item stands in its file: {}", names[1]), span));
        }
    }
}

impl<'a, 'tcx> Visitor<'tcx> for Look<'a, 'tcx> {
    fn visit_const_operand(&mut self, c: &ConstOperand<'tcx>, _: Location) {
        if let Some(d) = c.check_static_ptr(self.tcx) {
            let t = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
            if self.tcx.is_mutable_static(d) || !freeze(self.tcx, t) {
                self.found.push((format!("uses the global {}, which can change", public(self.tcx, d)), c.span));
            } else if self.tcx.is_foreign_item(d) {
                self.found.push((format!("uses the foreign global {}", public(self.tcx, d)), c.span));
            }
        }
        if let ty::FnDef(d, args) = c.const_.ty().kind() {
            self.callee(*d, args.skip_binder(), c.span);
        }
    }
    fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, l: Location) {
        if let Rvalue::ThreadLocalRef(d) = r {
            self.found.push((format!("uses the thread-local {}", public(self.tcx, *d)), self.body.source_info(l).span));
        }
        self.super_rvalue(r, l);
    }
    fn visit_terminator(&mut self, t: &mir::Terminator<'tcx>, l: Location) {
        if let TerminatorKind::InlineAsm { .. } = t.kind {
            self.found.push(("uses inline assembly".into(), t.source_info.span));
        }
        self.super_terminator(t, l);
    }
}

impl<'tcx> Ctx<'tcx> {
    /// Effects of every body of the local crate.  `mode`: "lib" (a library), "derive" (the derive crate), "derived" (only what the derives generated).
    pub fn rule_effects(&mut self, mode: &str) {
        let tcx = self.tcx;
        let rule = format!("effects.{mode}");
        let at = |s: Span| tcx.sess.source_map().span_to_diagnostic_string(s.source_callsite());
        let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().cloned().collect();
        keys.sort_by_key(|k| tcx.def_path_str(*k));
        let test = |d: LocalDefId| tcx.def_path_str(d).contains("::test::");
        for d in keys {
            let kind = tcx.def_kind(d);
            if matches!(kind, DefKind::Ctor(..)) || test(d) {
                continue;
            }
            let span = tcx.def_span(d);
            if mode == "derived" {
                let gen = span.ctxt().outer_expn_data();
                let by = match gen.kind {
                    rustc_span::ExpnKind::Macro(rustc_span::MacroKind::Derive, n) => n.to_string(),
                    _ => String::new(),
                };
                if !["AsStd140", "AsStd430", "GlslStruct"].iter().any(|x| by.ends_with(x)) {
                    continue;
                }
            }
            let name = tcx.def_path_str(d);
            let mut bodies: Vec<&mir::Body<'tcx>> = vec![];
            match tcx.hir_body_const_context(d) {
                None | Some(rustc_hir::ConstContext::ConstFn) => bodies.push(tcx.optimized_mir(d)),
                _ => bodies.push(tcx.mir_for_ctfe(d)),
            }
            bodies.extend(tcx.promoted_mir(d).iter());
            let (mut calls, mut found) = (0, vec![]);
            for b in bodies {
                let mut v = Look { tcx, body: b, derive: mode == "derive", calls: 0, sorts: false, found: vec![] };
                v.visit_body(b);
                if v.sorts {
                    v.found.retain(|f| !f.0.contains("the order of a hash table"));
                }
                calls += v.calls;
                found.extend(v.found);
            }
            let mut told = BTreeSet::new();
            if found.is_empty() {
                self.ok(&rule, || format!("{name}: {calls} functions named, none looks outside its arguments"));
            }
            for (what, s) in found {
                if told.insert(what.clone()) {
                    self.bad(&rule, format!("{name} {what}"), format!("{name} {what}"), at(s));
                }
            }
        }
        if mode == "derived" {
            return;
        }
        // globals that can change
        for d in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Static { mutability, .. } = tcx.def_kind(d) {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let name = tcx.def_path_str(d);
                if mutability.is_mut() || !freeze(tcx, t) {
                    self.bad(&rule, format!("static {name}"), format!("the global {name} can change between calls"), at(tcx.def_span(d)));
                } else {
                    self.ok(&rule, || format!("{name}: a constant global"));
                }
            }
        }
        // values taken from the environment while compiling
        for (k, _) in tcx.sess.env_depinfo.borrow().iter() {
            let k = k.to_string();
            if ["CARGO_PKG_", "CARGO_CRATE_NAME", "RUST", "CLIPPY"].iter().any(|p| k.starts_with(p)) {
                self.ok(&rule, || format!("{k}: set by the package"));
            } else {
                self.bad(&rule, format!("env {k}"), format!("the meaning of the crate depends on the environment variable {k} while it is compiled"), "");
            }
        }
    }
}
