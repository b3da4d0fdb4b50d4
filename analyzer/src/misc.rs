//! GLSL text, plain-data declarations, DynamicUniform.

use crate::checks::LAYOUTS;
use crate::interp::*;
use crate::oracle::*;
use crate::rules::*;
use crate::terms::*;
use crate::writers::seen;
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use std::collections::BTreeSet;

/// Split GLSL text into tokens.
pub fn tokens(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        if c.is_alphanumeric() || c == '_' || c == '#' {
            cur.push(c);
        } else {
            if !cur.is_empty() {
                v.push(std::mem::take(&mut cur));
            }
            if !c.is_whitespace() {
                v.push(c.to_string());
            }
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}

impl<'tcx> Ctx<'tcx> {
    /// What the crate being compiled links by itself (C21, without std).
    pub fn rule_linked(&mut self) {
        let tcx = self.tcx;
        for c in tcx.crates(()) {
            let name = tcx.crate_name(*c).to_string();
            let direct = tcx.extern_crate(*c).is_some_and(|e| e.is_direct());
            if direct && ["std", "alloc", "proc_macro", "test"].contains(&name.as_str()) {
                let at = tcx.extern_crate(*c).map(|e| tcx.sess.source_map().span_to_diagnostic_string(e.span)).unwrap_or_default();
                self.bad("linked", name.clone(), format!("without the std feature the crate still links {name}"), at);
            } else {
                self.ok("linked", || format!("{name}: {}", if direct { "used directly" } else { "a dependency's dependency" }));
            }
        }
    }

    /// GLSL names (C16).
    pub fn rule_names(&mut self, subs: &[Subject]) {
        let rule = "names";
        for s in subs {
            if matches!(s.glsl, Glsl::Dyn(_)) || self.only.contains_key(&s.ty) {
                continue;
            }
            // without std there is no GlslStruct to derive
            if s.origin == Origin::Derived && !self.has_trait("crevice::glsl::GlslStruct") {
                continue;
            }
            let want = s.glsl.name();
            let key = s.ty.to_string();
            if !self.implements(s.ty, "crevice::glsl::Glsl") {
                self.bad(rule, key, format!("{} ({want}) has no GLSL name", s.ty), "");
                continue;
            }
            match self.const_str(rule, "eg::name", &[s.ty]) {
                Ok(n) if n == want => self.ok(rule, || format!("{} is {n}", s.ty)),
                Ok(n) => {
                    let at = self.adt_span(s.ty);
                    self.bad(rule, key, format!("GLSL name of {} is {n:?}, its layout is that of {want}", s.ty), at)
                }
                Err(e) => self.failed(rule, &key, &e),
            }
        }
        // every name in the crate, known type or not
        for (t, span) in self.impls_of("crevice::glsl::Glsl", &["crevice"]) {
            if !Self::is_concrete(t) {
                continue;
            }
            let key = format!("impl for {t}");
            let n = match self.const_str(rule, "eg::name", &[t]) {
                Ok(n) => n,
                Err(e) => {
                    self.failed(rule, &key, &e);
                    continue;
                }
            };
            let Some(g) = Glsl::parse(&n) else {
                self.bad(rule, key, format!("GLSL name of {t} is {n:?}, not a GLSL primitive type"), span);
                continue;
            };
            for l in LAYOUTS {
                let lname = format!("crevice::{}::", l.name());
                let other = if l == Std140 { "crevice::std430::" } else { "crevice::std140::" };
                if t.to_string().starts_with(other) && !t.to_string().starts_with(&lname) && !t.to_string().ends_with("::Bool") {
                    continue;
                }
                let sub = Subject { ty: t, glsl: g.clone(), origin: Origin::Lib };
                let Some(lt) = self.layout_ty(&sub, l) else { continue };
                let (sz, al) = (self.size_of(lt), self.const_usize(rule, &Self::e(l, "align_of_layout"), &[lt]).unwrap_or(0));
                let mut lv = vec![];
                let scal: Option<BTreeSet<Scalar>> = self.leaves(t, 0, &mut lv).ok().map(|_| lv.iter().map(|x| x.sc).collect());
                let mut cs = vec![];
                g.comps(l, 0, &mut cs);
                let want: BTreeSet<Scalar> = cs.iter().map(|c| c.1).collect();
                if sz == g.size(l) && al == g.align(l) && scal.as_ref().map(|s| *s == want).unwrap_or(true) {
                    self.ok(rule, || format!("{t} is {n}, {} size {sz} alignment {al}", l.name()));
                } else {
                    self.bad(
                        rule,
                        format!("{key} {}", l.name()),
                        format!("{t} is called {n}, but its {} form has size {sz}, alignment {al}, scalars {scal:?}; {n} has {}, {}, {want:?}", l.name(), g.size(l), g.align(l)),
                        span.clone(),
                    );
                }
            }
        }
    }

    /// Generated struct definitions (C17).
    pub fn rule_definitions(&mut self, subs: &[Subject]) {
        let rule = "definitions";
        for s in subs {
            let Glsl::Struct(name, f) = &s.glsl else { continue };
            if self.only.contains_key(&s.ty) {
                continue;
            }
            let key = s.ty.to_string();
            if !self.implements(s.ty, "crevice::glsl::GlslStruct") {
                self.bad(rule, key, format!("{} derives no GLSL definition", s.ty), "");
                continue;
            }
            let at = self.adt_span(s.ty);
            let mut want = vec!["struct".to_string(), name.clone(), "{".into()];
            for (n, g) in f {
                want.extend([g.name(), n.clone(), ";".into()]);
            }
            want.extend(["}".into(), ";".into()]);
            match self.run(rule, "eg::definition", &[s.ty], new_state(), vec![]) {
                Ok((_, outs)) => {
                    for o in &outs {
                        if !matches!(o.end, End::Return(_)) {
                            self.failed(rule, &key, &o.end);
                            continue;
                        }
                        let e = seen(o);
                        let bytes: Vec<Byte> = e.emitted.iter().map(|b| o.st.res_byte(*b)).collect();
                        match Self::as_string(&bytes) {
                            Some(t) if tokens(&t) == want => self.ok(rule, || format!("{}: {}", s.ty, want.join(" "))),
                            Some(t) => self.bad(rule, key.clone(), format!("GLSL definition of {} is {:?}, expected {:?}", s.ty, t, want.join(" ")), at.clone()),
                            None => self.undecided(rule, key.clone(), "text is not constant", at.clone()),
                        }
                    }
                }
                Err(e) => self.undecided(rule, key.clone(), e, at.clone()),
            }
            match self.const_usize(rule, "eg::field_count", &[s.ty]) {
                Ok(n) if n == f.len() => self.ok(rule, || format!("{}: {n} fields", s.ty)),
                Ok(n) => {
                    self.bad(rule, format!("{key} FIELDS"), format!("{} lists {n} members, it has {}", s.ty, f.len()), at.clone());
                    continue;
                }
                Err(e) => {
                    self.failed(rule, &key, &e);
                    continue;
                }
            }
            for (i, (n, g)) in f.iter().enumerate() {
                match self.run(rule, "eg::field", &[s.ty], new_state(), vec![bytes_of(konst(i as u128, 8))]) {
                    Ok((_, outs)) => {
                        for o in &outs {
                            let mut got = (None, None);
                            for ev in &o.st.log {
                                match ev {
                                    Event::Emit(1, b) => got.0 = Self::as_string(b),
                                    Event::Emit(2, b) => got.1 = Self::as_string(b),
                                    _ => {}
                                }
                            }
                            if got == (Some(g.name()), Some(n.clone())) {
                                self.ok(rule, || format!("{} member {i}: {} {n}", s.ty, g.name()));
                            } else {
                                self.bad(rule, format!("{key} FIELDS[{i}]"), format!("member {i} of {} is listed as {got:?}, it is {} {n}", s.ty, g.name()), at.clone());
                            }
                        }
                    }
                    Err(e) => self.undecided(rule, key.clone(), e, at.clone()),
                }
            }
        }
    }

    /// Plain-data declarations (C05).
    pub fn rule_pod(&mut self, subs: &[Subject]) {
        let rule = "pod";
        let me = rustc_public::local_crate().name;
        let mut tys: Vec<(Ty, String)> = vec![];
        for tr in ["bytemuck::Pod", "bytemuck::Zeroable", "crevice::std140::Std140", "crevice::std430::Std430"] {
            if !self.has_trait(tr) {
                // bytemuck's traits are re-exported from private modules
                continue;
            }
        }
        let pod = self.trait_named("Pod");
        let zer = self.trait_named("Zeroable");
        for tr in [pod.clone(), zer.clone(), Some(Self::tr(Std140, "Std")), Some(Self::tr(Std430, "Std"))].into_iter().flatten() {
            for (t, span) in self.impls_of(&tr, &["crevice", &me]) {
                if Self::is_concrete(t) && !tys.iter().any(|x| x.0 == t) {
                    tys.push((t, span));
                }
            }
        }
        let (Some(pod), Some(zer)) = (pod, zer) else {
            self.undecided(rule, "traits", "bytemuck's Pod/Zeroable not found", "");
            return;
        };
        // layout types of all subjects (DynamicUniform instances among them)
        for s in subs {
            for l in LAYOUTS {
                if matches!(s.origin, Origin::Of(x) if x != l) {
                    continue;
                }
                if let Some(lt) = self.layout_ty(s, l) {
                    if !tys.iter().any(|x| x.0 == lt) {
                        let at = self.adt_span(lt);
                        tys.push((lt, at));
                    }
                }
            }
        }
        for (t, span) in tys {
            if t.to_string().contains("hand::") {
                continue;
            }
            match self.tiles(t) {
                Ok(n) => self.ok(rule, || format!("{t}: {n} bytes, all explicit")),
                Err(e) => {
                    let at = self.adt_span(t);
                    let at = if at.is_empty() { span } else { at };
                    self.bad(rule, t.to_string(), format!("{t} is declared plain data but {e}"), at)
                }
            }
            for tr in [&pod, &zer] {
                if self.implements(t, tr) {
                    self.ok(rule, || format!("{t}: {tr}"));
                } else {
                    self.bad(rule, format!("{t} {tr}"), format!("{t} does not implement {tr}"), span_of(&self.adt_span(t)));
                }
            }
        }
        // wrapping must not make plain data out of anything else
        if self.has_fn("hand::not_pod") {
            let wrap = self.table("hand::dyn_marker");
            for inner in self.table("hand::not_pod") {
                if let Some(TyKind::RigidTy(RigidTy::Adt(d, _))) = wrap.get(1).map(|t| t.kind()) {
                    let t = Ty::from_rigid_kind(RigidTy::Adt(d, GenericArgs(vec![GenericArgKind::Type(inner)])));
                    for tr in [pod.clone(), zer.clone(), Self::tr(Std140, "Std"), Self::tr(Std430, "Std")] {
                        // bool may be zeroed
                        if tr == zer && self.implements(inner, &zer) {
                            continue;
                        }
                        if self.implements(t, &tr) {
                            self.bad(rule, format!("{t} {tr}"), format!("{t} is declared {tr} although {inner} is not"), self.adt_span(t));
                        } else {
                            self.ok(rule, || format!("{t} is not {tr}"));
                        }
                    }
                }
            }
        }
    }

    pub fn trait_named(&self, n: &str) -> Option<String> {
        let mut v = self.trait_names();
        v.retain(|t| t.starts_with("bytemuck::") && t.rsplit("::").next() == Some(n));
        v.into_iter().min_by_key(|t| t.len())
    }

    /// Do the members tile the type with plain data?
    fn tiles(&mut self, t: Ty) -> Result<usize, String> {
        let n = self.size_of(t);
        let mut seen = vec![false; n];
        self.mark(t, 0, &mut seen)?;
        if let Some(i) = seen.iter().position(|b| !b) {
            return Err(format!("byte {i} of {n} is padding inserted by the compiler"));
        }
        let al = self.align_of_mem(t) as usize;
        if al > 0 && n % al != 0 {
            return Err(format!("size {n} is not a multiple of {al}"));
        }
        Ok(n)
    }

    fn mark(&mut self, t: Ty, base: usize, seen: &mut [bool]) -> Result<(), String> {
        let set = |seen: &mut [bool], n: usize| (base..base + n).for_each(|i| seen[i] = true);
        match t.kind() {
            TyKind::RigidTy(RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Float(_)) => {
                set(seen, self.size_of(t));
                Ok(())
            }
            TyKind::RigidTy(RigidTy::Array(e, n)) => {
                let n = n.eval_target_usize().map_err(|e| format!("{e:?}"))? as usize;
                let s = self.size_of(e);
                for i in 0..n {
                    self.mark(e, base + i * s, seen)?;
                }
                Ok(())
            }
            TyKind::RigidTy(RigidTy::Tuple(v)) if v.is_empty() => Ok(()),
            TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Struct => {
                if d.krate().name == "core" && d.trimmed_name() == "PhantomData" {
                    return Ok(());
                }
                if d.krate().name == "core" {
                    return Err(format!("contains {t}"));
                }
                for (_, ft, o) in self.fields(t).ok_or("unknown fields")? {
                    self.mark(ft, base + o, seen)?;
                }
                Ok(())
            }
            _ => Err(format!("contains {t}, which has invalid bit patterns or is not plain data")),
        }
    }

    /// DynamicUniform around every given type (C15).
    pub fn dyn_subjects(&mut self, subs: &[Subject]) -> Vec<Subject> {
        let wrap = self.table("hand::dyn_marker");
        let Some(TyKind::RigidTy(RigidTy::Adt(d, _))) = wrap.first().map(|t| t.kind()) else { return vec![] };
        let mk = |t: Ty| Ty::from_rigid_kind(RigidTy::Adt(d, GenericArgs(vec![GenericArgKind::Type(t)])));
        let mut v = vec![];
        for s in subs {
            if !matches!(s.origin, Origin::Of(_)) {
                let t = mk(s.ty);
                v.push(Subject { ty: t, glsl: Glsl::Dyn(Box::new(s.glsl.clone())), origin: Origin::Lib });
                if v.len() % 16 == 1 {
                    v.push(Subject { ty: mk(t), glsl: Glsl::Dyn(Box::new(Glsl::Dyn(Box::new(s.glsl.clone())))), origin: Origin::Lib });
                }
            }
        }
        v
    }

    pub fn rule_dyn(&mut self, dy: &[Subject]) {
        let rule = "dynamic";
        let mut inner: Vec<(Ty, Ty)> = vec![];
        for s in dy {
            if let TyKind::RigidTy(RigidTy::Adt(_, a)) = s.ty.kind() {
                if let Some(GenericArgKind::Type(t)) = a.0.first() {
                    inner.push((s.ty, *t));
                }
            }
        }
        // layout types, and an inner alignment above 256
        let wrap = self.table("hand::dyn_marker");
        let mut more = self.table("hand::big_align");
        for f in self.fn_names("std140__") {
            more.extend(self.table(&f));
        }
        for t in more {
            if let Some(TyKind::RigidTy(RigidTy::Adt(d, _))) = wrap.first().map(|t| t.kind()) {
                inner.push((Ty::from_rigid_kind(RigidTy::Adt(d, GenericArgs(vec![GenericArgKind::Type(t)]))), t));
            }
        }
        for (w, t) in inner {
            let f = Self::e(Std140, "align");
            if !self.implements(w, &Self::tr(Std140, "As")) {
                self.bad(rule, w.to_string(), format!("{w} has no std140 form"), "");
                continue;
            }
            match (self.const_usize(rule, &f, &[w]), self.const_usize(rule, &f, &[t])) {
                (Ok(a), Ok(b)) if a == b.max(256) => self.ok(rule, || format!("alignment of {w} = {a}")),
                (Ok(a), Ok(b)) => self.bad(rule, format!("{w} align"), format!("alignment of {w} is {a}, expected max(256, {b})"), ""),
                (Err(e), _) | (_, Err(e)) => self.failed(rule, &w.to_string(), &e),
            }
            let f = Self::e(Std140, "size_static");
            match (self.const_usize(rule, &f, &[w]), self.const_usize(rule, &f, &[t])) {
                (Ok(a), Ok(b)) if a == b => self.ok(rule, || format!("size of {w} = {a}")),
                (Ok(a), Ok(b)) => self.bad(rule, format!("{w} size"), format!("size of {w} is {a}, that of the value is {b}"), ""),
                (Err(e), _) | (_, Err(e)) => self.failed(rule, &w.to_string(), &e),
            }
        }
    }
}

fn span_of(s: &str) -> String {
    s.to_string()
}
