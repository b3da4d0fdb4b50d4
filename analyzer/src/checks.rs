//! Rule families over the subjects.

use crate::interp::*;
use crate::oracle::*;
use crate::rules::*;
use crate::terms::*;
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;

fn org(o: Origin) -> &'static str {
    match o {
        Origin::Lib => "lib",
        Origin::Of(_) => "layout",
        Origin::Derived => "derived",
    }
}

pub const LAYOUTS: [Layout; 2] = [Std140, Std430];

impl<'tcx> Ctx<'tcx> {
    /// In which layouts is the subject to be examined?
    fn layouts(&self, s: &Subject) -> Vec<Layout> {
        if let Some(l) = self.only.get(&s.ty) {
            return vec![*l];
        }
        match s.origin {
            _ if matches!(s.glsl, Glsl::Dyn(_)) => vec![Std140],
            Origin::Of(l) => vec![l],
            _ => LAYOUTS.to_vec(),
        }
    }

    /// The subject's layout type, or None (with a coverage violation) if it has none.
    pub fn layout_ty(&mut self, s: &Subject, l: Layout) -> Option<Ty> {
        if !self.implements(s.ty, &Self::tr(l, "As")) {
            return None;
        }
        let inst = self.inst(&Self::e(l, "to"), &[s.ty]).ok()?;
        self.ret_ty(&inst)
    }

    // ------------------------------------------------------------ coverage (C20)

    pub fn rule_coverage(&mut self, subs: &[Subject]) {
        let glsl = "crevice::glsl::Glsl".to_string();
        for s in subs {
            for l in self.layouts(s) {
                for w in ["As", "Std"] {
                    if w == "Std" && !matches!(s.origin, Origin::Of(_)) {
                        continue;
                    }
                    let t = Self::tr(l, w);
                    let rule = format!("coverage.{}", org(s.origin));
                    if self.implements(s.ty, &t) {
                        self.ok(&rule, || format!("{}: {}", s.ty, t));
                    } else {
                        self.bad(&rule, format!("{} {t}", s.ty), format!("{} ({}) does not implement {t}", s.ty, s.glsl.name()), "");
                    }
                }
            }
            if !matches!(s.glsl, Glsl::Dyn(_)) {
                let rule = format!("coverage.{}", org(s.origin));
                if self.implements(s.ty, &glsl) {
                    self.ok(&rule, || format!("{}: {}", s.ty, glsl));
                } else {
                    self.bad(&rule, format!("{} {glsl}", s.ty), format!("{} ({}) has no GLSL name", s.ty, s.glsl.name()), "");
                }
            }
        }
        // no type has one layout only
        let a = self.impls_of(&Self::tr(Std140, "As"), &["crevice"]);
        let b = self.impls_of(&Self::tr(Std430, "As"), &["crevice"]);
        for (v, other) in [(&a, Std430), (&b, Std140)] {
            for (t, span) in v.iter() {
                let name = t.to_string();
                if matches!(t.kind(), TyKind::Param(_)) || name.contains("DynamicUniform") || name.contains("std140::") || name.contains("std430::") {
                    continue;
                }
                if self.implements(*t, &Self::tr(other, "As")) {
                    self.ok("coverage.symmetric", || format!("{name} has {}", Self::tr(other, "As")));
                } else {
                    self.bad("coverage.symmetric", name.clone(), format!("{name} has no {} although it has the other layout", Self::tr(other, "As")), span.clone());
                }
            }
        }
    }

    // ------------------------------------------------------------ sizes, alignments, offsets

    pub fn rule_layout(&mut self, subs: &[Subject]) {
        for s in subs {
            for l in self.layouts(s) {
                let rule = format!("layout.{}.{}", l.name(), org(s.origin));
                let Some(lt) = self.layout_ty(s, l) else {
                    self.bad(&rule, s.ty.to_string(), format!("{} has no {} form", s.ty, l.name()), "");
                    continue;
                };
                let at = self.adt_span(lt);
                let key = format!("{} {}", s.ty, l.name());
                let (want_a, want_s) = (s.glsl.align(l), s.glsl.size(l));
                let size = self.size_of(lt);
                if size == want_s {
                    self.ok(&rule, || format!("size_of {lt} = {size}"));
                } else {
                    self.bad(&rule, format!("{key} size"), format!("{} form of {} ({}) is {size} bytes, GLSL says {want_s}", l.name(), s.ty, s.glsl.name()), at.clone());
                }
                match self.const_usize(&rule, &Self::e(l, "align_of_layout"), &[lt]) {
                    Ok(a) if a == want_a => self.ok(&rule, || format!("ALIGNMENT of {lt} = {a}")),
                    Ok(a) => self.bad(&rule, format!("{key} align"), format!("{} alignment of {} ({}) is {a}, GLSL says {want_a}", l.name(), s.ty, s.glsl.name()), at.clone()),
                    Err(e) => self.failed(&rule, &key, &e),
                }
                // the representation must be one the language defines
                if let TyKind::RigidTy(RigidTy::Adt(d, _)) = lt.kind() {
                    let r = {
                        let did = rustc_public::rustc_internal::internal(self.tcx, d.def_id());
                        let repr = self.tcx.adt_def(did).repr();
                        repr.c() || repr.transparent()
                    };
                    if r {
                        self.ok(&rule, || format!("{lt} has a defined representation"));
                    } else {
                        self.bad(&rule, format!("{key} repr"), format!("{lt} is repr(Rust): the compiler may reorder its members"), at.clone());
                    }
                }
                match &s.glsl {
                    Glsl::V(sc, n) if s.origin == Origin::Of(l) => {
                        self.named_fields(&rule, &key, lt, (0..*n).map(|i| (i * sc.size(), sc.size())).collect(), &at);
                    }
                    Glsl::M(sc, n) if s.origin == Origin::Of(l) => {
                        let st = s.glsl.column_stride(l);
                        self.named_fields(&rule, &key, lt, (0..*n).map(|i| (i * st, n * sc.size())).collect(), &at);
                    }
                    Glsl::Struct(_, f) => {
                        // members of the derived type, by name
                        let offs = s.glsl.member_offsets(l);
                        let names: Vec<String> = f.iter().map(|x| x.0.clone()).collect();
                        let sizes: Vec<usize> = f.iter().map(|x| x.1.size(l)).collect();
                        let got = self.fields(lt).unwrap_or_default();
                        for ((n, o), sz) in names.iter().zip(offs).zip(sizes) {
                            match got.iter().find(|g| g.0 == *n) {
                                Some((_, t, go)) => {
                                    let gs = self.size_of(*t);
                                    if *go == o && gs == sz {
                                        self.ok(&rule, || format!("{lt}.{n} at {go}, {gs} bytes"));
                                    } else {
                                        self.bad(&rule, format!("{key} member {n}"), format!("{} member {n} of {} is at offset {go} with {gs} bytes, GLSL says offset {o} with {sz} bytes", l.name(), s.ty), at.clone());
                                    }
                                }
                                None => self.bad(&rule, format!("{key} member {n}"), format!("{lt} has no member {n}"), at.clone()),
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
    }

    fn named_fields(&mut self, rule: &str, key: &str, lt: Ty, want: Vec<(usize, usize)>, at: &str) {
        let got = self.fields(lt).unwrap_or_default();
        for (i, (o, sz)) in want.iter().enumerate() {
            let n = ["x", "y", "z", "w"][i];
            match got.iter().find(|g| g.0 == n) {
                Some((_, t, go)) => {
                    let gs = self.size_of(*t);
                    if go == o && gs == *sz {
                        self.ok(rule, || format!("{lt}.{n} at {go}, {gs} bytes"));
                    } else {
                        self.bad(rule, format!("{key}.{n}"), format!("{lt}.{n} is at offset {go} with {gs} bytes, GLSL says offset {o} with {sz} bytes"), at.to_string());
                    }
                }
                None => self.bad(rule, format!("{key}.{n}"), format!("{lt} has no public component {n}"), at.to_string()),
            }
        }
    }

    // ------------------------------------------------------------ alignments (C24)

    pub fn rule_align(&mut self, subs: &[Subject]) {
        for s in subs {
            for l in self.layouts(s) {
                let Some(lt) = self.layout_ty(s, l) else { continue };
                self.align_pow2(lt, l, &s.ty.to_string());
                if s.origin == Origin::Derived {
                    let rule = "align.members";
                    let at = self.adt_span(lt);
                    let Ok(a) = self.const_usize(rule, &Self::e(l, "align_of_layout"), &[lt]) else { continue };
                    let size = self.size_of(lt);
                    if a != 0 && size % a == 0 {
                        self.ok(rule, || format!("{lt}: {a} divides {size}"));
                    } else {
                        self.bad(rule, format!("{} {} size", s.ty, l.name()), format!("{lt} has size {size}, not a multiple of its alignment {a}"), at.clone());
                    }
                    for (n, t, _) in self.fields(s.ty).unwrap_or_default() {
                        let ft = Subject { ty: t, glsl: s.glsl.clone(), origin: Origin::Lib };
                        let Some(flt) = self.layout_ty(&ft, l) else { continue };
                        let Ok(fa) = self.const_usize(rule, &Self::e(l, "align_of_layout"), &[flt]) else { continue };
                        if fa <= a {
                            self.ok(rule, || format!("{lt}: {a} >= alignment {fa} of member {n}"));
                        } else {
                            self.bad(rule, format!("{} {} {n}", s.ty, l.name()), format!("{lt} publishes alignment {a}, less than {fa} of its member {n}"), at.clone());
                        }
                    }
                }
            }
        }
        // dynamic uniforms of hand-made layout types
        let wrap = self.table("hand::dyn_marker");
        if let Some(TyKind::RigidTy(RigidTy::Adt(d, _))) = wrap.get(1).map(|t| t.kind()) {
            for t in self.table("hand::layouts") {
                let w = Ty::from_rigid_kind(RigidTy::Adt(d, GenericArgs(vec![GenericArgKind::Type(t)])));
                self.align_pow2(w, Std140, &w.to_string());
            }
        }
        // every other layout type of the crate
        for l in LAYOUTS {
            for (t, _) in self.impls_of(&Self::tr(l, "Std"), &["crevice"]) {
                if Self::is_concrete(t) {
                    self.align_pow2(t, l, &t.to_string());
                }
            }
        }
    }

    pub fn is_concrete(t: Ty) -> bool {
        let s = format!("{:?}", t);
        !s.contains("Param(")
    }

    fn align_pow2(&mut self, lt: Ty, l: Layout, name: &str) {
        let rule = "align.pow2";
        match self.const_usize(rule, &Self::e(l, "align_of_layout"), &[lt]) {
            Ok(a) if a.is_power_of_two() => self.ok(rule, || format!("{lt}: {a}")),
            Ok(a) => {
                let at = self.adt_span(lt);
                self.bad(rule, format!("{name} {}", l.name()), format!("{lt} publishes ALIGNMENT {a}, not a power of two"), at)
            }
            Err(e) => self.failed(rule, &format!("{name} {}", l.name()), &e),
        }
    }

    // ------------------------------------------------------------ conversions (C06, C07, C08, C09)

    pub fn rule_to(&mut self, subs: &[Subject]) {
        for s in subs {
            for l in self.layouts(s) {
                if self.mine() {
                    self.to_one(s, l);
                }
            }
        }
    }

    fn to_one(&mut self, s: &Subject, l: Layout) {
        let rule = format!("to.{}.{}", l.name(), org(s.origin));
        let key = format!("{} {}", s.ty, l.name());
        if self.layout_ty(s, l).is_none() {
            self.bad(&rule, key, format!("{} has no {} form", s.ty, l.name()), "");
            return;
        }
        let mut lv = vec![];
        if let Err(e) = self.leaves(s.ty, 0, &mut lv) {
            self.undecided(&rule, key, e, "");
            return;
        }
        let nb = lv.iter().filter(|x| x.byte).count();
        let mut cs = vec![];
        s.glsl.comps(l, 0, &mut cs);
        if !matches!(s.origin, Origin::Of(_)) && cs.len() != lv.len() {
            self.bad(&rule, key, format!("{} has {} components, {} has {}", s.ty, lv.len(), s.glsl.name(), cs.len()), "");
            return;
        }
        for bc in bool_cases(nb) {
            if !self.to_case(s, l, &rule, &key, &bc) {
                break;
            }
        }
    }

    fn to_case(&mut self, s: &Subject, l: Layout, rule: &str, key: &str, bc: &Bools) -> bool {
        let (mem, want) = match s.origin {
            Origin::Of(_) => {
                // conversion of a layout type is the identity on all its bytes
                let n = self.size_of(s.ty);
                let b: Vec<Byte> = (0..n).flat_map(|i| bytes_of(atom(&format!("byte{i}"), 1, 0, 255))).collect();
                (b.clone(), b)
            }
            _ => match self.input(s.ty, "in", bc) {
                Ok((b, comps, _)) => (b, Self::expected(&s.glsl, l, &comps)),
                Err(e) => {
                    self.undecided(rule, key, e, "");
                    return false;
                }
            },
        };
        let mut st = new_state();
        let al = self.align_of_mem(s.ty);
        let m = st.alloc(mem, al);
        let outs = match self.run(rule, &Self::e(l, "to"), &[s.ty], st, vec![bytes_of(ptr(m, 0))]) {
            Ok((_, o)) => o,
            Err(e) => {
                self.undecided(rule, key, e, "");
                return false;
            }
        };
        let mut good = true;
        for o in &outs {
            if !good {
                return false;
            }
            let at = Self::trace(&o.st);
            match &o.end {
                End::Return(b) => {
                    if b.len() != want.len() {
                        self.bad(&format!("{rule}.size"), key, format!("{} form of {} has {} bytes, expected {}", l.name(), s.ty, b.len(), want.len()), at);
                        return false;
                    }
                    let mut cs = vec![];
                    s.glsl.comps(l, 0, &mut cs);
                    let is_pad = |i: usize| !cs.iter().any(|(o, s)| i >= *o && i < o + s.size());
                    let is_bool = |i: usize| cs.iter().any(|(o, s)| *s == Scalar::Bool && i >= *o && i < o + s.size());
                    for i in 0..b.len() {
                        let sub = if is_pad(i) {
                            "pad"
                        } else if is_bool(i) {
                            "bool"
                        } else {
                            "place"
                        };
                        let r = format!("{rule}.{sub}");
                        if Self::same(&o.st, b[i], want[i]) {
                            let (x, k) = (b[i], i);
                            self.ok(&r, || format!("{} byte {k} = {}", s.ty, show_byte(x)));
                        } else {
                            good = false;
                            self.bad(
                                &r,
                                format!("{key} byte {i}"),
                                format!(
                                    "as_{}({}): {} holds {} instead of {}",
                                    l.name(),
                                    s.ty,
                                    describe_comp(&s.glsl, l, i),
                                    show_byte(o.st.res_byte(b[i])),
                                    show_byte(o.st.res_byte(want[i]))
                                ),
                                at.clone(),
                            );
                            break;
                        }
                    }
                }
                e => {
                    good = false;
                    let r = if matches!(e, End::Panic(_)) { format!("{rule}.panic") } else { rule.to_string() };
                    self.failed(&r, key, e);
                }
            }
        }
        if !outs.is_empty() && good {
            self.ok(&format!("{rule}.panic"), || format!("{key}: {} paths, all return", outs.len()));
        }
        good
    }

    /// Reading a layout value back.
    pub fn rule_from(&mut self, subs: &[Subject]) {
        for s in subs {
            if matches!(s.origin, Origin::Of(_)) {
                continue;
            }
            for l in self.layouts(s) {
                if self.mine() {
                    self.from_one(s, l);
                }
            }
        }
    }

    fn from_one(&mut self, s: &Subject, l: Layout) {
        let rule = format!("from.{}.{}", l.name(), org(s.origin));
        let key = format!("{} {}", s.ty, l.name());
        let Some(lt) = self.layout_ty(s, l) else { return };
        let mut lv = vec![];
        if self.leaves(s.ty, 0, &mut lv).is_err() {
            return;
        }
        let mut cs = vec![];
        s.glsl.comps(l, 0, &mut cs);
        let size = self.size_of(lt);
        if size != s.glsl.size(l) || cs.len() != lv.len() {
            self.bad(&rule, key, format!("{} form of {} has {size} bytes", l.name(), s.ty), "");
            return;
        }
        let nb = cs.iter().filter(|c| c.1 == Scalar::Bool).count();
        for bc in bool_cases(nb) {
            let mut b = vec![Byte::C(0); size];
            let mut want: Vec<Vec<Byte>> = vec![];
            let mut k = 0;
            for (i, (o, sc)) in cs.iter().enumerate() {
                let (bytes, w) = if *sc == Scalar::Bool {
                    let on = match &bc {
                        Bools::Fixed(v) => v[k],
                        Bools::Unknown => true,
                    };
                    k += 1;
                    // any word but zero
                    let t = if on { atom(&format!("nz{i}"), 4, 1, mask(4)) } else { konst(0, 4) };
                    let w = if lv[i].byte { vec![Byte::C(on as u8)] } else { bytes_of(t) };
                    (bytes_of(t), w)
                } else {
                    let t = sc_atom(&format!("in{i}"), *sc);
                    (bytes_of(t), bytes_of(t))
                };
                b[*o..o + bytes.len()].copy_from_slice(&bytes);
                want.push(w);
            }
            let outs = match self.run(&rule, &Self::e(l, "from"), &[s.ty], new_state(), vec![b]) {
                Ok((_, o)) => o,
                Err(e) => {
                    self.undecided(&rule, key, e, "");
                    return;
                }
            };
            if !self.compare_value(&rule, &key, s, l, "from", &lv, &want, &outs) {
                return;
            }
        }
    }

    fn compare_value(&mut self, rule: &str, key: &str, s: &Subject, l: Layout, what: &str, lv: &[Leaf], want: &[Vec<Byte>], outs: &[Outcome]) -> bool {
        let mut good = true;
        for o in outs {
            if !good {
                return false;
            }
            let at = Self::trace(&o.st);
            match &o.end {
                End::Return(b) => {
                    for (i, (lf, w)) in lv.iter().zip(want).enumerate() {
                        let r = format!("{rule}.{}", if lf.sc == Scalar::Bool { "bool" } else { "place" });
                        let got = &b[lf.off..lf.off + w.len()];
                        if got.iter().zip(w).all(|(x, y)| Self::same(&o.st, *x, *y)) {
                            self.ok(&r, || format!("{}: component {i} = {}", s.ty, show(from_bytes(w))));
                        } else {
                            good = false;
                            let g: Vec<Byte> = got.iter().map(|x| o.st.res_byte(*x)).collect();
                            let w: Vec<Byte> = w.iter().map(|x| o.st.res_byte(*x)).collect();
                            self.bad(
                                &r,
                                format!("{key} component {i}"),
                                format!("{what} {} of {}: component {i} is {} instead of {}", l.name(), s.ty, show(from_bytes(&g)), show(from_bytes(&w))),
                                at.clone(),
                            );
                            break;
                        }
                    }
                }
                e => {
                    good = false;
                    let r = if matches!(e, End::Panic(_)) { format!("{rule}.panic") } else { rule.to_string() };
                    self.failed(&r, key, e);
                }
            }
        }
        if good {
            self.ok(&format!("{rule}.panic"), || format!("{key}: {} paths, all return", outs.len()));
        }
        good
    }

    /// There and back.
    pub fn rule_rt(&mut self, subs: &[Subject]) {
        for s in subs {
            for l in self.layouts(s) {
                let rule = format!("rt.{}.{}", l.name(), org(s.origin));
                let key = format!("{} {}", s.ty, l.name());
                if self.layout_ty(s, l).is_none() || !self.mine() {
                    continue;
                }
                let mut lv = vec![];
                if self.leaves(s.ty, 0, &mut lv).is_err() {
                    continue;
                }
                let nb = lv.iter().filter(|x| x.byte).count();
                for bc in bool_cases(nb) {
                    let Ok((mem, comps, lv)) = self.input(s.ty, "in", &bc) else { continue };
                    let mem: Vec<Byte> = if matches!(s.origin, Origin::Of(_)) {
                        mem.into_iter().enumerate().map(|(i, b)| if b == Byte::Uninit { bytes_of(atom(&format!("pad{i}"), 1, 0, 255))[0] } else { b }).collect()
                    } else {
                        mem
                    };
                    let mut st = new_state();
                    let al = self.align_of_mem(s.ty);
                    let m = st.alloc(mem, al);
                    match self.run(&rule, &Self::e(l, "rt"), &[s.ty], st, vec![bytes_of(ptr(m, 0))]) {
                        Ok((_, outs)) => {
                            if !self.compare_value(&rule, &key, s, l, "round trip through", &lv, &comps, &outs) {
                                break;
                            }
                        }
                        Err(e) => {
                            self.undecided(&rule, &key, e, "");
                            break;
                        }
                    }
                }
            }
        }
    }
}
