//! The rules.  Every rule is a finite family of obligations over the program analysed;
//! an obligation is discharged, violated (with the construct) or undecided.

use crate::interp::*;
use crate::oracle::*;
use crate::terms::{self, *};
use rustc_middle::ty::TyCtxt;
use rustc_public::abi::FieldsShape;
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::mono::Instance;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug)]
pub struct Violation {
    pub rule: String,
    /// stable identity of the failing construct
    pub key: String,
    pub what: String,
    pub at: String,
    pub undecided: bool,
    /// undefined behaviour, rather than a wrong result
    pub ub: bool,
}

#[derive(Default)]
pub struct RuleStat {
    pub obligations: u64,
    pub discharged: u64,
    pub paths: u64,
    pub samples: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Origin {
    /// a math-library type or scalar
    Lib,
    /// a std140/std430 type of the crate
    Of(Layout),
    /// a user struct with derives
    Derived,
}

#[derive(Clone)]
pub struct Subject {
    pub ty: Ty,
    pub glsl: Glsl,
    pub origin: Origin,
}

pub struct Ctx<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub ip: Interp,
    fns: HashMap<String, FnDef>,
    glsl: HashMap<Ty, Glsl>,
    /// structs that derive a single layout (and no GLSL definition)
    pub only: HashMap<Ty, Layout>,
    regions: Vec<(usize, usize)>,
    traits: HashMap<String, TraitDef>,
    pub violations: Vec<Violation>,
    pub rules: BTreeMap<String, RuleStat>,
    pub notes: Vec<String>,
    pub thorough: bool,
    /// types for histories of earlier writes
    pub reps: Vec<Ty>,
    /// this process handles every n-th unit of work, starting with the k-th
    pub shard: (usize, usize),
    units: usize,
}

fn u(x: usize) -> usize {
    x
}

pub fn sc_atom(name: &str, s: Scalar) -> TermId {
    match s {
        Scalar::Bool => atom(name, 1, 0, 1),
        Scalar::F64 => atom(name, 8, 0, mask(8)),
        _ => atom(name, 4, 0, mask(4)),
    }
}

/// Marks what was found on a path that may be infeasible.
pub const DOUBT: &str = "(path may be infeasible) ";

thread_local! {
    /// The last comparison failed, but no constants show a difference.
    pub static SUSPECT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// How the unknown booleans of a run are fixed.
#[derive(Clone, Debug)]
pub enum Bools {
    Unknown,
    Fixed(Vec<bool>),
}

pub fn bool_cases(n: usize) -> Vec<Bools> {
    if n == 0 {
        return vec![Bools::Unknown];
    }
    let mut v = vec![];
    if n <= 4 {
        for m in 0..1u32 << n {
            v.push(Bools::Fixed((0..n).map(|i| m >> i & 1 == 1).collect()));
        }
    } else {
        v.push(Bools::Fixed(vec![false; n]));
        v.push(Bools::Fixed(vec![true; n]));
        for k in 0..n {
            v.push(Bools::Fixed((0..n).map(|i| i == k).collect()));
        }
    }
    v
}

#[derive(Clone, Debug)]
pub struct Leaf {
    pub off: usize,
    pub sc: Scalar,
    /// a Rust bool (one byte) rather than a 32-bit word
    pub byte: bool,
}

/// Does the text tell of undefined behaviour?
pub fn undefined(s: &str) -> bool {
    ["out-of-bounds", "through address", "dead or non-memory", "uninit", "undefined", "reached unreachable", "reached `unreachable", "invalid enum tag", "unsafe precondition"].iter().any(|u| s.contains(u))
}

pub fn short_ty(t: Ty) -> String {
    t.to_string()
}

impl<'tcx> Ctx<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        let mut fns = HashMap::new();
        let me = rustc_public::local_crate();
        for f in me.fn_defs() {
            let n = f.name();
            let n = n.strip_prefix(&format!("{}::", me.name)).unwrap_or(&n).to_string();
            fns.insert(n, f);
        }
        let mut traits = HashMap::new();
        for t in rustc_public::all_trait_decls() {
            let n = t.name();
            if n.starts_with("crevice::") || n.starts_with("bytemuck::") {
                traits.insert(n, t);
            }
        }
        Ctx {
            tcx,
            ip: Interp::new(),
            fns,
            glsl: HashMap::new(),
            only: HashMap::new(),
            regions: vec![],
            traits,
            violations: vec![],
            rules: BTreeMap::new(),
            notes: vec![],
            thorough: false,
            reps: vec![],
            shard: (0, 1),
            units: 0,
        }
    }

    // ------------------------------------------------------------ bookkeeping

    pub fn ok(&mut self, rule: &str, sample: impl FnOnce() -> String) {
        SUSPECT.with(|s| s.set(false));
        let r = self.rules.entry(rule.to_string()).or_default();
        r.obligations += 1;
        r.discharged += 1;
        if r.samples.len() < 6 || (r.obligations.is_power_of_two() && r.samples.len() < 14) {
            r.samples.push(sample());
        }
    }

    pub fn bad(&mut self, rule: &str, key: impl Into<String>, what: impl Into<String>, at: impl Into<String>) {
        let r = self.rules.entry(rule.to_string()).or_default();
        r.obligations += 1;
        let at: String = at.into();
        let undecided = SUSPECT.with(|s| s.take()) || at.starts_with(DOUBT);
        let what = what.into();
        let ub = undefined(&what);
        self.violations.push(Violation { rule: rule.into(), key: key.into(), what, at, undecided, ub });
    }

    /// Does the next unit of work belong to this process?
    pub fn mine(&mut self) -> bool {
        self.units += 1;
        (self.units - 1) % self.shard.1 == self.shard.0
    }

    pub fn undecided(&mut self, rule: &str, key: impl Into<String>, what: impl Into<String>, at: impl Into<String>) {
        let r = self.rules.entry(rule.to_string()).or_default();
        r.obligations += 1;
        self.violations.push(Violation { rule: rule.into(), key: key.into(), what: what.into(), at: at.into(), undecided: true, ub: false });
    }

    fn paths(&mut self, rule: &str, n: usize) {
        self.rules.entry(rule.to_string()).or_default().paths += n as u64;
    }

    /// A run that did not return: report it under the rule (and the panic under `panic`).
    pub fn failed(&mut self, rule: &str, key: &str, end: &End) {
        match end {
            End::Panic(s) => {
                let r = if rule.ends_with(".panic") { rule.to_string() } else { format!("{rule}.panic") };
                self.bad(&r, key, format!("panics: {s}"), s.clone())
            }
            End::Stuck(s) => {
                if !s.starts_with("possible:") && (undefined(s) || s.contains("possible non-termination")) {
                    self.bad(rule, key, s.clone(), s.clone())
                } else {
                    self.undecided(rule, key, s.clone(), s.clone())
                }
            }
            _ => self.undecided(rule, key, "no result", ""),
        }
    }

    pub fn trace(st: &State) -> String {
        let v: Vec<String> = st
            .trace
            .iter()
            .map(|f| format!("{} ({})", f.name, short_span(&f.body.span.diagnostic())))
            .collect();
        format!("{}{}", if st.doubt { DOUBT } else { "" }, v.join(" -> "))
    }

    // ------------------------------------------------------------ the program

    pub fn has_fn(&self, name: &str) -> bool {
        self.fns.contains_key(name)
    }

    pub fn fn_names(&self, prefix: &str) -> Vec<String> {
        let mut v: Vec<String> = self.fns.keys().filter(|k| k.starts_with(prefix) || prefix == "derived__" && k.rsplit("::").next().is_some_and(|x| x.starts_with(prefix))).cloned().collect();
        v.sort();
        v
    }

    pub fn inst(&mut self, name: &str, args: &[Ty]) -> Result<Instance, String> {
        let Some(f) = self.fns.get(name) else { return Err(format!("probe function {name} is missing")) };
        let ga = GenericArgs(args.iter().map(|t| GenericArgKind::Type(*t)).collect());
        Instance::resolve(*f, &ga).map_err(|e| format!("cannot resolve {name}: {e:?}"))
    }

    pub fn sig_of(&self, name: &str) -> Option<FnSig> {
        let f = self.fns.get(name)?;
        Some(f.fn_sig().skip_binder())
    }

    /// The types in the tuple a table function returns.
    pub fn table(&self, name: &str) -> Vec<Ty> {
        match self.sig_of(name) {
            Some(s) => match s.output().kind() {
                TyKind::RigidTy(RigidTy::Tuple(v)) => v,
                _ => vec![s.output()],
            },
            None => vec![],
        }
    }

    pub fn implements(&self, ty: Ty, tr: &str) -> bool {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let Some(t) = self.traits.get(tr) else { return false };
        let tcx = self.tcx;
        let did = rustc_internal::internal(tcx, t.def_id());
        let ity = rustc_internal::internal(tcx, ty);
        let infcx = tcx.infer_ctxt().build(rustc_middle::ty::TypingMode::PostAnalysis);
        infcx.type_implements_trait(did, [ity], rustc_middle::ty::ParamEnv::empty()).must_apply_modulo_regions()
    }

    pub fn is_copy(&self, ty: Ty) -> bool {
        let ity = rustc_internal::internal(self.tcx, ty);
        self.tcx.type_is_copy_modulo_regions(rustc_middle::ty::TypingEnv::fully_monomorphized(), ity)
    }

    pub fn trait_names(&self) -> Vec<String> {
        self.traits.keys().cloned().collect()
    }

    pub fn has_trait(&self, tr: &str) -> bool {
        self.traits.contains_key(tr)
    }

    /// Self types of all impls of a trait whose impl lives in one of the given crates (generic ones are returned too).
    pub fn impls_of(&self, tr: &str, crates: &[&str]) -> Vec<(Ty, String)> {
        let Some(t) = self.traits.get(tr) else { return vec![] };
        let tcx = self.tcx;
        let did = rustc_internal::internal(tcx, t.def_id());
        let mut v = vec![];
        for i in tcx.all_impls(did) {
            let k = tcx.crate_name(i.krate).to_string();
            if crates.contains(&k.as_str()) {
                let ty = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                let span = tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(i));
                v.push((rustc_internal::stable(ty), short_span(&span)));
            }
        }
        v
    }

    pub fn adt_span(&self, ty: Ty) -> String {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Adt(d, _)) => short_span(&d.span().diagnostic()),
            _ => String::new(),
        }
    }

    pub fn tr(l: Layout, which: &str) -> String {
        let n = if l == Std140 { "140" } else { "430" };
        match which {
            "As" => format!("crevice::std{n}::AsStd{n}"),
            "Std" => format!("crevice::std{n}::Std{n}"),
            _ => format!("crevice::std{n}::WriteStd{n}"),
        }
    }

    pub fn e(l: Layout, f: &str) -> String {
        format!("{}::{}", if l == Std140 { "e140" } else { "e430" }, f)
    }

    // ------------------------------------------------------------ types

    pub fn fields(&mut self, ty: Ty) -> Option<Vec<(String, Ty, usize)>> {
        let TyKind::RigidTy(RigidTy::Adt(def, args)) = ty.kind() else { return None };
        if def.kind() != AdtKind::Struct {
            return None;
        }
        let info = self.ip.info(ty).ok()?;
        let FieldsShape::Arbitrary { offsets } = &info.shape.fields else { return None };
        let offsets: Vec<usize> = offsets.iter().map(|o| o.bytes()).collect();
        Some(
            def.variants()[0]
                .fields()
                .iter()
                .enumerate()
                .map(|(i, f)| {
                    let n = f.name.to_string();
                    (n.strip_prefix("r#").unwrap_or(&n).to_string(), f.ty_with_args(&args), offsets[i])
                })
                .collect(),
        )
    }

    fn is_crevice_bool(ty: Ty) -> bool {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Adt(d, _)) => d.name() == "crevice::bool::Bool" || (d.krate().name == "crevice" && d.trimmed_name() == "Bool"),
            _ => false,
        }
    }

    /// The scalar components of a Rust type in declaration order.
    pub fn leaves(&mut self, ty: Ty, base: usize, out: &mut Vec<Leaf>) -> Result<(), String> {
        if Self::is_crevice_bool(ty) {
            out.push(Leaf { off: base, sc: Scalar::Bool, byte: false });
            return Ok(());
        }
        // one of the crate's own layout types: components as in GLSL, the rest is padding
        if let TyKind::RigidTy(RigidTy::Adt(d, _)) = ty.kind() {
            let n = d.name();
            let l = if n.starts_with("crevice::std140::") { Std140 } else { Std430 };
            if n.starts_with("crevice::std140::") || n.starts_with("crevice::std430::") {
                if let Some(g @ (Glsl::V(..) | Glsl::M(..))) = self.glsl.get(&ty).cloned() {
                    let mut cs = vec![];
                    g.comps(l, base, &mut cs);
                    out.extend(cs.into_iter().map(|(off, sc)| Leaf { off, sc, byte: false }));
                    let sz = self.size_of(ty);
                    self.regions.push((base, sz));
                    return Ok(());
                }
            }
        }
        let sc = match ty.kind() {
            TyKind::RigidTy(RigidTy::Float(FloatTy::F32)) => Scalar::F32,
            TyKind::RigidTy(RigidTy::Float(FloatTy::F64)) => Scalar::F64,
            TyKind::RigidTy(RigidTy::Int(IntTy::I32)) => Scalar::I32,
            TyKind::RigidTy(RigidTy::Uint(UintTy::U32)) => Scalar::U32,
            TyKind::RigidTy(RigidTy::Bool) => {
                out.push(Leaf { off: base, sc: Scalar::Bool, byte: true });
                return Ok(());
            }
            TyKind::RigidTy(RigidTy::Array(e, n)) => {
                let n = n.eval_target_usize().map_err(|e| format!("{e:?}"))? as usize;
                let s = self.ip.info(e).map_err(|e| format!("{e:?}"))?.size;
                for i in 0..n {
                    self.leaves(e, base + i * s, out)?;
                }
                return Ok(());
            }
            TyKind::RigidTy(RigidTy::Tuple(v)) if v.is_empty() => return Ok(()),
            TyKind::RigidTy(RigidTy::Adt(..)) => {
                let Some(fs) = self.fields(ty) else { return Err(format!("components of {ty}")) };
                for (_, t, o) in fs {
                    self.leaves(t, base + o, out)?;
                }
                return Ok(());
            }
            k => return Err(format!("components of {ty}: {k:?}")),
        };
        out.push(Leaf { off: base, sc, byte: false });
        Ok(())
    }

    pub fn size_of(&mut self, ty: Ty) -> usize {
        self.ip.info(ty).map(|i| i.size).unwrap_or(usize::MAX)
    }

    /// The GLSL type a Rust type stands for.
    pub fn glsl_of(&mut self, ty: Ty) -> Result<Glsl, String> {
        if let Some(g) = self.glsl.get(&ty) {
            return Ok(g.clone());
        }
        if let TyKind::RigidTy(RigidTy::Adt(d, args)) = ty.kind() {
            let n = d.trimmed_name();
            if d.krate().name == "crevice" && (n == "DynamicUniform" || n == "DynamicUniformStd140") {
                if let Some(GenericArgKind::Type(t)) = args.0.first() {
                    return Ok(Glsl::Dyn(Box::new(self.glsl_of(*t)?)));
                }
            }
            if d.krate().name == rustc_public::local_crate().name {
                if let Some(fs) = self.fields(ty) {
                    let mut v = vec![];
                    for (n, t, _) in fs {
                        v.push((n, self.glsl_of(t)?));
                    }
                    let name = d.trimmed_name();
                    let name = name.rsplit("::").next().unwrap_or(&name).to_string();
                    let name = name.strip_prefix("r#").unwrap_or(&name).to_string();
                    let g = Glsl::Struct(name, v);
                    self.glsl.insert(ty, g.clone());
                    return Ok(g);
                }
            }
        }
        Err(format!("no GLSL type for {ty}"))
    }

    /// Read the tables of the probe crate.
    pub fn subjects(&mut self) -> Vec<Subject> {
        let mut out = vec![];
        for (pre, org) in [("glsl__", Origin::Lib), ("std140__", Origin::Of(Std140)), ("std430__", Origin::Of(Std430))] {
            for f in self.fn_names(pre) {
                let g = Glsl::parse(&f[pre.len()..]).expect("table name");
                for t in self.table(&f) {
                    if let Some(old) = self.glsl.insert(t, g.clone()) {
                        if old != g {
                            panic!("conflicting table entries for {t}");
                        }
                    }
                    // scalars are their own layout: one subject is enough
                    if org != Origin::Lib && Self::plain(t) {
                        continue;
                    }
                    out.push(Subject { ty: t, glsl: g.clone(), origin: org });
                }
            }
        }
        for (pre, only) in [("derived__", None), ("only140__", Some(Std140)), ("only430__", Some(Std430))] {
            for f in self.fn_names(pre) {
                for t in self.table(&f) {
                    if let Some(l) = only {
                        self.only.insert(t, l);
                    }
                    match self.glsl_of(t) {
                        Ok(g) => out.push(Subject { ty: t, glsl: g, origin: Origin::Derived }),
                        Err(e) => panic!("corpus: {e}"),
                    }
                }
            }
        }
        out
    }

    fn plain(t: Ty) -> bool {
        !matches!(t.kind(), TyKind::RigidTy(RigidTy::Adt(..)))
    }

    // ------------------------------------------------------------ running

    pub fn run(&mut self, rule: &str, f: &str, tys: &[Ty], st: State, args: Vec<Vec<Byte>>) -> Result<(Instance, Vec<Outcome>), String> {
        let inst = self.inst(f, tys)?;
        let mut outs = self.ip.run(st, inst, args);
        self.paths(rule, outs.len());
        for o in &mut outs {
            if !o.st.facts.is_empty() && crate::sample::doubtful(&o.st) {
                o.st.doubt = true;
                if std::env::var("CREVICE_VERIF_DEBUG").is_ok() {
                    eprintln!("doubtful: {}", o.st.facts.iter().map(|(t, r)| format!("{} in {:?}", crate::terms::show(*t), r)).collect::<Vec<_>>().join("; "));
                }
                match &o.end {
                    End::Panic(s) => o.end = End::Stuck(format!("possible panic: {s}")),
                    End::Stuck(s) => o.end = End::Stuck(format!("possible: {s}")),
                    _ => {}
                }
            }
        }
        Ok((inst, outs))
    }

    /// The (normalised) return type.
    pub fn ret_ty(&mut self, inst: &Instance) -> Option<Ty> {
        self.ip.body(*inst).ok().map(|b| b.local_tys[0])
    }

    /// A constant usize returned by a nullary function.
    pub fn const_usize(&mut self, rule: &str, f: &str, tys: &[Ty]) -> Result<usize, End> {
        let (_, outs) = self.run(rule, f, tys, new_state(), vec![]).map_err(End::Stuck)?;
        for o in outs {
            match o.end {
                End::Return(b) => match as_const(o.st.res(from_bytes(&b))) {
                    Some(v) => return Ok(v as usize),
                    None => return Err(End::Stuck("result is not a constant".into())),
                },
                e => return Err(e),
            }
        }
        Err(End::Stuck("no path".into()))
    }

    pub fn const_str(&mut self, rule: &str, f: &str, tys: &[Ty]) -> Result<String, End> {
        let (_, outs) = self.run(rule, f, tys, new_state(), vec![]).map_err(End::Stuck)?;
        for o in outs {
            match o.end {
                End::Return(b) => {
                    let p = o.st.res(from_bytes(&b[..8]));
                    let n = as_const(o.st.res(from_bytes(&b[8..]))).unwrap_or(u128::MAX) as usize;
                    let a = self.ip.addr_of_term(p).map_err(|e| End::Stuck(format!("{e:?}")))?;
                    let s = self.ip.load(&o.st, a, n).map_err(|e| End::Stuck(format!("{e:?}")))?;
                    return Self::as_string(&s).ok_or(End::Stuck("string is not constant".into()));
                }
                e => return Err(e),
            }
        }
        Err(End::Stuck("no path".into()))
    }

    pub fn as_string(b: &[Byte]) -> Option<String> {
        let mut v = vec![];
        for x in b {
            match x {
                Byte::C(c) => v.push(*c),
                _ => return None,
            }
        }
        String::from_utf8(v).ok()
    }

    /// Memory of a value of `ty` whose components are unknown; the padding of the Rust type is uninitialised.
    pub fn input(&mut self, ty: Ty, prefix: &str, bools: &Bools) -> Result<(Vec<Byte>, Vec<Vec<Byte>>, Vec<Leaf>), String> {
        let mut lv = vec![];
        self.regions.clear();
        self.leaves(ty, 0, &mut lv)?;
        let n = self.size_of(ty);
        let mut b = vec![Byte::Uninit; n];
        // padding of layout types inside the value is zero: their padding members are private
        for (o, k) in std::mem::take(&mut self.regions) {
            if k < n {
                b[o..o + k].fill(Byte::C(0));
            }
        }
        let mut comps = vec![];
        let mut nb = 0;
        for (i, l) in lv.iter().enumerate() {
            let name = format!("{prefix}{i}");
            let bytes = if l.sc == Scalar::Bool && l.byte {
                let t = match bools {
                    Bools::Unknown => sc_atom(&name, Scalar::Bool),
                    Bools::Fixed(v) => konst(v[nb] as u128, 1),
                };
                nb += 1;
                bytes_of(t)
            } else if l.sc == Scalar::Bool {
                bytes_of(atom(&format!("{name}w"), 4, 0, mask(4)))
            } else {
                bytes_of(sc_atom(&name, l.sc))
            };
            b[l.off..l.off + bytes.len()].copy_from_slice(&bytes);
            comps.push(bytes);
        }
        Ok((b, comps, lv))
    }

    pub fn align_of_mem(&mut self, ty: Ty) -> u64 {
        self.ip.info(ty).map(|i| i.align).unwrap_or(1)
    }

    /// Layout form expected for the component bytes of a value.
    pub fn expected(g: &Glsl, l: Layout, comps: &[Vec<Byte>]) -> Vec<Byte> {
        let mut v = vec![Byte::C(0); g.size(l)];
        let mut cs = vec![];
        g.comps(l, 0, &mut cs);
        for ((o, s), b) in cs.iter().zip(comps) {
            for i in 0..s.size() {
                v[o + i] = if i < b.len() { b[i] } else { Byte::C(0) };
            }
        }
        v
    }

    pub fn same(st: &State, a: Byte, b: Byte) -> bool {
        if a == b {
            return true;
        }
        let (a, b) = (st.res_byte(a), st.res_byte(b));
        if a == b {
            return true;
        }
        if crate::sample::maybe_equal(st, a, b) {
            SUSPECT.with(|s| s.set(true));
        }
        false
    }
}

pub fn describe_comp(g: &Glsl, l: Layout, off: usize) -> String {
    let mut cs = vec![];
    g.comps(l, 0, &mut cs);
    match cs.iter().position(|(o, s)| off >= *o && off < o + s.size()) {
        Some(k) => format!("component {k} (offset {})", cs[k].0),
        None => format!("padding byte at offset {off}"),
    }
}
