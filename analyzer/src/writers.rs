//! Rules about Writer, Sizer, sizes and byte views.

use crate::checks::LAYOUTS;
use crate::interp::*;
use crate::oracle::*;
use crate::rules::*;
use crate::terms::*;
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use std::collections::{BTreeMap, BTreeSet};

/// A state with a writer (or sizer) in it and the offset it stands at.
#[derive(Clone)]
pub struct Start {
    pub st: State,
    pub at: u32,
    /// None: the symbolic offset S; Some(n): n bytes
    pub fixed: Option<i128>,
    pub name: String,
    /// the only number in the state: its place and width
    pub leaf: Option<(usize, usize)>,
}

/// One aligned value of an expected stream.
#[derive(Clone)]
pub struct Part {
    pub align: usize,
    pub bytes: Vec<Byte>,
}

pub struct Seen {
    pub emitted: Vec<Byte>,
    pub ok: Option<TermId>,
    pub err: Option<(u32, TermId)>,
    pub len: Option<TermId>,
}

/// Is this the first type of its kind in the list (deeper exploration)?
fn t_first(tys: &[Ty], t: Ty) -> bool {
    tys.iter().position(|x| *x == t).map(|i| i < 5).unwrap_or(false)
}

fn v_all(reps: &[Ty], t: Ty) -> bool {
    reps.contains(&t)
}

pub fn seen(o: &Outcome) -> Seen {
    let mut s = Seen { emitted: vec![], ok: None, err: None, len: None };
    for e in &o.st.log {
        match e {
            Event::Emit(1, b) => s.emitted.extend(b.iter().cloned()),
            Event::Val(10, t) => s.ok = Some(*t),
            Event::Val(k @ 11..=15, t) => s.err = Some((*k, *t)),
            Event::Val(20, t) => s.len = Some(*t),
            _ => {}
        }
    }
    s
}

/// Ways to fix the booleans of the elements of a slice.
pub const PATTERNS: &[usize] = &[0, 1, 2, 3, 4, 5, 6];
pub fn pattern(p: usize, i: usize) -> Bools {
    let f = |k: usize| match p {
        0 => (i + k) % 2 == 0,
        1 => i % 3 == k % 3,
        // alike at first, other later
        2 => i >= 5,
        3 => (i >= 20) ^ (k % 2 == 0),
        4 => (i >= 40) && (i + k) % 2 == 0,
        // without a period
        5 => (i * i / 3 + k) % 2 == 0,
        _ => ((i + 7) * (2 * k + 3) * 0x9e37 >> 9) % 5 < 2,
    };
    Bools::Fixed((0..256).map(f).collect())
}

fn lcm(a: i128, b: i128) -> i128 {
    let (mut x, mut y) = (a, b);
    while y != 0 {
        let t = x % y;
        x = y;
        y = t;
    }
    a / x * b
}

impl Start {
    /// The term for `offset + k`.
    pub fn plus(&self, st: &State, k: i128) -> TermId {
        match self.fixed {
            Some(n) => konst((n + k) as u128, 8),
            None => st.res(lin(1, k, 1)),
        }
    }

    /// The residues modulo `a` the offset may have in this outcome.
    pub fn residues(&self, st: &State, a: i128) -> Vec<i128> {
        match self.fixed {
            Some(n) => vec![n.rem_euclid(a)],
            None => {
                let d = &st.s;
                if d.lo == d.hi {
                    return vec![d.lo.rem_euclid(a)];
                }
                let mut v = BTreeSet::new();
                let mut x = d.lo;
                for _ in 0..a {
                    if x > d.hi {
                        break;
                    }
                    v.insert(x.rem_euclid(a));
                    x += d.m;
                }
                v.into_iter().collect()
            }
        }
    }
}

/// Where the parts land when the stream starts at residue `r`: (bytes emitted, offset of the first part, unit ends).
pub fn stream(parts: &[Part], r: i128) -> (Vec<Byte>, i128, Vec<usize>) {
    let mut out = vec![];
    let mut first = None;
    let mut units = vec![];
    for p in parts {
        let a = p.align.max(1) as i128;
        while (r + out.len() as i128) % a != 0 {
            out.push(Byte::C(0));
        }
        units.push(out.len());
        first.get_or_insert(out.len() as i128);
        out.extend(p.bytes.iter().cloned());
        units.push(out.len());
    }
    (out, first.unwrap_or(0), units)
}

impl<'tcx> Ctx<'tcx> {
    /// The integers in a writer's or sizer's state: (offset, width)
    fn int_leaves(&mut self, ty: Ty, base: usize, out: &mut Vec<(usize, usize)>) -> Result<(), String> {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Uint(_) | RigidTy::Int(_)) => {
                let w = self.size_of(ty);
                out.push((base, w));
                Ok(())
            }
            TyKind::RigidTy(RigidTy::Adt(..)) => {
                let Some(fs) = self.fields(ty) else { return Err(format!("state of {ty}")) };
                for (_, t, o) in fs {
                    self.int_leaves(t, base + o, out)?;
                }
                Ok(())
            }
            _ => {
                if self.size_of(ty) == 0 {
                    Ok(())
                } else {
                    Err(format!("state of {ty}"))
                }
            }
        }
    }

    /// What len() says in this state.
    fn len_of(&mut self, rule: &str, l: Layout, ty: Ty, s: &Start) -> Option<TermId> {
        let (f, args) = match ty.kind() {
            TyKind::RigidTy(RigidTy::Adt(_, a)) => match a.0.first() {
                Some(GenericArgKind::Type(t)) => ("writer_len", vec![*t]),
                _ => ("sizer_len", vec![]),
            },
            _ => return None,
        };
        let (_, outs) = self.run(rule, &Self::e(l, f), &args, s.st.clone(), vec![bytes_of(ptr(s.at, 0))]).ok()?;
        match &outs[..] {
            [Outcome { st, end: End::Return(b) }] => Some(st.res(from_bytes(b))),
            _ => None,
        }
    }

    /// The state with its only number set to n.
    fn poked(&mut self, f: &Start, leaf: (usize, usize), n: i128) -> Option<Start> {
        if leaf.1 < 8 && n >> (8 * leaf.1) != 0 {
            return None;
        }
        let mut s = f.clone();
        s.fixed = Some(n);
        s.name = format!("offset {n}");
        s.st.s = new_state().s;
        self.ip.store(&mut s.st, Addr::Mem(f.at, leaf.0 as i64), &bytes_of(konst(n as u128, leaf.1 as u8))).ok()?;
        Some(s)
    }

    /// Offsets around powers of two, for code that masks or narrows the offset.
    fn corners(&mut self, s: &Start) -> Vec<Start> {
        let Some(leaf) = s.leaf else { return vec![] };
        let mut v = vec![];
        for k in [7, 8, 10, 12, 15, 16, 20, 23, 24, 28, 30, 31, 32, 33, 40, 48, 53, 62] {
            for d in [-16, -4, -1, 0, 1, 4] {
                v.extend(self.poked(s, leaf, (1i128 << k) + d));
            }
        }
        v
    }

    /// A fresh writer/sizer.
    pub fn fresh(&mut self, rule: &str, l: Layout, which: &str) -> Result<Start, End> {
        let (inst, outs) = self.run(rule, &Self::e(l, which), &[], new_state(), vec![]).map_err(End::Stuck)?;
        let _ = inst;
        for o in outs {
            match o.end {
                End::Return(b) => {
                    if o.st.log.iter().any(|e| matches!(e, Event::Emit(1..=4, _))) {
                        self.bad(rule, "Writer::new", "creating a Writer hands bytes to the sink", Self::trace(&o.st));
                    }
                    let mut st = o.st;
                    st.log.clear();
                    st.trace.clear();
                    let at = st.alloc(b, 8);
                    return Ok(Start { st, at, fixed: Some(0), name: "new()".into(), leaf: None });
                }
                e => return Err(e),
            }
        }
        Err(End::Stuck("no path".into()))
    }

    /// len() is the offset.
    fn check_len(&mut self, rule: &str, l: Layout, s: &Start, which: &str) {
        let sizer = which.contains("sizer");
        let key = if sizer { "Sizer::len" } else { "Writer::len" };
        let Ok(inst) = self.inst(&Self::e(l, which), &[]) else { return };
        let Some(ty) = self.ret_ty(&inst) else { return };
        let args = match ty.kind() {
            TyKind::RigidTy(RigidTy::Adt(_, a)) => a.0.iter().filter_map(|x| if let GenericArgKind::Type(t) = x { Some(*t) } else { None }).collect(),
            _ => vec![],
        };
        match self.run(rule, &Self::e(l, if sizer { "sizer_len" } else { "writer_len" }), &args, s.st.clone(), vec![bytes_of(ptr(s.at, 0))]) {
            Ok((_, outs)) => {
                for o in outs {
                    match &o.end {
                        End::Return(b) if o.st.res(from_bytes(b)) == s.plus(&o.st, 0) => self.ok(rule, || format!("len() = {} ({})", show(s.plus(&o.st, 0)), s.name)),
                        End::Return(b) => self.bad(rule, key, format!("len() is {} instead of {}", show(from_bytes(b)), show(s.plus(&o.st, 0))), Self::trace(&o.st)),
                        e => {
                            if s.fixed.is_none() && Self::beyond(e) {
                                for c in self.corners(s) {
                                    self.check_len(rule, l, &c, which);
                                }
                            }
                            self.failed(rule, key, e)
                        }
                    }
                }
            }
            Err(e) => self.undecided(rule, key, e, ""),
        }
    }

    /// Did the offset domain give up?
    fn beyond(e: &End) -> bool {
        matches!(e, End::Stuck(s) if s.contains("offset domain"))
    }

    /// Is the only number in the state the offset itself?  len() says so for small ones.
    fn counts_bytes(&mut self, rule: &str, l: Layout, ty: Ty, f: &Start, leaf: (usize, usize)) -> bool {
        [4, 8, 12, 100].iter().all(|n| match self.poked(f, leaf, *n) {
            Some(s) => self.len_of(rule, l, ty, &s).and_then(as_const) == Some(*n as u128),
            None => false,
        })
    }

    /// Start states that stand for every history: one with an arbitrary offset when the state is a
    /// single number, otherwise a family of concrete histories.
    pub fn starts(&mut self, rule: &str, l: Layout, which: &str) -> Result<Vec<Start>, End> {
        let f = self.fresh(rule, l, which)?;
        let inst = self.inst(&Self::e(l, which), &[]).map_err(End::Stuck)?;
        let ty = self.ret_ty(&inst).ok_or(End::Stuck("type of writer".into()))?;
        let mut lv = vec![];
        if self.int_leaves(ty, 0, &mut lv).is_ok() && lv.len() == 1 {
            let leaf = lv[0];
            let b = self.ip.load(&f.st, Addr::Mem(f.at, leaf.0 as i64), leaf.1).map_err(|e| End::Stuck(format!("{e:?}")))?;
            if as_const(f.st.res(from_bytes(&b))) == Some(0) {
                if leaf.1 == 8 {
                    let mut s = f.clone();
                    s.leaf = Some(leaf);
                    s.fixed = None;
                    s.name = "any offset".into();
                    let whole = lin(1, 0, 1);
                    self.ip.store(&mut s.st, Addr::Mem(f.at, leaf.0 as i64), &bytes_of(whole)).map_err(|e| End::Stuck(format!("{e:?}")))?;
                    // offsets of every realistic buffer: up to isize::MAX minus 16 MiB
                    s.st.s = SDom { m: 1, r: 0, lo: 0, hi: (1i128 << 63) - 1 - (1 << 24) };
                    if self.len_of(rule, l, ty, &s) == Some(whole) || self.counts_bytes(rule, l, ty, &f, leaf) {
                        return Ok(vec![f, s]);
                    }
                }
                // a narrower number: small offsets, and those next to its limits
                if leaf.1 < 8 && self.counts_bytes(rule, l, ty, &f, leaf) {
                    let mut g = f.clone();
                    g.leaf = Some(leaf);
                    let mut out = vec![f];
                    for n in 1..34 {
                        out.extend(self.poked(&g, leaf, n));
                    }
                    out.extend(self.corners(&g));
                    self.notes.push(format!("{ty}: {} byte offset; chosen offsets used instead of all", leaf.1));
                    return Ok(out);
                }
            }
        }
        self.notes.push(format!("{ty}: state is not a single number; concrete histories used instead"));
        let mut out = vec![f.clone()];
        // concrete histories
        let fl = Ty::from_rigid_kind(RigidTy::Float(FloatTy::F32));
        let mut cur = f.clone();
        let n = if self.thorough { 70 } else { 20 };
        for k in 1..n {
            let Some(next) = self.after(rule, l, which, &cur, fl)? else { break };
            cur = next;
            cur.name = format!("after {k} floats");
            out.push(cur.clone());
        }
        let reps = self.reps.clone();
        for t in &reps {
            if !self.implements(*t, &Self::tr(l, "As")) || self.crate_align(rule, l, *t)? > 64 {
                continue;
            }
            for seq in [vec![*t], vec![*t, *t], vec![fl, *t], vec![*t, fl]] {
                let mut cur = Some(f.clone());
                for x in &seq {
                    cur = match cur {
                        Some(c) => self.after(rule, l, which, &c, *x)?,
                        None => None,
                    };
                }
                if let Some(mut c) = cur {
                    c.name = format!("after {}", seq.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "));
                    out.push(c);
                }
            }
        }
        Ok(out)
    }

    /// The state after one more value; the offset is what the layout rules say.
    fn after(&mut self, rule: &str, l: Layout, which: &str, cur: &Start, ty: Ty) -> Result<Option<Start>, End> {
        let mut st = cur.st.clone();
        let inst = self.inst(&Self::e(l, "to"), &[ty]).map_err(End::Stuck)?;
        let Some(form) = self.ret_ty(&inst) else { return Ok(None) };
        let al = self.crate_align(rule, l, ty)?.max(1) as i128;
        let size = self.size_of(form) as i128;
        let (fname, args) = if which.contains("sizer") {
            ("sizer_add", vec![bytes_of(ptr(cur.at, 0))])
        } else {
            let (m, _) = self.elements(rule, &mut st, l, ty, 1)?;
            (if which.contains("fault") { "fault_write" } else if which.contains("kind") { "kind_write" } else { "write" }, vec![bytes_of(ptr(cur.at, 0)), bytes_of(ptr(m, 0))])
        };
        st.max_deviations = 0;
        let (_, outs) = self.run(rule, &Self::e(l, fname), &[ty], st, args).map_err(End::Stuck)?;
        let Some(o) = outs.into_iter().next() else { return Ok(None) };
        if !matches!(o.end, End::Return(_)) {
            return Err(o.end);
        }
        let mut st = o.st;
        st.log.clear();
        st.max_deviations = usize::MAX;
        st.deviations = 0;
        st.trace.clear();
        let at = cur.fixed.unwrap_or(0);
        let at = (at + al - 1) / al * al;
        Ok(Some(Start { st, at: cur.at, fixed: Some(at + size), name: String::new(), leaf: None }))
    }

    /// Check one outcome of a successful write against the expected stream.
    pub fn check_stream(&self, s: &Start, o: &Outcome, parts: &[Part]) -> Result<(), String> {
        let e = seen(o);
        if let Some((k, _)) = e.err {
            return Err(format!("reports an error (kind {k}) although the sink accepted everything"));
        }
        let a = parts.iter().fold(1i128, |x, p| lcm(x, p.align.max(1) as i128));
        for r in s.residues(&o.st, a) {
            let (want, first, _) = stream(parts, r);
            let at = format!("starting at an offset that is {r} modulo {a} ({})", s.name);
            if e.emitted.len() != want.len() {
                return Err(format!("{at}: emits {} bytes instead of {}", e.emitted.len(), want.len()));
            }
            for i in 0..want.len() {
                if !Self::same(&o.st, e.emitted[i], want[i]) {
                    return Err(format!(
                        "{at}: emitted byte {i} is {} instead of {}",
                        show_byte(o.st.res_byte(e.emitted[i])),
                        show_byte(want[i])
                    ));
                }
            }
            match e.ok {
                Some(t) if o.st.res(t) == s.plus(&o.st, first) => {}
                Some(t) => return Err(format!("{at}: returns {} instead of {}", show(o.st.res(t)), show(s.plus(&o.st, first)))),
                None => return Err(format!("{at}: returns no offset")),
            }
            match e.len {
                Some(t) if o.st.res(t) == s.plus(&o.st, want.len() as i128) => {}
                Some(t) => return Err(format!("{at}: len() is {} instead of {}", show(o.st.res(t)), show(s.plus(&o.st, want.len() as i128)))),
                None => return Err(format!("{at}: no len()")),
            }
        }
        Ok(())
    }

    /// Check an outcome in which the sink may have failed.
    pub fn check_fault(&self, s: &Start, o: &Outcome, parts: &[Part]) -> Result<(), String> {
        let e = seen(o);
        // the sink's answers
        let mut hard: Option<usize> = None;
        let mut calls = vec![];
        for ev in &o.st.log {
            match ev {
                Event::Choice(k, _) => {
                    if hard.is_some() {
                        return Err(format!("writes to the sink again after it failed (sink answers {calls:?})"));
                    }
                    calls.push(*k);
                    if *k == 1 || *k == 2 {
                        hard = Some(*k);
                    }
                }
                Event::Emit(1, b) if !b.is_empty() && hard.is_some() => {
                    return Err("emits after the failure".to_string());
                }
                Event::Emit(5, _) if hard.is_some() => {
                    return Err(format!("takes another item from the iterator after the sink failed (sink answers {calls:?})"));
                }
                _ => {}
            }
        }
        let why = format!("sink answers {calls:?} (0 accepts, 1 error, 2 accepts nothing, 3 interrupted, 4 accepts one byte, 5 accepts all but the last byte)");
        match hard {
            None => return self.check_stream(s, o, parts).map_err(|e| format!("{why}: {e}")),
            Some(1) => match e.err {
                Some((11, t)) if as_const(o.st.res(t)) == Some(7777) => {}
                Some((k, _)) => return Err(format!("{why}: the caller gets another error (kind {k})")),
                None => return Err(format!("{why}: the error is lost, Ok is returned")),
            },
            Some(_) => match e.err {
                Some((12, _)) => {}
                Some((k, _)) => return Err(format!("{why}: the caller gets another error (kind {k})")),
                None => return Err(format!("{why}: the error is lost, Ok is returned")),
            },
        }
        self.check_partial(s, o, parts, &e, &why)
    }

    /// What a write that failed left behind.
    fn check_partial(&self, s: &Start, o: &Outcome, parts: &[Part], e: &Seen, why: &str) -> Result<(), String> {
        let a = parts.iter().fold(1i128, |x, p| lcm(x, p.align.max(1) as i128));
        for r in s.residues(&o.st, a) {
            let (want, _, units) = stream(parts, r);
            if e.emitted.len() > want.len() || !e.emitted.iter().zip(&want).all(|(x, y)| Self::same(&o.st, *x, *y)) {
                return Err(format!("{why}: bytes before the failure are not a prefix of the values' bytes"));
            }
            let full = units.iter().filter(|u| **u <= e.emitted.len()).max().cloned().unwrap_or(0);
            let Some(t) = e.len else { return Err("no len()".into()) };
            let t = o.st.res(t);
            if !(0..=full as i128).any(|k| s.plus(&o.st, k) == t) {
                return Err(format!("{why}: len() is {} although the sink accepted only {} bytes in full", show(t), full));
            }
        }
        Ok(())
    }

    /// Check an outcome in which the sink may have failed with an error of some kind.
    pub fn check_kind(&self, s: &Start, o: &Outcome, parts: &[Part]) -> Result<(), String> {
        let e = seen(o);
        let mut hard: Option<usize> = None;
        let mut calls = 0;
        for ev in &o.st.log {
            match ev {
                Event::Choice(..) if hard.is_some() => return Err(format!("writes to the sink again after call {calls} failed")),
                Event::Choice(k, _) => {
                    calls += 1;
                    if *k > 0 {
                        hard = Some(*k);
                    }
                }
                Event::Emit(5, _) if hard.is_some() => return Err(format!("takes another item from the iterator after call {calls} to the sink failed")),
                _ => {}
            }
        }
        let Some(k) = hard else { return self.check_stream(s, o, parts) };
        let why = format!("call {calls} to the sink fails with {}", if k == 1 { "an error that carries a value".to_string() } else { format!("error kind {} of probe::KINDS", k - 2) });
        match e.err {
            Some((14, t)) if k == 1 && as_const(o.st.res(t)) == Some(4242) => {}
            Some((15, t)) if k > 1 && as_const(o.st.res(t)) == Some(k as u128) => {}
            Some((c, t)) => return Err(format!("{why}: the caller gets another error (class {c}, {})", show(o.st.res(t)))),
            None => return Err(format!("{why}: the error is lost{}", if e.ok.is_some() { ", Ok is returned" } else { "" })),
        }
        self.check_partial(s, o, parts, &e, &why)
    }

    /// Memory holding `n` elements of `ty`; returns (alloc, layout bytes of each element).
    pub fn elements(&mut self, rule: &str, st: &mut State, l: Layout, ty: Ty, n: usize) -> Result<(u32, Vec<Vec<Byte>>), End> {
        let sz = self.size_of(ty);
        let mut mem = vec![];
        let mut forms = vec![];
        for i in 0..n {
            let (mut b, _, _) = self.input(ty, &format!("e{i}."), &pattern(0, i)).map_err(End::Stuck)?;
            let is_layout = self.implements(ty, &Self::tr(l, "Std"));
            if is_layout {
                for (k, x) in b.iter_mut().enumerate() {
                    if *x == Byte::Uninit {
                        *x = bytes_of(atom(&format!("e{i}.pad{k}"), 1, 0, 255))[0];
                    }
                }
            }
            b.resize(sz, Byte::Uninit);
            // its layout form, by the crate's own conversion
            let mut s2 = new_state();
            let m = s2.alloc(b.clone(), 16);
            let (_, outs) = self.run(rule, &Self::e(l, "to"), &[ty], s2, vec![bytes_of(ptr(m, 0))]).map_err(End::Stuck)?;
            if outs.len() != 1 {
                return Err(End::Stuck(format!("conversion of {ty} takes {} paths", outs.len())));
            }
            match outs.into_iter().next().unwrap().end {
                End::Return(x) => forms.push(x),
                e => return Err(e),
            }
            mem.extend(b);
        }
        let al = self.align_of_mem(ty);
        Ok((st.alloc(mem, al), forms))
    }

    fn wide(p: u32, n: usize) -> Vec<Byte> {
        let mut v = bytes_of(ptr(p, 0));
        v.extend(bytes_of(konst(n as u128, 8)));
        v
    }

    fn crate_align(&mut self, rule: &str, l: Layout, ty: Ty) -> Result<usize, End> {
        self.const_usize(rule, &Self::e(l, "align"), &[ty])
    }

    /// Writing one value (C10).
    pub fn rule_write(&mut self, subs: &[Subject]) {
        for l in LAYOUTS {
            let rule = format!("write.{}", l.name());
            let starts = match self.starts(&rule, l, "new_writer") {
                Ok(s) => s,
                Err(e) => {
                    self.failed(&rule, "Writer::new", &e);
                    continue;
                }
            };
            for s in &starts {
                if !self.mine() {
                    continue;
                }
                // len() of a writer is its offset
                self.check_len(&rule, l, s, "new_writer");
            }
            let mut forms = BTreeSet::new();
            for sub in subs {
                if matches!(sub.origin, Origin::Of(x) if x != l) {
                    continue;
                }
                let Some(lt) = self.layout_ty(sub, l) else { continue };
                // the arbitrary offset once per layout form, a fresh writer for every type
                let novel = forms.insert((lt.to_string(), sub.origin == Origin::Of(l)));
                let mut vars = vec!["write", "write_as_trait"];
                if self.implements(sub.ty, &Self::tr(l, "Std")) {
                    vars.push("write_layout");
                }
                // many histories: all of them for a few types, some for the others
                let every = if starts.len() <= 2 || v_all(&self.reps, sub.ty) { 1 } else { starts.len() / 4 };
                for v in vars {
                    for (k, s) in starts.iter().enumerate() {
                        if k % every == 0 && (k == 0 || (novel && v != "write_as_trait")) && self.mine() {
                            self.write_one(&rule, l, sub.ty, v, s, None);
                        }
                    }
                }
            }
            for t in self.table("hand::layouts") {
                for v in ["write", "write_as_trait", "write_layout"] {
                    for s in &starts {
                        if self.mine() {
                            self.write_one(&rule, l, t, v, s, None);
                        }
                    }
                }
            }
            for t in self.table("hand::converted") {
                for v in ["write", "write_as_trait"] {
                    for s in &starts {
                        if self.mine() {
                            self.write_one(&rule, l, t, v, s, None);
                        }
                    }
                }
            }
        }
    }

    /// Returns false if something was reported.
    fn write_one(&mut self, rule: &str, l: Layout, ty: Ty, v: &str, s: &Start, slice: Option<usize>) -> bool {
        let key = match slice {
            None => format!("{} {} {v}", ty, l.name()),
            Some(n) => format!("[{}] {} {v} length {n}", ty, l.name()),
        };
        let mut st = s.st.clone();
        let al = match self.crate_align(rule, l, ty) {
            Ok(a) => a,
            Err(e) => {
                self.failed(rule, &key, &e);
                return false;
            }
        };
        let (m, forms) = match self.elements(rule, &mut st, l, ty, slice.unwrap_or(1)) {
            Ok(x) => x,
            Err(e) => {
                self.failed(rule, &key, &e);
                return false;
            }
        };
        let parts: Vec<Part> = forms.into_iter().map(|b| Part { align: al, bytes: b }).collect();
        let by_slice_param = v.contains("iter") || v.contains("write_slice");
        let targ = match slice {
            Some(_) if !by_slice_param => Ty::from_rigid_kind(RigidTy::Slice(ty)),
            _ => ty,
        };
        let fname = if v.contains("write_slice") { format!("hand::{v}") } else { Self::e(l, v) };
        let arg = match slice {
            None => bytes_of(ptr(m, 0)),
            Some(n) => Self::wide(m, n),
        };
        let fault = v.starts_with("fault");
        let t0 = std::time::Instant::now();
        let res = self.run(rule, &fname, &[targ], st, vec![bytes_of(ptr(s.at, 0)), arg]);
        if t0.elapsed().as_secs() >= 3 {
            if std::env::var("CREVICE_VERIF_DEBUG").is_ok() {
                eprintln!("slow: {key} from {} took {:.0}s, {} paths", s.name, t0.elapsed().as_secs_f64(), res.as_ref().map(|x| x.1.len()).unwrap_or(0));
            }
        }
        let (_, outs) = match res {
            Ok(x) => x,
            Err(e) => {
                self.undecided(rule, key, e, "");
                return false;
            }
        };
        for o in &outs {
            match &o.end {
                End::Return(_) => {
                    let r = if fault { self.check_fault(s, o, &parts) } else if v.starts_with("kind") { self.check_kind(s, o, &parts) } else { self.check_stream(s, o, &parts) };
                    match r {
                        Ok(()) => self.ok(rule, || format!("{key}, {}, S = {} mod {}", s.name, o.st.s.r, o.st.s.m)),
                        Err(e) => {
                            self.bad(rule, key.clone(), format!("{key}: {e}"), Self::trace(&o.st));
                            return false;
                        }
                    }
                }
                e => {
                    if s.fixed.is_none() && Self::beyond(e) {
                        for c in self.corners(s) {
                            if !self.write_one(rule, l, ty, v, &c, slice) {
                                return false;
                            }
                        }
                    }
                    let r = if matches!(e, End::Panic(_)) { format!("{rule}.panic") } else { rule.to_string() };
                    self.failed(&r, &key, e);
                    return false;
                }
            }
        }
        let n = outs.len();
        self.ok(&format!("{rule}.panic"), || format!("{key}: {n} paths, none panics"));
        true
    }

    /// Slices and iterators (C11).
    pub fn rule_slices(&mut self, subs: &[Subject], many: &[Ty], maxlen: usize) {
        for l in LAYOUTS {
            let rule = format!("slice.{}", l.name());
            let mut starts = match self.starts(&rule, l, "new_writer") {
                Ok(s) => s,
                Err(e) => {
                    self.failed(&rule, "Writer::new", &e);
                    continue;
                }
            };
            if starts.len() > 12 {
                let k = starts.len() / 12 + 1;
                starts = starts.into_iter().step_by(k).collect();
            }
            let mut variants = vec!["write", "write_as_trait", "write_iter_slice", "write_iter_opaque", "write_iter_odd"];
            if l == Std140 && self.has_fn("hand::write_slice") {
                variants.push("write_slice");
            }
            let mut forms = BTreeSet::new();
            for sub in subs {
                if matches!(sub.origin, Origin::Of(x) if x != l) {
                    continue;
                }
                let Some(lt) = self.layout_ty(sub, l) else { continue };
                let copy = self.is_copy(sub.ty);
                if !forms.insert((lt.to_string(), sub.origin == Origin::Of(l))) {
                    // another type with the same form: its conversion per element is what differs
                    if self.mine() {
                        self.write_one(&rule, l, sub.ty, "write", &starts[0], Some(2));
                    }
                    continue;
                }
                let big = self.crate_align(&rule, l, sub.ty).map(|a| a > 64).unwrap_or(false);
                let deep = many.contains(&sub.ty);
                for v in &variants {
                    if v.contains("iter") && !copy {
                        continue;
                    }
                    if big && *v == "write_as_trait" {
                        continue;
                    }
                    let mut lens: Vec<usize> = if big { vec![0, 1, 2] } else { vec![0, 1, 2, 3] };
                    if deep && !big && *v != "write_as_trait" {
                        lens = (0..=maxlen).collect();
                        // lengths around every number the code mentions
                        for k in self.ip.stats.literals.clone() {
                            if k > 2 && k <= if self.thorough { 1030 } else { 40 } {
                                lens.extend([k as usize - 1, k as usize, k as usize + 1]);
                            }
                        }
                        // powers of two, where chunked implementations change course
                        let top = if many.first() == Some(&sub.ty) { 10 } else { 6 };
                        for e in 4..=if self.thorough { 12 } else { top } {
                            lens.extend([(1 << e) - 1, 1 << e, (1 << e) + 1]);
                        }
                        lens.sort();
                        lens.dedup();
                    }
                    'v: for n in &lens {
                        for s in &starts {
                            if *n > 8 && s.fixed.is_some() && starts.len() == 2 || !self.mine() {
                                continue;
                            }
                            if !self.write_one(&rule, l, sub.ty, v, s, Some(*n)) {
                                break 'v;
                            }
                        }
                    }
                }
            }
        }
    }

    /// Slices of types a client defined by hand (C11).
    pub fn rule_slices_hand(&mut self) {
        let mut tys = self.table("hand::converted");
        tys.extend(self.table("hand::layouts"));
        for l in LAYOUTS {
            let rule = format!("slice.{}", l.name());
            let Ok(starts) = self.starts(&rule, l, "new_writer") else { continue };
            for t in &tys {
                let big = self.crate_align(&rule, l, *t).map(|a| a > 64).unwrap_or(false);
                for v in ["write", "write_iter_slice", "write_iter_odd"] {
                    for n in [0, 1, 2, 3, 5] {
                        for s in &starts {
                            if (n <= 2 || !big) && self.mine() {
                                self.write_one(&rule, l, *t, v, s, Some(n));
                            }
                        }
                    }
                }
            }
        }
    }

    /// A slice of values that write themselves is what writing them one by one gives (C11).
    pub fn rule_slices_same(&mut self) {
        let mut tys = self.table("hand::writables");
        tys.extend(self.table("hand::converted"));
        for l in LAYOUTS {
            let rule = format!("slice.{}", l.name());
            let Ok(f) = self.fresh(&rule, l, "new_writer") else { continue };
            let lead: Vec<_> = self.reps.iter().take(1).copied().collect();
            for t in tys.clone() {
                if !self.implements(t, &Self::tr(l, "Write")) {
                    continue;
                }
                let mut lens: Vec<usize> = (0..7).collect();
                let top = if self.thorough { 8 } else { 6 };
                for e in 3..=top {
                    lens.extend([(1 << e) - 1, 1 << e, (1 << e) + 1]);
                }
                lens.sort();
                lens.dedup();
                for v in ["write", "write_iter_slice", "write_iter_opaque", "write_iter_odd"] {
                    let pats: &[usize] = if self.depends(t) { PATTERNS } else { &[0] };
                    'v: for n in &lens {
                        for before in 0..if *n < 7 { 4 } else { 2 } {
                            for p in pats {
                                if self.mine() && !self.same_one(&rule, l, &f, t, v, *n, before, *p, &lead) {
                                    break 'v;
                                }
                            }
                        }
                    }
                }
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn same_one(&mut self, rule: &str, l: Layout, f: &Start, ty: Ty, v: &str, n: usize, before: usize, pat: usize, lead: &[Ty]) -> bool {
        let key = format!("{v} of {n} values {ty} {} after {before} words, values {pat}", l.name());
        let mut st = f.st.clone();
        let step = |me: &mut Self, st: State, v: &str, targ: Ty, arg: Vec<Byte>| -> Result<(State, Seen), Option<End>> {
            let (_, mut outs) = me.run(rule, &Self::e(l, v), &[targ], st, vec![bytes_of(ptr(f.at, 0)), arg]).map_err(|_| None)?;
            if outs.len() != 1 {
                return Err(None);
            }
            let o = outs.remove(0);
            if !matches!(o.end, End::Return(_)) {
                return Err(Some(o.end));
            }
            let s = seen(&o);
            Ok((o.st, s))
        };
        macro_rules! go {
            ($e:expr) => {
                match $e {
                    Ok(x) => x,
                    Err(Some(e)) => {
                        let r = if matches!(e, End::Panic(_)) { format!("{rule}.panic") } else { rule.to_string() };
                        self.failed(&r, &key, &e);
                        return false;
                    }
                    Err(None) => {
                        self.undecided(rule, key, "no single path", "");
                        return false;
                    }
                }
            };
        }
        for _ in 0..before {
            let Some(t) = lead.first() else { break };
            let Ok((m, _)) = self.elements(rule, &mut st, l, *t, 1) else { return false };
            st.log.clear();
            st = go!(step(self, st, "write", *t, bytes_of(ptr(m, 0)))).0;
        }
        let mut ms = vec![];
        let mut all = vec![];
        for i in 0..n {
            match self.input(ty, &format!("e{i}."), &pattern(pat, i)) {
                Ok((b, _, _)) => {
                    let b: Vec<_> = b.into_iter().map(|x| if x == Byte::Uninit { Byte::C(0) } else { x }).collect();
                    all.extend(b.iter().cloned());
                    ms.push(b);
                }
                Err(e) => {
                    self.undecided(rule, key, e, "");
                    return false;
                }
            }
        }
        st.log.clear();
        let ms: Vec<_> = ms.into_iter().map(|b| st.alloc(b, 16)).collect();
        let m = st.alloc(all, 16);
        let len = go!(match self.run(rule, &Self::e(l, "writer_len_of"), &[], st.clone(), vec![bytes_of(ptr(f.at, 0))]) {
            Ok((_, mut o)) if o.len() == 1 => {
                let o = o.remove(0);
                match o.end {
                    End::Return(r) => Ok(as_const(o.st.res(from_bytes(&r)))),
                    e => Err(Some(e)),
                }
            }
            _ => Err(None),
        });
        let targ = if v == "write" { Ty::from_rigid_kind(RigidTy::Slice(ty)) } else { ty };
        let (ast, a) = go!(step(self, st.clone(), v, targ, Self::wide(m, n)));
        let mut emitted = vec![];
        let (mut first, mut end) = (len, len);
        let mut bst = st;
        for (i, m) in ms.iter().enumerate() {
            bst.log.clear();
            let (s, b) = go!(step(self, bst, "write", ty, bytes_of(ptr(*m, 0))));
            emitted.extend(b.emitted);
            let c = |t: Option<TermId>| t.and_then(|t| as_const(s.res(t)));
            if i == 0 {
                first = c(b.ok);
            }
            end = c(b.len);
            bst = s;
        }
        let c = |t: Option<TermId>| t.and_then(|t| as_const(ast.res(t)));
        if a.emitted == emitted && c(a.ok).is_some() && c(a.ok) == first && c(a.len) == end {
            self.ok(rule, || format!("{key}: {} bytes, as one by one", emitted.len()));
            return true;
        }
        let what = if a.emitted != emitted { format!("emits {} bytes, writing them one by one {} bytes{}", a.emitted.len(), emitted.len(), if a.emitted.len() == emitted.len() { " that differ" } else { "" }) } else { format!("returns {:?} and leaves len() {:?}, one by one {first:?} and {end:?}", c(a.ok), c(a.len)) };
        self.bad(rule, key.clone(), format!("{key}: {what}"), Self::trace(&ast));
        false
    }

    /// Sink failures (C12).
    pub fn rule_fault(&mut self, tys: &[Ty], slice_tys: &[Ty], lens: &[usize], deviations: usize) {
        for l in LAYOUTS {
            let rule = format!("fault.{}", l.name());
            let mut starts = match self.starts(&rule, l, "new_fault_writer") {
                Ok(s) => s,
                Err(e) => {
                    self.failed(&rule, "Writer::new", &e);
                    continue;
                }
            };
            if starts.len() > 5 {
                let k = starts.len() / 5 + 1;
                starts = starts.into_iter().step_by(k).collect();
            }
            for s in &mut starts {
                s.st.max_deviations = deviations;
            }
            for t in tys {
                let mut vars = vec!["fault_write"];
                if self.implements(*t, &Self::tr(l, "Std")) {
                    vars.push("fault_write_layout");
                }
                if !self.implements(*t, &Self::tr(l, "As")) {
                    continue;
                }
                let al = self.crate_align(&rule, l, *t).unwrap_or(1);
                for v in vars {
                    for s in &starts {
                        if !self.mine() {
                            continue;
                        }
                        let mut s = s.clone();
                        // one offset per residue is enough work already for wide alignments
                        if al > 64 && s.fixed.is_none() {
                            s = match self.after_float(&rule, l, &s) {
                                Some(x) => x,
                                None => continue,
                            };
                            s.st.max_deviations = 1;
                        } else if al > 64 {
                            s.st.max_deviations = 1;
                        } else if al > 8 && !t_first(tys, *t) {
                            s.st.max_deviations = deviations.min(1);
                        }
                        if !self.write_one(&rule, l, *t, v, &s, None) {
                            break;
                        }
                    }
                }
            }
            for t in slice_tys {
                if !self.implements(*t, &Self::tr(l, "As")) {
                    continue;
                }
                let mut vars = vec!["fault_write"];
                if self.is_copy(*t) {
                    vars.push("fault_write_iter");
                    vars.push("fault_write_iter_odd");
                }
                if l == Std140 && self.has_fn("hand::fault_write_slice") {
                    vars.push("fault_write_slice");
                }
                let al = self.crate_align(&rule, l, *t).unwrap_or(1);
                for v in vars {
                    'n: for n in lens {
                        if al > 64 && *n > 1 {
                            continue;
                        }
                        for s in &starts {
                            if al > 64 && s.fixed.is_none() || !self.mine() {
                                continue;
                            }
                            let mut s = s.clone();
                            s.st.max_deviations = deviations.min(if *n > 2 || al > 64 { 1 } else { 2 });
                            if !self.write_one(&rule, l, *t, v, &s, Some(*n)) {
                                break 'n;
                            }
                        }
                    }
                }
            }
        }
    }

    /// What a writer does besides writing: nothing when made, asked for its length or dropped; the sink, the
    /// iterator and its items end exactly once (C33).
    pub fn rule_life(&mut self, tys: &[Ty], lens: &[usize], deviations: usize) {
        for l in LAYOUTS {
            let rule = format!("life.{}", l.name());
            let mut st = new_state();
            st.max_deviations = deviations;
            self.life_one(&rule, "new, len, drop", &Self::e(l, "life_none"), &[], st.clone(), vec![], 1);
            for n in lens {
                let mut s = st.clone();
                s.max_deviations = if *n > 4 { deviations.min(1) } else { deviations };
                self.life_one(&rule, &format!("write_iter of {n} values"), &Self::e(l, "life_iter"), &[], s, vec![bytes_of(konst(*n as u128, 8))], 1);
            }
            let mut s = st.clone();
            let at = s.alloc(bytes_of(konst(3, 8)), 8);
            self.life_one(&rule, "write of a value with a destructor", &Self::e(l, "life_counted"), &[], s, vec![bytes_of(ptr(at, 0))], 1);
            self.life_one(&rule, "conversion of a value with a destructor", &Self::e(l, "life_convert"), &[], st.clone(), vec![bytes_of(konst(3, 8))], 0);
            for t in tys {
                if !self.implements(*t, &Self::tr(l, "As")) || !self.mine() {
                    continue;
                }
                let is_layout = self.implements(*t, &Self::tr(l, "Std"));
                for (v, n) in [("life_write", None), ("life_layout", None), ("life_write", Some(0)), ("life_write", Some(1)), ("life_write", Some(3))] {
                    if v == "life_layout" && !is_layout {
                        continue;
                    }
                    let mut s = st.clone();
                    let key = format!("{v} of {}", if let Some(n) = n { format!("[{t}; {n}]") } else { t.to_string() });
                    let (at, _) = match self.elements(&rule, &mut s, l, *t, n.unwrap_or(1)) {
                        Ok(x) => x,
                        Err(e) => {
                            self.failed(&rule, &key, &e);
                            continue;
                        }
                    };
                    let (arg, ty) = match n {
                        Some(n) => (Self::wide(at, n), Ty::from_rigid_kind(RigidTy::Slice(*t))),
                        None => (bytes_of(ptr(at, 0)), *t),
                    };
                    // failures for the representative types
                    let al = self.crate_align(&rule, l, *t).unwrap_or(1);
                    s.max_deviations = if v_all(&self.reps, *t) && al <= 32 { deviations } else { 0 };
                    self.life_one(&rule, &key, &Self::e(l, v), &[ty], s, vec![arg], 1);
                }
            }
        }
    }

    fn life_one(&mut self, rule: &str, key: &str, f: &str, tys: &[Ty], st: State, args: Vec<Vec<Byte>>, sinks: usize) {
        let outs = match self.run(rule, f, tys, st, args) {
            Ok((_, o)) => o,
            Err(e) => return self.undecided(rule, key, e, ""),
        };
        for o in outs {
            if !matches!(o.end, End::Return(_)) {
                self.failed(rule, key, &o.end);
                continue;
            }
            match Self::life(&o, sinks, f.ends_with("life_convert")) {
                Ok(()) => self.ok(rule, || format!("{key}: no call on the sink but in the write, all dropped once")),
                Err(e) => self.bad(rule, key, format!("{key}: {e}"), Self::trace(&o.st)),
            }
        }
    }

    fn life(o: &Outcome, sinks: usize, convert: bool) -> Result<(), String> {
        let (mut phase, mut dropped, mut iters) = (0, 0, 0);
        let (mut made, mut gone): (Vec<u128>, Vec<u128>) = (vec![], vec![]);
        let name = ["creating the Writer", "the write", "dropping the Writer", "afterwards"];
        let mut iterates = false;
        for e in &o.st.log {
            match e {
                Event::Val(30, _) => phase = 1,
                Event::Val(31, _) => phase = 2,
                Event::Val(32, _) => phase = 3,
                Event::Emit(1..=3, b) if phase != 1 => return Err(format!("{} hands {} bytes to the sink", name[phase], b.len())),
                Event::Val(43, _) => return Err(format!("{} flushes the sink", name[phase])),
                Event::Val(49, _) if phase == 2 => dropped += 1,
                Event::Val(49, _) => return Err(format!("the sink is dropped in the phase `{}`", name[phase])),
                Event::Val(46, t) => {
                    iterates = true;
                    made.push(as_const(o.st.res(*t)).ok_or("a value of the iterator")?)
                }
                Event::Val(47, _) => {
                    iterates = true;
                    iters += 1
                }
                Event::Val(48, t) => {
                    if convert && phase != 2 {
                        return Err("a conversion drops a value it was not given".into());
                    }
                    gone.push(as_const(o.st.res(*t)).ok_or("a dropped value")?)
                }
                _ => {}
            }
        }
        if dropped != sinks {
            return Err(format!("the sink is dropped {dropped} times with its Writer"));
        }
        if phase != 3 {
            return Err("ends early".into());
        }
        gone.sort();
        if convert {
            return if gone == [3] { Ok(()) } else { Err(format!("the converted value is dropped {} times", gone.len())) };
        }
        if iterates && iters != 1 {
            return Err(format!("the iterator is dropped {iters} times"));
        }
        made.sort();
        if made != gone {
            return Err(format!("of the values {made:?} the iterator gave, {gone:?} are dropped"));
        }
        Ok(())
    }

    /// Sink failures of every kind (C12).
    pub fn rule_kinds(&mut self, tys: &[Ty]) {
        for l in LAYOUTS {
            let rule = format!("fault.{}.kind", l.name());
            let mut starts = match self.starts(&rule, l, "new_kind_writer") {
                Ok(s) => s,
                Err(e) => {
                    self.failed(&rule, "Writer::new", &e);
                    continue;
                }
            };
            starts.truncate(6);
            for t in tys {
                if !self.implements(*t, &Self::tr(l, "As")) {
                    continue;
                }
                let al = self.crate_align(&rule, l, *t).unwrap_or(1);
                for (v, n) in [("kind_write", None), ("kind_write", Some(2)), ("kind_write_iter_odd", Some(2))] {
                    if al > 64 || v.contains("iter") && !self.is_copy(*t) {
                        continue;
                    }
                    for s in &starts {
                        if !self.mine() {
                            continue;
                        }
                        let mut s = s.clone();
                        if s.fixed.is_none() && (al > 4 || n.is_some()) {
                            s.st.s = SDom { m: 1, r: 0, lo: 252, hi: 252 };
                            s.name = "offset 252".into();
                        }
                        s.st.max_deviations = 1;
                        if !self.write_one(&rule, l, *t, v, &s, n) {
                            break;
                        }
                    }
                }
            }
        }
    }

    /// The symbolic offset narrowed to 4: the state after one float.
    fn after_float(&mut self, _rule: &str, _l: Layout, s: &Start) -> Option<Start> {
        let mut s = s.clone();
        s.st.s = SDom { m: 1, r: 0, lo: 252, hi: 252 };
        s.name = "offset 252".into();
        Some(s)
    }

    /// What a Sizer and a Writer say about the same type at the same offset (C13).
    pub fn rule_sizer(&mut self, subs: &[Subject], seqs: &[Vec<Ty>]) {
        for l in LAYOUTS {
            let rule = format!("sizer.{}", l.name());
            let ws = self.starts(&rule, l, "new_writer");
            let ss = self.starts(&rule, l, "new_sizer");
            let (ws, ss) = match (ws, ss) {
                (Ok(a), Ok(b)) => (a, b),
                (Err(e), _) | (_, Err(e)) => {
                    self.failed(&rule, "new", &e);
                    continue;
                }
            };
            for s in &ss {
                if !self.mine() {
                    continue;
                }
                self.check_len(&rule, l, s, "new_sizer");
            }
            let mut tys: Vec<Ty> = vec![];
            for sub in subs {
                if !matches!(sub.origin, Origin::Of(x) if x != l) && self.layout_ty(sub, l).is_some() {
                    tys.push(sub.ty);
                }
            }
            tys.extend(self.table("hand::layouts"));
            tys.extend(self.table("hand::converted"));
            for ty in tys {
                if !self.mine() {
                    continue;
                }
                let key = format!("{} {}", ty, l.name());
                // one table (residue -> placement) from each side; the residues are those of the larger modulus
                let w = self.placements(&rule, l, ty, &ws, false, &key);
                let s = self.placements(&rule, l, ty, &ss, true, &key);
                let (Some(w), Some(s)) = (w, s) else { continue };
                let mut bad = None;
                for (r, p) in &w {
                    match s.get(r) {
                        Some(q) if q.0 == p.0 && q.1 == p.1 => {}
                        Some(q) => {
                            bad = Some(format!("at an offset that is {r} modulo 2048 the Sizer places {} at +{} and advances by {}, the Writer at +{} and emits {}", ty, q.0, q.1, p.0, p.1));
                            break;
                        }
                        None => {}
                    }
                }
                match bad {
                    None => self.ok(&rule, || format!("{key}: {} residues agree", w.len())),
                    Some(b) => self.bad(&rule, key, b, ""),
                }
            }
            for seq in seqs {
                if self.mine() {
                    self.sequence(&rule, l, seq, &ws[0], &ss[0]);
                }
            }
        }
    }

    /// Where the Sizer alone places each type (C21: in every configuration).
    pub fn rule_sizer_abs(&mut self, subs: &[Subject]) {
        for l in LAYOUTS {
            let rule = format!("sizerabs.{}", l.name());
            let ss = match self.starts(&rule, l, "new_sizer") {
                Ok(s) => s,
                Err(e) => {
                    self.failed(&rule, "new", &e);
                    continue;
                }
            };
            for sub in subs {
                if matches!(sub.origin, Origin::Of(x) if x != l) || self.layout_ty(sub, l).is_none() || !self.mine() {
                    continue;
                }
                let key = format!("{} {}", sub.ty, l.name());
                let Some(t) = self.placements(&rule, l, sub.ty, &ss, true, &key) else { continue };
                let (al, sz) = (sub.glsl.align(l) as i128, sub.glsl.size(l) as i128);
                match t.iter().find(|(r, p)| p.0 != (al - *r % al) % al || p.1 != p.0 + sz) {
                    None => self.ok(&rule, || format!("{key}: {} residues", t.len())),
                    Some((r, p)) => self.bad(&rule, key, format!("at an offset that is {r} modulo 2048 the Sizer places {} at +{} and advances by {}; alignment {al}, size {sz}", sub.ty, p.0, p.1), ""),
                }
            }
        }
    }

    /// residue modulo 2048 -> (placement, bytes advanced)
    fn placements(&mut self, rule: &str, l: Layout, ty: Ty, starts: &[Start], sizer: bool, key: &str) -> Option<BTreeMap<i128, (i128, i128)>> {
        let mut map = BTreeMap::new();
        let m = 2048i128;
        for s in starts {
            if s.fixed == Some(0) && starts.iter().any(|x| x.fixed.is_none()) {
                continue;
            }
            let mut st = s.st.clone();
            let (f, args) = if sizer {
                ("sizer_add", vec![bytes_of(ptr(s.at, 0))])
            } else {
                match self.elements(rule, &mut st, l, ty, 1) {
                    Ok((p, _)) => ("write", vec![bytes_of(ptr(s.at, 0)), bytes_of(ptr(p, 0))]),
                    Err(e) => {
                        self.failed(rule, key, &e);
                        return None;
                    }
                }
            };
            let outs = match self.run(rule, &Self::e(l, f), &[ty], st, args) {
                Ok((_, o)) => o,
                Err(e) => {
                    self.undecided(rule, key, e, "");
                    return None;
                }
            };
            for o in &outs {
                if !matches!(o.end, End::Return(_)) {
                    if s.fixed.is_none() && Self::beyond(&o.end) {
                        // offsets one by one, so that a wrong one is at least found
                        let mut all: Vec<Start> = (0..2048).filter_map(|n| self.poked(s, s.leaf?, n)).collect();
                        all.extend(self.corners(s));
                        return self.placements(rule, l, ty, &all, sizer, key);
                    }
                    let r = if matches!(o.end, End::Panic(_)) { format!("{rule}.panic") } else { rule.to_string() };
                    self.failed(&r, key, &o.end);
                    return None;
                }
                let e = seen(o);
                let find = |t: Option<TermId>| -> Option<i128> {
                    let t = o.st.res(t?);
                    match (get(t), s.fixed) {
                        (Term::Const(v, _), Some(n)) => Some(v as i128 - n),
                        (Term::Const(v, _), None) if o.st.s.lo == o.st.s.hi => Some(v as i128 - o.st.s.lo),
                        (Term::Lin { a: 1, c, d: 1 }, None) => Some(c),
                        _ => None,
                    }
                };
                let (Some(at), Some(len)) = (find(e.ok), find(e.len)) else {
                    self.bad(rule, key, format!("{}: cannot relate the result to the offset: {:?} {:?}", if sizer { "Sizer" } else { "Writer" }, e.ok.map(|t| show(o.st.res(t))), e.len.map(|t| show(o.st.res(t)))), Self::trace(&o.st));
                    return None;
                };
                let adv = if sizer { len } else { e.emitted.len() as i128 };
                if !sizer && adv != len {
                    self.bad(rule, key, format!("Writer: len() advances by {len} but {adv} bytes are emitted"), Self::trace(&o.st));
                    return None;
                }
                for r in s.residues(&o.st, m) {
                    if let Some(old) = map.insert(r, (at, adv)) {
                        if old != (at, adv) {
                            self.bad(rule, key, format!("{} places {ty} at +{at} and advances by {adv} at {}, but at +{} and by {} at another offset that is {r} modulo 2048", if sizer { "Sizer" } else { "Writer" }, s.name, old.0, old.1), Self::trace(&o.st));
                            return None;
                        }
                    }
                }
            }
        }
        Some(map)
    }

    fn sequence(&mut self, rule: &str, l: Layout, seq: &[Ty], w: &Start, s: &Start) {
        let key = format!("{} {}", l.name(), seq.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(", "));
        let mut ws = w.st.clone();
        let mut ss = s.st.clone();
        let mut total = 0usize;
        for t in seq {
            if !self.implements(*t, &Self::tr(l, "As")) {
                return;
            }
            let p = match self.elements(rule, &mut ws, l, *t, 1) {
                Ok((p, _)) => p,
                Err(e) => return self.failed(rule, &key, &e),
            };
            ws.log.clear();
            ss.log.clear();
            let a = self.run(rule, &Self::e(l, "write"), &[*t], ws, vec![bytes_of(ptr(w.at, 0)), bytes_of(ptr(p, 0))]);
            let b = self.run(rule, &Self::e(l, "sizer_add"), &[*t], ss, vec![bytes_of(ptr(s.at, 0))]);
            let (Ok((_, mut a)), Ok((_, mut b))) = (a, b) else { return };
            if a.len() != 1 || b.len() != 1 {
                return self.undecided(rule, key, "concrete sequence takes several paths", "");
            }
            let (a, b) = (a.remove(0), b.remove(0));
            for o in [&a, &b] {
                if !matches!(o.end, End::Return(_)) {
                    return self.failed(rule, &key, &o.end);
                }
            }
            let (x, y) = (seen(&a), seen(&b));
            total += x.emitted.len();
            let c = |o: &Outcome, t: Option<TermId>| t.and_then(|t| as_const(o.st.res(t)));
            if c(&a, x.ok).is_none() || c(&a, x.ok) != c(&b, y.ok) || c(&b, y.len) != Some(total as u128) || c(&a, x.len) != Some(total as u128) {
                return self.bad(
                    rule,
                    key.clone(),
                    format!("sequence {key}: Writer places {:?}, len {:?}, {total} bytes emitted; Sizer places {:?}, len {:?}", c(&a, x.ok), c(&a, x.len), c(&b, y.ok), c(&b, y.len)),
                    Self::trace(&b.st),
                );
            }
            ws = a.st;
            ss = b.st;
        }
        self.ok(rule, || format!("sequence {key}: {total} bytes"));
    }

    /// Reported sizes (C14).
    pub fn rule_sizes(&mut self, subs: &[Subject], hand: &[Ty], slice_tys: &[Ty], lens: &[usize]) {
        for l in LAYOUTS {
            let rule = format!("sizes.{}", l.name());
            let f = match self.fresh(&rule, l, "new_writer") {
                Ok(f) => f,
                Err(e) => {
                    self.failed(&rule, "Writer::new", &e);
                    continue;
                }
            };
            for sub in subs {
                if matches!(sub.origin, Origin::Of(x) if x != l) {
                    continue;
                }
                let Some(lt) = self.layout_ty(sub, l) else { continue };
                if !self.mine() {
                    continue;
                }
                let key = format!("{} {}", sub.ty, l.name());
                let size = self.size_of(lt);
                match self.const_usize(&rule, &Self::e(l, "size_static"), &[sub.ty]) {
                    Ok(n) if n == size => self.ok(&rule, || format!("static size of {key} = {n}")),
                    Ok(n) => self.bad(&rule, format!("{key} static"), format!("static {} size of {} is {n}, its form has {size} bytes", l.name(), sub.ty), ""),
                    Err(e) => self.failed(&rule, &key, &e),
                }
                self.size_one(&rule, l, &f, sub.ty, None, Some(size));
            }
            for t in hand {
                if self.implements(*t, &Self::tr(l, "Write")) {
                    if self.mine() {
                        self.size_one(&rule, l, &f, *t, None, None);
                    }
                    for n in lens {
                        if self.mine() && !self.size_one(&rule, l, &f, *t, Some(*n), None) {
                            break;
                        }
                    }
                }
            }
            for t in slice_tys {
                if self.implements(*t, &Self::tr(l, "As")) {
                    for n in lens {
                        if self.mine() && !self.size_one(&rule, l, &f, *t, Some(*n), None) {
                            break;
                        }
                    }
                    // long slices of the simplest type, lengths around the numbers the code mentions
                    if slice_tys.first() == Some(t) {
                        let mut more = vec![511, 512, 513, 1023, 1024, 1025];
                        for k in self.ip.stats.literals.clone() {
                            if k > 12 && k < 2000 {
                                more.extend([k as usize - 1, k as usize, k as usize + 1]);
                            }
                        }
                        more.sort();
                        more.dedup();
                        for n in more {
                            if self.mine() && !self.size_one(&rule, l, &f, *t, Some(n), None) {
                                break;
                            }
                        }
                    }
                }
            }
        }
    }

    fn size_one(&mut self, rule: &str, l: Layout, f: &Start, ty: Ty, slice: Option<usize>, want: Option<usize>) -> bool {
        let pats: &[usize] = if self.depends(ty) { PATTERNS } else { &[0] };
        pats.iter().all(|p| self.size_pattern(rule, l, f, ty, slice, want, *p))
    }

    /// Is the number of bytes written a matter of the value?
    fn depends(&mut self, ty: Ty) -> bool {
        let mut lv = vec![];
        let hand = self.table("hand::writables").contains(&ty);
        hand && self.leaves(ty, 0, &mut lv).is_ok() && lv.iter().any(|x| x.sc == Scalar::Bool)
    }

    fn size_pattern(&mut self, rule: &str, l: Layout, f: &Start, ty: Ty, slice: Option<usize>, want: Option<usize>, pat: usize) -> bool {
        let key = match slice {
            None => format!("{} {}", ty, l.name()),
            Some(n) => format!("[{}] {} length {n}", ty, l.name()),
        };
        let key = if pat > 0 { format!("{key} values {pat}") } else { key };
        let targ = if slice.is_some() { Ty::from_rigid_kind(RigidTy::Slice(ty)) } else { ty };
        let n = slice.unwrap_or(1);
        let mut mem = vec![];
        for i in 0..n {
            match self.input(ty, &format!("e{i}."), &pattern(pat, i)) {
                Ok((b, _, _)) => mem.extend(b.into_iter().map(|x| if x == Byte::Uninit { Byte::C(0) } else { x })),
                Err(e) => {
                    self.undecided(rule, key, e, "");
                    return false;
                }
            }
        }
        let mut st = f.st.clone();
        let m = st.alloc(mem, 16);
        let arg = if slice.is_some() { Self::wide(m, n) } else { bytes_of(ptr(m, 0)) };
        let a = self.run(rule, &Self::e(l, "size"), &[targ], st.clone(), vec![arg.clone()]);
        let b = self.run(rule, &Self::e(l, "write"), &[targ], st, vec![bytes_of(ptr(f.at, 0)), arg]);
        let (Ok((_, a)), Ok((_, b))) = (a, b) else {
            self.undecided(rule, key, "cannot resolve", "");
            return false;
        };
        for o in a.iter().chain(&b) {
            if !matches!(o.end, End::Return(_)) {
                let r = if matches!(o.end, End::Panic(_)) { format!("{rule}.panic") } else { rule.to_string() };
                self.failed(&r, &key, &o.end);
                return false;
            }
        }
        let mut lens = BTreeSet::new();
        for o in &b {
            lens.insert(seen(o).emitted.len());
        }
        if let Some(w) = want {
            lens.insert(w);
        }
        for o in &a {
            let End::Return(r) = &o.end else { unreachable!() };
            let v = as_const(o.st.res(from_bytes(r)));
            if lens.len() == 1 && v == lens.iter().next().map(|x| *x as u128) {
                self.ok(rule, || format!("{key}: {} bytes", v.unwrap()));
            } else {
                self.bad(rule, key.clone(), format!("{} size of {key} is {:?}, a fresh Writer emits {:?} bytes", l.name(), v, lens), Self::trace(&o.st));
                return false;
            }
        }
        true
    }

    /// Byte views (C22).
    pub fn rule_bytes(&mut self, subs: &[Subject]) {
        let mut done = BTreeSet::new();
        for l in LAYOUTS {
            let rule = format!("bytes.{}", l.name());
            for sub in subs {
                if matches!(sub.origin, Origin::Of(x) if x != l) {
                    continue;
                }
                let Some(lt) = self.layout_ty(sub, l) else { continue };
                if !done.insert(format!("{lt} {}", l.name())) || !self.mine() {
                    continue;
                }
                match self.inst(&Self::e(l, "bytes"), &[lt]) {
                    Ok(i) => self.bytes_one(&rule, &format!("{lt} as {}", Self::tr(l, "Std")), lt, i),
                    Err(e) => self.undecided(&rule, lt.to_string(), e, ""),
                }
                // the method on the derived type itself
                if let TyKind::RigidTy(RigidTy::Adt(d, args)) = lt.kind() {
                    if sub.origin == Origin::Derived {
                        let mut found = false;
                        for i in d.inherent_impls() {
                            for it in i.associated_items() {
                                if it.def_id.name().rsplit("::").next() == Some("as_bytes") {
                                    found = true;
                                    let def = FnDef(it.def_id.def_id());
                                    match Instance::resolve(def, &args) {
                                        Ok(inst) => self.bytes_one(&rule, &format!("{lt}::as_bytes"), lt, inst),
                                        Err(e) => self.undecided(&rule, lt.to_string(), format!("{e:?}"), ""),
                                    }
                                }
                            }
                        }
                        if !found {
                            self.bad(&rule, format!("{lt}::as_bytes"), format!("{lt} has no as_bytes method of its own"), "");
                        }
                    }
                }
            }
        }
    }

    fn bytes_one(&mut self, rule: &str, key: &str, lt: Ty, inst: Instance) {
        let n = self.size_of(lt);
        let b: Vec<Byte> = (0..n).flat_map(|i| bytes_of(atom(&format!("byte{i}"), 1, 0, 255))).collect();
        let mut st = new_state();
        let al = self.align_of_mem(lt);
        let m = st.alloc(b.clone(), al);
        let outs = self.ip.run(st, inst, vec![bytes_of(ptr(m, 0))]);
        for o in &outs {
            match &o.end {
                End::Return(r) if r.len() == 16 => {
                    let (p, len) = (o.st.res(from_bytes(&r[..8])), as_const(o.st.res(from_bytes(&r[8..]))));
                    let same_mem = self.ip.load(&o.st, Addr::Mem(m, 0), n).map(|x| x == b).unwrap_or(false);
                    if len != Some(n as u128) {
                        self.bad(rule, key, format!("{key}: the slice has {len:?} bytes, the value has {n}"), Self::trace(&o.st));
                    } else if n > 0 && p != ptr(m, 0) {
                        self.bad(rule, key, format!("{key}: the slice starts at {} instead of the value", show(p)), Self::trace(&o.st));
                    } else if !same_mem {
                        self.bad(rule, key, format!("{key}: the value is changed"), Self::trace(&o.st));
                    } else {
                        self.ok(rule, || format!("{key}: the value itself, {n} bytes"));
                    }
                }
                End::Return(_) => self.bad(rule, key, "not a slice", ""),
                e => self.failed(rule, key, e),
            }
        }
    }

    /// Element spacing of slices (C25).
    pub fn rule_stride(&mut self, subs: &[Subject]) {
        for l in LAYOUTS {
            let rule = format!("stride.{}", l.name());
            let Ok(f) = self.fresh(&rule, l, "new_writer") else { continue };
            // slices at the start of the buffer and after other things
            let mut starts = vec![f.clone()];
            let mut cur = f;
            for t in [UintTy::U32] {
                if let Ok(Some(mut s)) = self.after(&rule, l, "new_writer", &cur, Ty::from_rigid_kind(RigidTy::Uint(t))) {
                    s.name = "after a uint".into();
                    starts.push(s.clone());
                    cur = s;
                }
            }
            for sub in subs {
                if matches!(sub.origin, Origin::Of(x) if x != l) || matches!(sub.glsl, Glsl::Dyn(_)) || self.layout_ty(sub, l).is_none() || !self.mine() {
                    continue;
                }
                let many = !matches!(sub.origin, Origin::Derived) || self.reps.contains(&sub.ty);
                for (from, n) in starts.iter().flat_map(|s| if many { vec![(s, 3), (s, 20)] } else { vec![(s, 3)] }) {
                    if !self.stride_one(&rule, l, sub, from, n) {
                        break;
                    }
                }
            }
        }
    }

    fn stride_one(&mut self, rule: &str, l: Layout, sub: &Subject, f: &Start, n: usize) -> bool {
        let mut st = f.st.clone();
        let key = sub.ty.to_string();
        let (m, forms) = match self.elements(rule, &mut st, l, sub.ty, n) {
            Ok(x) => x,
            Err(e) => {
                self.failed(rule, &key, &e);
                return false;
            }
        };
        let sl = Ty::from_rigid_kind(RigidTy::Slice(sub.ty));
        let Ok((_, outs)) = self.run(rule, &Self::e(l, "write"), &[sl], st, vec![bytes_of(ptr(f.at, 0)), Self::wide(m, n)]) else { return true };
        let stride = sub.glsl.array_stride(l);
        let size = forms[0].len();
        for o in &outs {
            let e = seen(o);
            if size == 0 {
                continue;
            }
            let first = match e.ok.and_then(|t| as_const(o.st.res(t))) {
                Some(x) if x as i128 >= f.fixed.unwrap_or(0) => (x as i128 - f.fixed.unwrap_or(0)) as usize,
                _ => {
                    self.undecided(rule, &key, String::from("the offset of the slice is not known"), &Self::trace(&o.st));
                    return false;
                }
            };
            let fits = |d: usize| (0..n).all(|i| first + i * d + size <= e.emitted.len() && (0..size).all(|k| Self::same(&o.st, e.emitted[first + i * d + k], forms[i][k])));
            if fits(stride) {
                self.ok(rule, || format!("[{}; {n}] stride {stride} ({})", sub.ty, f.name));
                continue;
            }
            let got = (e.emitted.len().saturating_sub(size + first)) / (n - 1);
            let apart = if fits(got) { format!("{got}") } else { "unevenly".to_string() };
            self.bad(
                rule,
                &format!("[{}] {} {apart} apart", sub.glsl.name(), l.name()),
                format!("{n} elements of [{}] ({}[] in GLSL) are written {apart} bytes apart ({}), the {} array stride is {stride}", sub.ty, sub.glsl.name(), f.name, l.name()),
                Self::trace(&o.st),
            );
            if apart == "unevenly" {
                return false;
            }
        }
        true
    }
}
