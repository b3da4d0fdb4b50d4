//! Abstract interpreter over monomorphic MIR (rustc_public).

use crate::terms::{self, *};
use rustc_public::abi::{FieldsShape, LayoutShape, Scalar as AbiScalar, TagEncoding, ValueRepr, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::rc::Rc;

pub const GLOBAL_BASE: u32 = 1 << 30;
pub const POW64: i128 = 1i128 << 64;

#[derive(Clone, Debug)]
pub struct Alloc {
    pub bytes: Vec<Byte>,
    pub align: u64,
}

#[derive(Clone)]
pub enum Global {
    Mem(Rc<Alloc>),
    Fn(Instance),
}

#[derive(Clone, Debug)]
pub enum Refine {
    SMod(i128, i128),
    SRange(i128, i128),
    Fact(TermId, u128, u128),
    Force(usize),
}

#[derive(Debug)]
pub enum Int {
    Split(Vec<Refine>),
    Stuck(String),
    Panic(String),
}

pub type R<T> = Result<T, Int>;

fn stuck<T>(s: impl Into<String>) -> R<T> {
    Err(Int::Stuck(s.into()))
}

#[derive(Clone, Debug)]
pub struct SDom {
    pub m: i128,
    pub r: i128,
    pub lo: i128,
    pub hi: i128,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Event {
    /// tag, payload bytes
    Emit(u32, Vec<Byte>),
    Val(u32, TermId),
    Choice(usize, usize),
}

pub struct FnBody {
    pub krate: String,
    /// belongs to the code under analysis
    pub ours: bool,
    pub calls: std::cell::RefCell<HashMap<usize, (Instance, bool)>>,
    pub body: Body,
    pub inst: Instance,
    pub name: String,
    pub local_tys: Vec<Ty>,
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<FnBody>,
    pub locals: Vec<u32>,
    pub bb: usize,
    pub si: usize,
    pub dest: Addr,
    pub target: Option<usize>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: BTreeMap<u32, Rc<Alloc>>,
    pub next: u32,
    pub facts: BTreeMap<TermId, (u128, u128)>,
    pub s: SDom,
    pub log: Vec<Event>,
    pub forced: Option<usize>,
    /// some fact is about bytes of a larger value
    byte_facts: bool,
    /// this path may be one that no input takes
    pub doubt: bool,
    pub steps: u64,
    pub choices: usize,
    pub max_choices: usize,
    /// choices other than 0 taken so far, and how many are explored; beyond that the answer is 0
    pub deviations: usize,
    pub max_deviations: usize,
    /// functions of the code under analysis entered so far (bounded)
    pub trace: Vec<Rc<FnBody>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Addr {
    Mem(u32, i64),
    Raw(u128),
}

#[derive(Clone)]
struct Pl {
    addr: Addr,
    ty: Ty,
    meta: Option<TermId>,
    variant: Option<VariantIdx>,
}

pub struct TyInfo {
    pub size: usize,
    pub align: u64,
    pub shape: LayoutShape,
    pub sized: bool,
}

pub enum End {
    Return(Vec<Byte>),
    Panic(String),
    Stuck(String),
    /// the path ran into a bound set by the rule (choice budget)
    Cut,
}

pub struct Outcome {
    pub st: State,
    pub end: End,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub steps: u64,
    pub splits: u64,
    pub calls: u64,
    pub functions: BTreeSet<String>,
    pub crevice_functions: BTreeSet<String>,
    pub literals: BTreeSet<u128>,
}

#[derive(Clone, Copy, Default)]
struct TyFlags {
    pointee: Option<Ty>,
    deref: Option<Ty>,
    slice: Option<Ty>,
    is_str: bool,
    signed: bool,
    float: bool,
    boolean: bool,
}

thread_local! {
    static FLAGS: std::cell::RefCell<HashMap<Ty, TyFlags>> = Default::default();
}

/// What a call target needs, computed once.
struct CallInfo {
    intrinsic: Option<String>,
    empty: bool,
    panics: Option<String>,
    foreign: Option<String>,
}

pub struct Interp {
    callinfo: HashMap<Instance, Rc<CallInfo>>,
    wide: HashMap<Ty, bool>,
    tyinfo: HashMap<Ty, Rc<TyInfo>>,
    bodies: HashMap<Instance, Rc<FnBody>>,
    globals: Vec<Global>,
    global_ids: HashMap<AllocId, u32>,
    vtables: HashMap<(Ty, String), u32>,
    fn_ids: HashMap<Instance, u32>,
    pub stats: Stats,
    pub max_steps: u64,
    pub max_paths: usize,
    /// also look for misaligned accesses, invalid values and broken contracts of unsafe functions
    pub strict: bool,
    /// the place is only named, not accessed
    raw_place: bool,
    /// scalars of a type: offset, size, first and last valid value, what it is
    scalars: HashMap<Ty, Rc<Vec<(usize, u8, u128, u128, Ty)>>>,
}

pub fn new_state() -> State {
    State {
        frames: vec![],
        mem: BTreeMap::new(),
        next: 1,
        facts: BTreeMap::new(),
        s: SDom { m: 1, r: 0, lo: 0, hi: (1i128 << 62) },
        log: vec![],
        forced: None,
        byte_facts: false,
        doubt: false,
        steps: 0,
        choices: 0,
        max_choices: usize::MAX,
        deviations: 0,
        max_deviations: usize::MAX,
        trace: vec![],
    }
}

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

fn div_floor(a: i128, b: i128) -> i128 {
    a.div_euclid(b)
}
fn div_ceil(a: i128, b: i128) -> i128 {
    -((-a).div_euclid(b))
}

impl SDom {
    /// Restrict to [lo, hi]; None if empty.
    fn restrict(&self, lo: i128, hi: i128) -> Option<SDom> {
        let mut lo = self.lo.max(lo);
        let mut hi = self.hi.min(hi);
        // tighten to the residue class
        let up = (self.r - lo).rem_euclid(self.m);
        lo += up;
        let down = (hi - self.r).rem_euclid(self.m);
        hi -= down;
        if lo > hi {
            None
        } else {
            Some(SDom { m: self.m, r: self.r, lo, hi })
        }
    }
    pub fn range(&self, a: i128, c: i128, d: i128) -> (i128, i128) {
        let x = (a * self.lo + c) / d;
        let y = (a * self.hi + c) / d;
        (x.min(y), x.max(y))
    }
}

impl State {
    pub fn alloc(&mut self, bytes: Vec<Byte>, align: u64) -> u32 {
        let id = self.next;
        self.next += 1;
        self.mem.insert(id, Rc::new(Alloc { bytes, align }));
        id
    }

    fn apply(&mut self, r: &Refine) -> bool {
        match r {
            Refine::SMod(m, r) => {
                let nd = SDom { m: *m, r: *r, lo: self.s.lo, hi: self.s.hi };
                match nd.restrict(nd.lo, nd.hi) {
                    Some(d) => {
                        self.s = d;
                        true
                    }
                    None => false,
                }
            }
            Refine::SRange(lo, hi) => match self.s.restrict(*lo, *hi) {
                Some(d) => {
                    self.s = d;
                    true
                }
                None => false,
            },
            Refine::Fact(t, lo, hi) => {
                if lo > hi {
                    return false;
                }
                self.learn(*t, *lo, *hi, 0) && self.consistent(*t)
            }
            Refine::Force(k) => {
                self.forced = Some(*k);
                true
            }
        }
    }

    /// Record that t lies in [lo, hi], and what follows for the terms it is made of.
    fn learn(&mut self, t: TermId, lo: u128, hi: u128, depth: usize) -> bool {
        let old = self.range(t);
        let (lo, hi) = (lo.max(old.0), hi.min(old.1));
        if lo > hi {
            return false;
        }
        if as_const(t).is_some() {
            return true;
        }
        self.facts.insert(t, (lo, hi));
        if depth > 6 {
            return true;
        }
        match terms::get(t) {
            Term::Cat(b) => {
                self.byte_facts |= b.iter().any(|x| matches!(x, Byte::T(..)));
                if hi == 0 && b.len() > 1 {
                    for x in &b {
                        if matches!(x, Byte::T(..)) && !self.learn(from_bytes(&[*x]), 0, 0, depth + 1) {
                            return false;
                        }
                    }
                }
                if let Some(inner) = strip_zext(t) {
                    return self.learn(inner, lo, hi.min(mask(size_of(inner))), depth + 1);
                }
                true
            }
            Term::Op { op, args, size } => {
                let bits = 8 * size_of(args[0]) as u128;
                match op {
                    Op::Ctlz => {
                        let low = if hi < bits { 1u128 << (bits - 1 - hi) } else { 0 };
                        let high = if lo == 0 { mask(size_of(args[0])) } else { (1u128 << (bits - lo)) - 1 };
                        self.learn(args[0], low, high, depth + 1)
                    }
                    Op::Ctpop if hi == 0 => self.learn(args[0], 0, 0, depth + 1),
                    Op::Ctpop if lo > 0 => self.learn(args[0], 1, mask(size_of(args[0])), depth + 1),
                    Op::Other(c) if hi == 0 && ["rotl", "bitreverse"].contains(&op_name(c).as_str()) => self.learn(args[0], 0, 0, depth + 1),
                    Op::Other(c) if lo > 0 && ["rotl", "bitreverse"].contains(&op_name(c).as_str()) => {
                        let h = self.range(args[0]).1;
                        self.learn(args[0], 1, h, depth + 1)
                    }
                    Op::Cttz if lo == bits => self.learn(args[0], 0, 0, depth + 1),
                    Op::Cttz if hi < bits => self.learn(args[0], 1, mask(size_of(args[0])), depth + 1),
                    Op::Or if hi == 0 => self.learn(args[0], 0, 0, depth + 1) && self.learn(args[1], 0, 0, depth + 1),
                    Op::Shr => match as_const(args[1]) {
                        Some(k) if k < bits => {
                            let high = (hi << k) | ((1u128 << k) - 1);
                            self.learn(args[0], lo << k, high.min(mask(size)), depth + 1)
                        }
                        _ => true,
                    },
                    Op::Xor if size == 1 && lo == hi && as_const(args[1]) == Some(1) => self.learn(args[0], 1 - lo.min(1), 1 - lo.min(1), depth + 1),
                    Op::Eq | Op::Ne if lo == hi => {
                        let same = (op == Op::Eq) == (lo == 1);
                        for (x, y) in [(args[0], args[1]), (args[1], args[0])] {
                            if let Some(k) = as_const(y) {
                                let (l, h) = self.range(x);
                                let ok = if same {
                                    self.learn(x, k, k, depth + 1)
                                } else if l == k {
                                    self.learn(x, k + 1, h, depth + 1)
                                } else if h == k && k > 0 {
                                    self.learn(x, l, k - 1, depth + 1)
                                } else {
                                    true
                                };
                                if !ok {
                                    return false;
                                }
                            }
                        }
                        true
                    }
                    Op::Lt | Op::Le if lo == hi => {
                        // a < b, a <= b, or their negations b <= a, b < a
                        let (x, y, strict) = if lo == 1 { (args[0], args[1], op == Op::Lt) } else { (args[1], args[0], op == Op::Le) };
                        let (xr, yr) = (self.range(x), self.range(y));
                        let k = strict as u128;
                        if yr.1 < k {
                            return false;
                        }
                        self.learn(x, xr.0, xr.1.min(yr.1 - k), depth + 1) && self.learn(y, yr.0.max(xr.0 + k), yr.1, depth + 1)
                    }
                    _ => true,
                }
            }
            _ => true,
        }
    }

    /// No recorded fact contradicts what is known of the parts of its term.
    fn consistent(&self, new: TermId) -> bool {
        let whole = |t: TermId| match terms::get(t) {
            Term::Atom { lo, hi, size, .. } if size > 1 && self.byte_facts => {
                let (mut l, mut h) = (0, 0);
                for i in 0..size {
                    let (a, b) = self.facts.get(&from_bytes(&[Byte::T(t, i)])).copied().unwrap_or((0, 255));
                    l |= a << (8 * i as u32);
                    h |= b << (8 * i as u32);
                }
                l.max(lo) <= h.min(hi)
            }
            _ => true,
        };
        let fits = |t: TermId| match self.facts.get(&t) {
            Some((lo, hi)) => {
                let (l, h) = self.known(t);
                l.max(*lo) <= h.min(*hi)
            }
            None => true,
        };
        let parts = match terms::get(new) {
            Term::Cat(b) => b,
            _ => vec![],
        };
        fits(new)
            && whole(new)
            && parts.iter().all(|x| match x {
                Byte::T(t, _) => fits(*t) && whole(*t),
                _ => true,
            })
            && (self.facts.len() > 64 || self.facts.keys().all(|t| fits(*t)))
    }

    pub fn range(&self, t: TermId) -> (u128, u128) {
        let k = self.known(t);
        if let Some(r) = self.facts.get(&t) {
            let (l, h) = (r.0.max(k.0), r.1.min(k.1));
            return if l <= h { (l, h) } else { *r };
        }
        k
    }

    /// What the parts of a term say about its value.
    fn known(&self, t: TermId) -> (u128, u128) {
        match terms::get(t) {
            Term::Const(v, _) => (v, v),
            Term::Atom { lo, hi, size, .. } => {
                if !self.byte_facts {
                    return (lo, hi);
                }
                let (mut l, mut h) = (0, 0);
                for i in 0..size {
                    let (a, b) = self.facts.get(&from_bytes(&[Byte::T(t, i)])).copied().filter(|_| size > 1).unwrap_or((0, 255));
                    l |= a << (8 * i as u32);
                    h |= b << (8 * i as u32);
                }
                let (l, h) = (l.max(lo), h.min(hi));
                if l <= h { (l, h) } else { (lo, hi) }
            }
            Term::Lin { a, c, d } => {
                let (lo, hi) = self.s.range(a, c, d);
                if lo >= 0 && hi < POW64 {
                    (lo as u128, hi as u128)
                } else {
                    (0, mask(8))
                }
            }
            Term::Ptr { .. } => (4096, mask(8)),
            Term::Cat(b) => {
                if let Some(inner) = strip_zext(t) {
                    return self.range(inner);
                }
                let mut lo = 0u128;
                let mut hi = 0u128;
                for (i, x) in b.iter().enumerate() {
                    let (l, h) = match x {
                        Byte::C(c) => (*c, *c),
                        Byte::T(t, i) => {
                            let (l, h) = self.range(*t);
                            let k = 8 * *i as u32;
                            let (a, z) = if (l >> k) >> 8 == (h >> k) >> 8 { ((l >> k) as u8, (h >> k) as u8) } else { (0, 255) };
                            let f = if self.byte_facts && b.len() > 1 { self.facts.get(&from_bytes(&[*x])).copied().unwrap_or((0, 255)) } else { (0, 255) };
                            (a.max(f.0 as u8), z.min(f.1 as u8))
                        }
                        Byte::Uninit => (0, 255),
                    };
                    lo |= (l as u128) << (8 * i);
                    hi |= (h as u128) << (8 * i);
                }
                (lo, hi)
            }
            Term::Op { op, args, size } => match op {
                Op::Eq | Op::Ne | Op::Lt | Op::Le | Op::SLt | Op::SLe => (0, 1),
                Op::Xor => {
                    let (a, b) = (self.range(args[0]), self.range(args[1]));
                    if a.1 <= 1 && b.1 <= 1 {
                        (0, 1)
                    } else {
                        (0, mask(size))
                    }
                }
                Op::And => {
                    let (a, b) = (self.range(args[0]), self.range(args[1]));
                    (0, a.1.min(b.1))
                }
                Op::Rem => {
                    let b = self.range(args[1]);
                    if b.0 > 0 {
                        (0, b.1 - 1)
                    } else {
                        (0, mask(size))
                    }
                }
                Op::Shr => {
                    let a = self.range(args[0]);
                    match as_const(args[1]) {
                        Some(k) if k < 128 => (a.0 >> k, a.1 >> k),
                        _ => (0, a.1),
                    }
                }
                Op::Ctpop | Op::Ctlz | Op::Cttz => {
                    let bits = 8 * size_of(args[0]) as u128;
                    let (lo, hi) = self.range(args[0]);
                    let lz = |v: u128| bits - (128 - v.leading_zeros() as u128).min(bits);
                    match op {
                        Op::Ctlz => (lz(hi), lz(lo)),
                        Op::Ctpop => ((lo > 0) as u128, 128 - hi.leading_zeros() as u128),
                        _ => (0, if lo > 0 { bits - 1 } else { bits }),
                    }
                }
                Op::Or => {
                    let (a, b) = (self.range(args[0]), self.range(args[1]));
                    let m = a.1 | b.1;
                    (a.0.max(b.0), if m == 0 { 0 } else { u128::MAX >> m.leading_zeros() })
                }
                Op::Add => {
                    let (a, b) = (self.range(args[0]), self.range(args[1]));
                    match a.1.checked_add(b.1) {
                        Some(h) if h <= mask(size) => (a.0 + b.0, h),
                        _ => (0, mask(size)),
                    }
                }
                Op::Sub => {
                    let (a, b) = (self.range(args[0]), self.range(args[1]));
                    if a.0 >= b.1 {
                        (a.0 - b.1, a.1 - b.0)
                    } else if a.1 < b.0 && size < 16 {
                        let m = 1u128 << (8 * size as u32);
                        (a.0 + m - b.1, a.1 + m - b.0)
                    } else {
                        (0, mask(size))
                    }
                }
                Op::Shl => {
                    let a = self.range(args[0]);
                    match as_const(args[1]) {
                        Some(k) if k < 8 * size as u128 && a.1 <= mask(size) >> k => (a.0 << k, a.1 << k),
                        _ => (0, mask(size)),
                    }
                }
                Op::Other(c) if ["rotl", "bitreverse"].contains(&op_name(c).as_str()) => ((self.range(args[0]).0 > 0) as u128, mask(size)),
                Op::Mul => {
                    let (a, b) = (self.range(args[0]), self.range(args[1]));
                    match a.1.checked_mul(b.1) {
                        Some(h) if h <= mask(size) => (a.0 * b.0, h),
                        _ => (0, mask(size)),
                    }
                }
                _ => (0, mask(size)),
            },
        }
    }

    /// Replace a term by a constant when the facts determine it.
    pub fn res(&self, t: TermId) -> TermId {
        if as_const(t).is_some() {
            return t;
        }
        match terms::get(t) {
            Term::Ptr { .. } => t,
            Term::Op { .. } | Term::Atom { .. } | Term::Cat(_) => {
                if has_uninit(t) {
                    return t;
                }
                let (lo, hi) = self.range(t);
                if lo == hi {
                    konst(lo, size_of(t))
                } else {
                    t
                }
            }
            Term::Lin { a, c, d } => {
                let (lo, hi) = self.s.range(a, c, d);
                if lo == hi {
                    konst(lo.rem_euclid(POW64) as u128, 8)
                } else {
                    t
                }
            }
            _ => t,
        }
    }

    pub fn res_byte(&self, b: Byte) -> Byte {
        match b {
            Byte::T(t, i) => {
                let r = self.res(t);
                match as_const(r) {
                    Some(v) => Byte::C((v >> (8 * i as u32)) as u8),
                    None => b,
                }
            }
            _ => b,
        }
    }
}

/// `x` if t is x zero-extended
pub fn strip_zext(t: TermId) -> Option<TermId> {
    if let Term::Cat(b) = terms::get(t) {
        let n = b.iter().rposition(|x| *x != Byte::C(0)).map(|p| p + 1).unwrap_or(0);
        if n == 0 || n == b.len() {
            return None;
        }
        for n in n..b.len() {
            let inner = from_bytes(&b[..n]);
            if !matches!(terms::get(inner), Term::Cat(_)) {
                return Some(inner);
            }
        }
    }
    None
}

pub fn zext(t: TermId, size: u8) -> TermId {
    let mut b = bytes_of(t);
    b.truncate(size as usize);
    while b.len() < size as usize {
        b.push(Byte::C(0));
    }
    from_bytes(&b)
}

fn sext_val(v: u128, size: u8) -> i128 {
    let sh = 128 - 8 * size as u32;
    ((v << sh) as i128) >> sh
}

impl Interp {
    pub fn new() -> Self {
        Interp {
            callinfo: HashMap::default(),
            wide: HashMap::default(),
            tyinfo: HashMap::default(),
            bodies: HashMap::default(),
            globals: vec![],
            global_ids: HashMap::default(),
            vtables: HashMap::default(),
            fn_ids: HashMap::default(),
            stats: Stats::default(),
            max_steps: 30_000_000,
            max_paths: 100_000,
            strict: false,
            raw_place: false,
            scalars: HashMap::default(),
        }
    }

    // ---------------------------------------------------------------- what may not happen (strict mode)

    fn scalars_of(&mut self, ty: Ty) -> R<Rc<Vec<(usize, u8, u128, u128, Ty)>>> {
        if let Some(v) = self.scalars.get(&ty) {
            return Ok(v.clone());
        }
        let mut out = vec![];
        let info = self.info(ty)?;
        if let ValueRepr::Scalar(sc) = &info.shape.value_repr {
            if let AbiScalar::Initialized { valid_range, .. } = sc {
                if info.size <= 8 {
                    out.push((0, info.size as u8, valid_range.start, valid_range.end, ty));
                }
            }
        } else {
            match ty.kind() {
                TyKind::RigidTy(RigidTy::Adt(def, args)) if def.kind() == AdtKind::Struct => {
                    for (i, fd) in def.variants()[0].fields().iter().enumerate() {
                        let off = self.field_off(ty, None, i)? as usize;
                        for x in self.scalars_of(fd.ty_with_args(&args))?.iter() {
                            out.push((off + x.0, x.1, x.2, x.3, x.4));
                        }
                    }
                }
                TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                    for (i, t) in ts.iter().enumerate() {
                        let off = self.field_off(ty, None, i)? as usize;
                        for x in self.scalars_of(*t)?.iter() {
                            out.push((off + x.0, x.1, x.2, x.3, x.4));
                        }
                    }
                }
                TyKind::RigidTy(RigidTy::Array(t, c)) => {
                    let n = self.array_len(&c)? as usize;
                    let sz = self.info(t)?.size;
                    let inner = self.scalars_of(t)?;
                    for i in 0..n {
                        for x in inner.iter() {
                            out.push((i * sz + x.0, x.1, x.2, x.3, x.4));
                        }
                    }
                }
                _ => {}
            }
        }
        let v = Rc::new(out);
        self.scalars.insert(ty, v.clone());
        Ok(v)
    }

    /// Are these bytes a value of the type?
    fn valid(&mut self, st: &State, b: &[Byte], ty: Ty) -> R<()> {
        if !self.strict || b.is_empty() || !self.info(ty)?.sized {
            return Ok(());
        }
        if let Some(inner) = Self::flags(ty).pointee.filter(|_| matches!(ty.kind(), TyKind::RigidTy(RigidTy::Ref(..)))) {
            return self.reference(st, b, inner);
        }
        for &(off, n, lo, hi, t) in self.scalars_of(ty)?.iter() {
            let part = &b[off..off + n as usize];
            if part.iter().any(|x| matches!(x, Byte::Uninit)) {
                return stuck(format!("undefined: uninitialised bytes read as {t}"));
            }
            let full = lo == hi.wrapping_add(1) & mask(n) || lo == 0 && hi == mask(n);
            if full {
                continue;
            }
            let v = st.res(from_bytes(part));
            if matches!(terms::get(v), Term::Ptr { .. }) {
                continue;
            }
            let inside = |x: u128| if lo <= hi { lo <= x && x <= hi } else { x >= lo || x <= hi };
            let (l, h) = st.range(v);
            if l == h {
                if !inside(l) {
                    return stuck(format!("undefined: {l} is not a valid {t}"));
                }
            } else if !(lo <= hi && lo <= l && h <= hi || lo > hi && (l >= lo || h <= hi)) {
                if crate::sample::outside(st, v, &inside) {
                    return stuck(format!("undefined: {} is not always a valid {t}", show(v)));
                }
                return stuck(format!("possible: {} may not be a valid {t}", show(v)));
            }
        }
        Ok(())
    }

    /// Does a reference stay within the object it points into?
    fn reference(&mut self, st: &State, b: &[Byte], inner: Ty) -> R<()> {
        if b.iter().any(|x| matches!(x, Byte::Uninit)) {
            return stuck(format!("undefined: uninitialised bytes read as &{inner}"));
        }
        let f = Self::flags(inner);
        let n = match b.len() {
            16 => match (f.slice, f.is_str, as_const(st.res(from_bytes(&b[8..])))) {
                (Some(t), _, Some(k)) => k.saturating_mul(self.info(t)?.size as u128),
                (_, true, Some(k)) => k,
                _ => return Ok(()),
            },
            _ => self.info(inner)?.size as u128,
        };
        let t = st.res(from_bytes(&b[..8]));
        match terms::get(t) {
            Term::Ptr { alloc, off } => match self.get_alloc(st, alloc) {
                Ok(a) if off < 0 || off as u128 + n > a.bytes.len() as u128 => {
                    stuck(format!("undefined: a reference to {n} bytes at offset {off} of a {}-byte object, out-of-bounds", a.bytes.len()))
                }
                _ => Ok(()),
            },
            Term::Const(0, _) => stuck(format!("undefined: null reference to {inner}")),
            Term::Const(v, _) if n > 0 => stuck(format!("undefined: reference to {inner} through address {v:#x}")),
            _ => Ok(()),
        }
    }

    /// May a reference of this alignment point here?
    fn aligned(&mut self, st: &State, a: Addr, ty: Ty) -> R<()> {
        if !self.strict {
            return Ok(());
        }
        let f = Self::flags(ty);
        let al = match (f.slice, f.is_str) {
            (Some(t), _) => self.info(t)?.align,
            (_, true) => 1,
            _ => {
                let i = self.info(ty)?;
                if i.sized { i.align } else { 1 }
            }
        };
        match a {
            Addr::Raw(v) if v == 0 || v % al as u128 != 0 => stuck(format!("undefined: {v} as the address of a {ty}, misaligned")),
            Addr::Mem(id, off) if al > 1 => match self.get_alloc(st, id) {
                Ok(m) if off % al as i64 != 0 || m.align % al != 0 => stuck(format!("undefined: misaligned access to a {ty} at offset {off} of an object of alignment {}", m.align)),
                _ => Ok(()),
            },
            _ => Ok(()),
        }
    }

    // ---------------------------------------------------------------- types

    pub fn info(&mut self, ty: Ty) -> R<Rc<TyInfo>> {
        if let Some(i) = self.tyinfo.get(&ty) {
            return Ok(i.clone());
        }
        let shape = match ty.layout() {
            Ok(l) => l.shape(),
            Err(e) => return stuck(format!("no layout for {ty}: {e:?}")),
        };
        let i = Rc::new(TyInfo {
            size: shape.size.bytes(),
            align: shape.abi_align,
            sized: shape.is_sized(),
            shape,
        });
        self.tyinfo.insert(ty, i.clone());
        Ok(i)
    }

    fn field_off(&mut self, ty: Ty, variant: Option<VariantIdx>, idx: usize) -> R<i64> {
        let info = self.info(ty)?;
        if let (Some(v), VariantsShape::Multiple { variants, .. }) = (variant, &info.shape.variants) {
            return Ok(variants[v.to_index()].offsets[idx].bytes() as i64);
        }
        match &info.shape.fields {
            FieldsShape::Arbitrary { offsets } => Ok(offsets[idx].bytes() as i64),
            FieldsShape::Union(_) => Ok(0),
            FieldsShape::Array { stride, .. } => Ok((stride.bytes() * idx) as i64),
            FieldsShape::Primitive => {
                if idx == 0 {
                    Ok(0)
                } else {
                    stuck("field of primitive")
                }
            }
        }
    }

    fn array_len(&self, c: &TyConst) -> R<u64> {
        c.eval_target_usize().map_err(|e| Int::Stuck(format!("array len: {e:?}")))
    }

    /// Is a pointer to this type wide?  (and is its metadata a length)
    fn tail(&mut self, ty: Ty) -> R<Ty> {
        let mut ty = ty;
        loop {
            match ty.kind() {
                TyKind::RigidTy(RigidTy::Adt(def, args)) if def.kind() == AdtKind::Struct => {
                    if self.info(ty)?.sized {
                        return Ok(ty);
                    }
                    let fields = def.variants()[0].fields();
                    match fields.last() {
                        Some(f) => ty = f.ty_with_args(&args),
                        None => return Ok(ty),
                    }
                }
                _ => return Ok(ty),
            }
        }
    }

    fn flags(ty: Ty) -> TyFlags {
        FLAGS.with(|f| {
            if let Some(x) = f.borrow().get(&ty) {
                return *x;
            }
            let mut x = TyFlags::default();
            match ty.kind() {
                TyKind::RigidTy(RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _)) => {
                    x.pointee = Some(t);
                    x.deref = Some(t);
                }
                TyKind::RigidTy(RigidTy::Int(_)) => x.signed = true,
                TyKind::RigidTy(RigidTy::Float(_)) => x.float = true,
                TyKind::RigidTy(RigidTy::Bool) => x.boolean = true,
                TyKind::RigidTy(RigidTy::Slice(t)) => x.slice = Some(t),
                TyKind::RigidTy(RigidTy::Str) => x.is_str = true,
                TyKind::RigidTy(RigidTy::Adt(def, args)) if def.is_box() => {
                    x.deref = args.0.iter().find_map(|a| match a {
                        GenericArgKind::Type(t) => Some(*t),
                        _ => None,
                    })
                }
                _ => {}
            }
            f.borrow_mut().insert(ty, x);
            x
        })
    }

    fn is_wide(&mut self, pointee: Ty) -> R<bool> {
        if let Some(w) = self.wide.get(&pointee) {
            return Ok(*w);
        }
        let w = self.compute_wide(pointee)?;
        self.wide.insert(pointee, w);
        Ok(w)
    }

    fn compute_wide(&mut self, pointee: Ty) -> R<bool> {
        Ok(match pointee.kind() {
            TyKind::RigidTy(RigidTy::Slice(_) | RigidTy::Str | RigidTy::Dynamic(..)) => true,
            TyKind::RigidTy(RigidTy::Adt(..)) => !self.info(pointee)?.sized,
            _ => false,
        })
    }

    fn pointee(ty: Ty) -> Option<Ty> {
        Self::flags(ty).pointee
    }

    fn is_signed(ty: Ty) -> bool {
        Self::flags(ty).signed
    }
    fn is_float(ty: Ty) -> bool {
        Self::flags(ty).float
    }
    fn is_bool(ty: Ty) -> bool {
        Self::flags(ty).boolean
    }

    // ---------------------------------------------------------------- memory

    fn global_of(&mut self, id: AllocId) -> R<u32> {
        if let Some(&g) = self.global_ids.get(&id) {
            return Ok(g);
        }
        let ga = GlobalAlloc::from(id);
        let g = match &ga {
            GlobalAlloc::Function(inst) => self.fn_alloc(*inst),
            GlobalAlloc::Memory(a) => {
                let idx = self.globals.len() as u32;
                self.globals.push(Global::Mem(Rc::new(Alloc { bytes: vec![], align: a.align })));
                self.global_ids.insert(id, GLOBAL_BASE + idx);
                let bytes = self.alloc_bytes(a)?;
                self.globals[idx as usize] = Global::Mem(Rc::new(Alloc { bytes, align: a.align }));
                GLOBAL_BASE + idx
            }
            GlobalAlloc::Static(d) => {
                let idx = self.globals.len() as u32;
                self.globals.push(Global::Mem(Rc::new(Alloc { bytes: vec![], align: 16 })));
                self.global_ids.insert(id, GLOBAL_BASE + idx);
                match d.eval_initializer() {
                    Ok(a) => {
                        let bytes = self.alloc_bytes(&a)?;
                        self.globals[idx as usize] = Global::Mem(Rc::new(Alloc { bytes, align: a.align }));
                    }
                    Err(_) => {}
                }
                GLOBAL_BASE + idx
            }
            GlobalAlloc::VTable(..) => {
                let vid = ga.vtable_allocation();
                match vid {
                    Some(v) => self.global_of(v)?,
                    None => return stuck("vtable without allocation"),
                }
            }
            GlobalAlloc::TypeId { .. } => {
                let idx = self.globals.len() as u32;
                self.globals.push(Global::Mem(Rc::new(Alloc { bytes: vec![], align: 16 })));
                GLOBAL_BASE + idx
            }
        };
        self.global_ids.insert(id, g);
        Ok(g)
    }

    fn fn_alloc(&mut self, inst: Instance) -> u32 {
        if let Some(&g) = self.fn_ids.get(&inst) {
            return g;
        }
        let idx = self.globals.len() as u32;
        self.globals.push(Global::Fn(inst));
        self.fn_ids.insert(inst, GLOBAL_BASE + idx);
        GLOBAL_BASE + idx
    }

    fn alloc_bytes(&mut self, a: &Allocation) -> R<Vec<Byte>> {
        let mut out: Vec<Byte> = a
            .bytes
            .iter()
            .map(|b| match b {
                Some(v) => Byte::C(*v),
                None => Byte::Uninit,
            })
            .collect();
        for (off, prov) in &a.provenance.ptrs {
            let mut v = 0u64;
            for i in 0..8 {
                v |= (a.bytes[off + i].unwrap_or(0) as u64) << (8 * i);
            }
            let g = self.global_of(prov.0)?;
            let p = bytes_of(ptr(g, v as i64));
            out[*off..off + 8].copy_from_slice(&p);
        }
        Ok(out)
    }

    pub fn get_alloc(&self, st: &State, id: u32) -> R<Rc<Alloc>> {
        if let Some(a) = st.mem.get(&id) {
            return Ok(a.clone());
        }
        if id >= GLOBAL_BASE {
            if let Some(Global::Mem(m)) = self.globals.get((id - GLOBAL_BASE) as usize) {
                return Ok(m.clone());
            }
        }
        stuck(format!("access to dead or non-memory allocation m{id}"))
    }

    pub fn load(&self, st: &State, addr: Addr, n: usize) -> R<Vec<Byte>> {
        if n == 0 {
            return Ok(vec![]);
        }
        match addr {
            Addr::Raw(v) => stuck(format!("read through address {v:#x}")),
            Addr::Mem(id, off) => {
                let a = self.get_alloc(st, id)?;
                if off < 0 || off as usize + n > a.bytes.len() {
                    return stuck(format!(
                        "out-of-bounds read of {n} bytes at offset {off} of a {}-byte object",
                        a.bytes.len()
                    ));
                }
                Ok(a.bytes[off as usize..off as usize + n].to_vec())
            }
        }
    }

    pub fn store(&self, st: &mut State, addr: Addr, b: &[Byte]) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        match addr {
            Addr::Raw(v) => stuck(format!("write through address {v:#x}")),
            Addr::Mem(id, off) => {
                if !st.mem.contains_key(&id) {
                    let a = self.get_alloc(st, id)?;
                    st.mem.insert(id, a);
                }
                let a = Rc::make_mut(st.mem.get_mut(&id).unwrap());
                if off < 0 || off as usize + b.len() > a.bytes.len() {
                    return stuck(format!(
                        "out-of-bounds write of {} bytes at offset {off} of a {}-byte object",
                        b.len(),
                        a.bytes.len()
                    ));
                }
                a.bytes[off as usize..off as usize + b.len()].copy_from_slice(b);
                Ok(())
            }
        }
    }

    pub fn addr_of_term(&self, t: TermId) -> R<Addr> {
        match terms::get(t) {
            Term::Ptr { alloc, off } => Ok(Addr::Mem(alloc, off)),
            Term::Const(v, _) => Ok(Addr::Raw(v)),
            _ => stuck(format!("pointer value is unknown: {}", show(t))),
        }
    }

    fn term_of_addr(a: Addr) -> TermId {
        match a {
            Addr::Mem(id, off) => ptr(id, off),
            Addr::Raw(v) => konst(v, 8),
        }
    }

    fn add_addr(a: Addr, d: i64) -> Addr {
        match a {
            Addr::Mem(id, off) => Addr::Mem(id, off.wrapping_add(d)),
            Addr::Raw(v) => Addr::Raw(((v as u64).wrapping_add(d as u64)) as u128),
        }
    }

    // ---------------------------------------------------------------- places and operands

    fn place(&mut self, st: &State, p: &Place) -> R<Pl> {
        let fr = st.frames.last().unwrap();
        let mut pl = Pl {
            addr: Addr::Mem(fr.locals[p.local], 0),
            ty: fr.f.local_tys[p.local],
            meta: None,
            variant: None,
        };
        for e in &p.projection {
            pl = match e {
                ProjectionElem::Deref => {
                    let inner = Self::flags(pl.ty).deref;
                    let Some(inner) = inner else { return stuck(format!("deref of {}", pl.ty)) };
                    let wide = self.is_wide(inner)?;
                    let b = self.load(st, pl.addr, if wide { 16 } else { 8 })?;
                    let t = st.res(from_bytes(&b[..8]));
                    let addr = self.addr_of_term(t)?;
                    if self.strict && !self.raw_place {
                        self.aligned(st, addr, inner)?;
                    }
                    let meta = if wide { Some(st.res(from_bytes(&b[8..]))) } else { None };
                    Pl { addr, ty: inner, meta, variant: None }
                }
                ProjectionElem::Field(idx, fty) => {
                    let off = self.field_off(pl.ty, pl.variant, *idx)?;
                    Pl { addr: Self::add_addr(pl.addr, off), ty: *fty, meta: pl.meta, variant: None }
                }
                ProjectionElem::Index(l) => {
                    let b = self.load(st, Addr::Mem(fr.locals[*l], 0), 8)?;
                    let i = st.res(from_bytes(&b));
                    let Some(i) = as_const(i) else { return stuck(format!("index unknown: {}", show(i))) };
                    self.index(pl, i as u64)?
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let i = if *from_end { self.seq_len(&pl)? - offset } else { *offset };
                    self.index(pl, i)?
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let n = self.seq_len(&pl)?;
                    let end = if *from_end { n - to } else { *to };
                    let ety = self.elem_ty(pl.ty)?;
                    let sz = self.info(ety)?.size as i64;
                    let is_slice = matches!(pl.ty.kind(), TyKind::RigidTy(RigidTy::Slice(_)));
                    let ty = if is_slice {
                        pl.ty
                    } else {
                        Ty::try_new_array(ety, end - from).map_err(|e| Int::Stuck(format!("{e:?}")))?
                    };
                    Pl {
                        addr: Self::add_addr(pl.addr, sz * *from as i64),
                        ty,
                        meta: if is_slice { Some(konst((end - from) as u128, 8)) } else { None },
                        variant: None,
                    }
                }
                ProjectionElem::Downcast(v) => Pl { variant: Some(*v), ..pl },
                ProjectionElem::OpaqueCast(t) => Pl { ty: *t, ..pl },
            };
        }
        Ok(pl)
    }

    fn elem_ty(&self, ty: Ty) -> R<Ty> {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Array(t, _) | RigidTy::Slice(t)) => Ok(t),
            _ => stuck(format!("indexing into {ty}")),
        }
    }

    fn seq_len(&self, pl: &Pl) -> R<u64> {
        match pl.ty.kind() {
            TyKind::RigidTy(RigidTy::Array(_, c)) => self.array_len(&c),
            TyKind::RigidTy(RigidTy::Slice(_) | RigidTy::Str) => match pl.meta.and_then(as_const) {
                Some(v) => Ok(v as u64),
                None => stuck("slice length unknown"),
            },
            _ => stuck("length of non-sequence"),
        }
    }

    fn index(&mut self, pl: Pl, i: u64) -> R<Pl> {
        let ety = self.elem_ty(pl.ty)?;
        let n = self.seq_len(&pl)?;
        if i >= n {
            return stuck("index out of bounds");
        }
        let sz = self.info(ety)?.size as i64;
        Ok(Pl { addr: Self::add_addr(pl.addr, sz * i as i64), ty: ety, meta: None, variant: None })
    }

    fn pl_size(&mut self, pl: &Pl) -> R<usize> {
        let f = Self::flags(pl.ty);
        if let Some(t) = f.slice {
            let n = self.seq_len(pl)? as usize;
            Ok(n * self.info(t)?.size)
        } else if f.is_str {
            Ok(self.seq_len(pl)? as usize)
        } else {
            Ok(self.info(pl.ty)?.size)
        }
    }

    fn read_place(&mut self, st: &State, p: &Place) -> R<(Vec<Byte>, Ty)> {
        let pl = self.place(st, p)?;
        let n = self.pl_size(&pl)?;
        let b = self.load(st, pl.addr, n)?;
        self.valid(st, &b, pl.ty)?;
        Ok((b, pl.ty))
    }

    fn eval_const(&mut self, c: &MirConst) -> R<Vec<Byte>> {
        match c.kind() {
            ConstantKind::Allocated(a) => self.alloc_bytes(a),
            ConstantKind::ZeroSized => Ok(vec![]),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => self.alloc_bytes(a),
                TyConstKind::ZSTValue(_) => Ok(vec![]),
                k => stuck(format!("const {k:?}")),
            },
            k => stuck(format!("const {k:?}")),
        }
    }

    fn operand(&mut self, st: &State, o: &Operand) -> R<(Vec<Byte>, Ty)> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => self.read_place(st, p),
            Operand::Constant(c) => {
                let b = self.eval_const(&c.const_)?;
                Ok((b, c.const_.ty()))
            }
            Operand::RuntimeChecks(rc) => {
                // UB and contract checks off (they do not exist in release std);
                // overflow checks on, so that a possible overflow is seen as a panic.
                let v = matches!(rc, RuntimeChecks::OverflowChecks) || self.strict && matches!(rc, RuntimeChecks::UbChecks);
                Ok((vec![Byte::C(v as u8)], Ty::bool_ty()))
            }
        }
    }

    fn scalar(&mut self, st: &State, o: &Operand) -> R<(TermId, Ty)> {
        let (b, ty) = self.operand(st, o)?;
        if b.is_empty() || b.len() > 16 {
            return stuck(format!("scalar operand of type {ty}"));
        }
        let t = st.res(from_bytes(&b));
        Ok((t, ty))
    }

    // ---------------------------------------------------------------- arithmetic

    fn lin_of(t: TermId) -> Option<(i128, i128, i128)> {
        match terms::get(t) {
            Term::Lin { a, c, d } => Some((a, c, d)),
            Term::Const(v, 8) => Some((0, v as i128, 1)),
            _ => None,
        }
    }

    fn is_lin(t: TermId) -> bool {
        matches!(terms::get(t), Term::Lin { .. })
    }

    /// Canonical representative: value within [0, 2^64).
    fn canon(&self, st: &State, l: (i128, i128, i128)) -> R<(i128, i128, i128)> {
        let (a, c, d) = l;
        if a == 0 {
            return Ok((0, (c / d).rem_euclid(POW64), 1));
        }
        let (lo, hi) = st.s.range(a, c, d);
        let (kl, kh) = (div_floor(lo, POW64), div_floor(hi, POW64));
        if kl == kh {
            return Ok((a, c - kl * POW64 * d, d));
        }
        self.split_at_value(st, l, (kl + 1) * POW64)
    }

    /// Split S so that (aS+c)/d < v resp. >= v.
    fn split_at_value<T>(&self, st: &State, l: (i128, i128, i128), v: i128) -> R<T> {
        let (a, c, d) = l;
        // aS + c >= v*d
        let (x, y) = if a > 0 {
            let th = div_ceil(v * d - c, a);
            (Refine::SRange(st.s.lo, th - 1), Refine::SRange(th, st.s.hi))
        } else {
            // S <= (c - v*d)/(-a)
            let th = div_floor(c - v * d, -a);
            (Refine::SRange(st.s.lo, th), Refine::SRange(th + 1, st.s.hi))
        };
        Err(Int::Split(vec![x, y]))
    }

    /// (aS+c)/d mod m, splitting S into residue classes if needed.
    fn lin_mod(&self, st: &State, l: (i128, i128, i128), m: i128) -> R<i128> {
        let (a, c, d) = l;
        if a == 0 {
            return Ok((c / d).rem_euclid(m));
        }
        let md = m * d;
        if (a * st.s.m) % md == 0 {
            let num = a * st.s.r + c;
            return Ok(div_floor(num.rem_euclid(md), d) % m);
        }
        let need = md / gcd(a, md);
        let nm = st.s.m / gcd(st.s.m, need) * need;
        if nm > 1 << 14 {
            return stuck(format!("modulus {m} too fine for the offset domain"));
        }
        let mut v = vec![];
        let mut r = st.s.r;
        while r < nm {
            v.push(Refine::SMod(nm, r));
            r += st.s.m;
        }
        Err(Int::Split(v))
    }

    fn lin_add(x: (i128, i128, i128), y: (i128, i128, i128), sign: i128) -> (i128, i128, i128) {
        let d = x.2 / gcd(x.2, y.2) * y.2;
        let (fx, fy) = (d / x.2, d / y.2);
        (x.0 * fx + sign * y.0 * fy, x.1 * fx + sign * y.1 * fy, d)
    }

    fn mk_lin(l: (i128, i128, i128)) -> TermId {
        if l.0 == 0 {
            konst((l.1 / l.2).rem_euclid(POW64) as u128, 8)
        } else {
            lin(l.0, l.1, l.2)
        }
    }

    /// Wrapping binary arithmetic on values of `size` bytes.
    pub fn arith(&mut self, st: &State, op: BinOp, a: TermId, b: TermId, size: u8, signed: bool) -> R<TermId> {
        use BinOp::*;
        let (a, b) = (st.res(a), st.res(b));
        if has_uninit(a) || has_uninit(b) {
            return stuck("arithmetic on uninitialised bytes");
        }
        let m = mask(size);
        let bits = 8 * size as u32;
        if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
            let (sx, sy) = (sext_val(x, size), sext_val(y, size));
            let v = match op {
                Add | AddUnchecked => x.wrapping_add(y),
                Sub | SubUnchecked => x.wrapping_sub(y),
                Mul | MulUnchecked => x.wrapping_mul(y),
                Div => {
                    if y == 0 {
                        return Err(Int::Panic("division by zero".into()));
                    }
                    if signed {
                        sx.wrapping_div(sy) as u128
                    } else {
                        x / y
                    }
                }
                Rem => {
                    if y == 0 {
                        return Err(Int::Panic("remainder by zero".into()));
                    }
                    if signed {
                        sx.wrapping_rem(sy) as u128
                    } else {
                        x % y
                    }
                }
                BitXor => x ^ y,
                BitAnd => x & y,
                BitOr => x | y,
                Shl | ShlUnchecked => x << ((y as u32) % bits),
                Shr | ShrUnchecked => {
                    let k = (y as u32) % bits;
                    if signed {
                        (sx >> k) as u128
                    } else {
                        x >> k
                    }
                }
                _ => return stuck("arith op"),
            };
            return Ok(konst(v & m, size));
        }
        // pointers
        if let Some(t) = self.ptr_arith(st, op, a, b)? {
            return Ok(t);
        }
        // S-terms
        if (Self::is_lin(a) || Self::is_lin(b)) && size == 8 {
            if let Some(t) = self.lin_arith(st, op, a, b, signed)? {
                return Ok(t);
            }
        }
        let (ca, cb) = (as_const(a), as_const(b));
        // identities
        match op {
            Add | AddUnchecked | BitOr | BitXor => {
                if cb == Some(0) {
                    return Ok(a);
                }
                if ca == Some(0) {
                    return Ok(b);
                }
            }
            Sub | SubUnchecked if cb == Some(0) => return Ok(a),
            Mul | MulUnchecked => {
                if cb == Some(1) {
                    return Ok(a);
                }
                if ca == Some(1) {
                    return Ok(b);
                }
                if ca == Some(0) || cb == Some(0) {
                    return Ok(konst(0, size));
                }
            }
            BitAnd => {
                if ca == Some(0) || cb == Some(0) {
                    return Ok(konst(0, size));
                }
                if a == b {
                    return Ok(a);
                }
                // x & 1 with x in {0,1}
                if let Some(k) = cb {
                    let (_, hi) = st.range(a);
                    if (k & (k + 1)) == 0 && hi <= k {
                        return Ok(a);
                    }
                }
            }
            Shl | ShlUnchecked | Shr | ShrUnchecked if cb == Some(0) => return Ok(a),
            Div if cb == Some(1) => return Ok(a),
            _ => {}
        }
        if op == BitXor && a == b {
            return Ok(konst(0, size));
        }
        // byte-level recombination
        let (ba, bb) = (bytes_of(a), bytes_of(b));
        match op {
            BitAnd if cb.is_some() && bb.iter().all(|x| matches!(x, Byte::C(0) | Byte::C(255))) => {
                let v: Vec<Byte> = ba
                    .iter()
                    .zip(&bb)
                    .map(|(x, y)| if *y == Byte::C(255) { *x } else { Byte::C(0) })
                    .collect();
                return Ok(from_bytes(&v));
            }
            BitOr | BitXor | Add | AddUnchecked
                if ba.len() == bb.len()
                    && ba.iter().zip(&bb).all(|(x, y)| *x == Byte::C(0) || *y == Byte::C(0)) =>
            {
                let v: Vec<Byte> =
                    ba.iter().zip(&bb).map(|(x, y)| if *x == Byte::C(0) { *y } else { *x }).collect();
                return Ok(from_bytes(&v));
            }
            Shl | ShlUnchecked | Shr | ShrUnchecked if cb.is_some_and(|k| k % 8 == 0) && !(signed && matches!(op, Shr | ShrUnchecked)) => {
                let k = ((cb.unwrap() as u32 % bits) / 8) as usize;
                let n = ba.len();
                let mut v = vec![Byte::C(0); n];
                for i in 0..n {
                    if matches!(op, Shl | ShlUnchecked) {
                        if i >= k {
                            v[i] = ba[i - k];
                        }
                    } else if i + k < n {
                        v[i] = ba[i + k];
                    }
                }
                return Ok(from_bytes(&v));
            }
            _ => {}
        }
        let o = match op {
            Add | AddUnchecked => Op::Add,
            Sub | SubUnchecked => Op::Sub,
            Mul | MulUnchecked => Op::Mul,
            Div => {
                if signed {
                    Op::SDiv
                } else {
                    Op::Div
                }
            }
            Rem => {
                if signed {
                    Op::SRem
                } else {
                    Op::Rem
                }
            }
            BitXor => Op::Xor,
            BitAnd => Op::And,
            BitOr => Op::Or,
            Shl | ShlUnchecked => Op::Shl,
            Shr | ShrUnchecked => {
                if signed {
                    Op::Sar
                } else {
                    Op::Shr
                }
            }
            _ => return stuck("arith op"),
        };
        if matches!(o, Op::Div | Op::Rem | Op::SDiv | Op::SRem) && st.range(b).0 == 0 {
            return stuck("division by possibly-zero unknown");
        }
        Ok(mk_op(o, vec![a, b], size))
    }

    fn ptr_arith(&mut self, st: &State, op: BinOp, a: TermId, b: TermId) -> R<Option<TermId>> {
        use BinOp::*;
        match (terms::get(a), terms::get(b)) {
            (Term::Ptr { alloc: x, off: i }, Term::Ptr { alloc: y, off: j }) => match op {
                Sub | SubUnchecked if x == y => Ok(Some(konst((i - j) as u64 as u128, 8))),
                _ => Ok(None),
            },
            (Term::Ptr { alloc, off }, Term::Const(k, _)) => match op {
                Add | AddUnchecked => Ok(Some(ptr(alloc, off.wrapping_add(k as u64 as i64)))),
                Sub | SubUnchecked => Ok(Some(ptr(alloc, off.wrapping_sub(k as u64 as i64)))),
                BitAnd => {
                    let al = self.get_alloc(st, alloc).map(|a| a.align).unwrap_or(1) as u128;
                    if k < al {
                        return Ok(Some(konst(off as u64 as u128 & k, 8)));
                    }
                    // !(2^k-1)
                    let low = !k & mask(8);
                    if low & (low + 1) == 0 && low < al {
                        return Ok(Some(ptr(alloc, (off as u64 & k as u64) as i64)));
                    }
                    Ok(None)
                }
                BitOr | BitXor => {
                    let al = self.get_alloc(st, alloc).map(|a| a.align).unwrap_or(1) as u128;
                    if k < al {
                        let low = off as u64 & (al as u64 - 1);
                        let nl = if op == BitOr { low | k as u64 } else { low ^ k as u64 };
                        return Ok(Some(ptr(alloc, (off as u64 - low + nl) as i64)));
                    }
                    Ok(None)
                }
                Rem => {
                    let al = self.get_alloc(st, alloc).map(|a| a.align).unwrap_or(1) as u128;
                    if k > 0 && al % k == 0 {
                        return Ok(Some(konst((off as i128).rem_euclid(k as i128) as u128, 8)));
                    }
                    Ok(None)
                }
                _ => Ok(None),
            },
            (Term::Const(..), Term::Ptr { alloc, off }) if matches!(op, Add | AddUnchecked) => {
                let k = as_const(a).unwrap();
                Ok(Some(ptr(alloc, off.wrapping_add(k as u64 as i64))))
            }
            _ => Ok(None),
        }
    }

    fn lin_arith(&mut self, st: &State, op: BinOp, a: TermId, b: TermId, _signed: bool) -> R<Option<TermId>> {
        use BinOp::*;
        let (Some(la), Some(lb)) = (Self::lin_of(a), Self::lin_of(b)) else { return Ok(None) };
        let k = if lb.0 == 0 { Some(lb.1) } else { None };
        Ok(Some(match op {
            Add | AddUnchecked => Self::mk_lin(Self::lin_add(la, lb, 1)),
            Sub | SubUnchecked => Self::mk_lin(Self::lin_add(la, lb, -1)),
            Mul | MulUnchecked => {
                let (l, k) = if la.0 == 0 {
                    (lb, la.1)
                } else if let Some(k) = k {
                    (la, k)
                } else {
                    return Ok(None);
                };
                // reduce the factor to a small signed representative
                let k = if k >= POW64 / 2 { k - POW64 } else { k };
                if k.abs() > 1 << 40 {
                    return Ok(None);
                }
                Self::mk_lin((l.0 * k, l.1 * k, l.2))
            }
            Div | Shr | ShrUnchecked => {
                let Some(k) = k else { return Ok(None) };
                let k = if op == Div { k } else { 1i128 << (k % 64) };
                if k == 0 {
                    return Err(Int::Panic("division by zero".into()));
                }
                let l = self.canon(st, la)?;
                let (_, hi) = st.s.range(l.0, l.1, l.2);
                if hi < k {
                    return Ok(Some(konst(0, 8)));
                }
                let r = self.lin_mod(st, l, k)?;
                Self::mk_lin((l.0, l.1 - r * l.2, l.2 * k))
            }
            Rem => {
                let Some(k) = k else { return Ok(None) };
                if k == 0 {
                    return Err(Int::Panic("remainder by zero".into()));
                }
                let l = self.canon(st, la)?;
                let (_, hi) = st.s.range(l.0, l.1, l.2);
                if hi < k {
                    return Ok(Some(Self::mk_lin(l)));
                }
                konst(self.lin_mod(st, l, k)? as u128, 8)
            }
            Shl | ShlUnchecked => {
                let Some(k) = k else { return Ok(None) };
                let f = 1i128 << (k % 64);
                if f > 1 << 20 {
                    return Ok(None);
                }
                Self::mk_lin((la.0 * f, la.1 * f, la.2))
            }
            BitAnd => {
                let (l, k) = if la.0 == 0 {
                    (lb, la.1)
                } else if let Some(k) = k {
                    (la, k)
                } else {
                    return Ok(None);
                };
                let k = k.rem_euclid(POW64);
                if k & (k + 1) == 0 {
                    let (lo, hi) = st.s.range(l.0, l.1, l.2);
                    if lo >= 0 && hi <= k {
                        return Ok(Some(Self::mk_lin(l)));
                    }
                    return Ok(Some(konst(self.lin_mod(st, l, k + 1)? as u128, 8)));
                }
                let low = (!(k as u64)) as i128;
                if low & (low + 1) == 0 {
                    let r = self.lin_mod(st, l, low + 1)?;
                    return Ok(Some(Self::mk_lin((l.0, l.1 - r * l.2, l.2))));
                }
                if k < 1 << 12 {
                    let m = (k as u64).next_power_of_two() as i128 * 2;
                    let r = self.lin_mod(st, l, m)?;
                    return Ok(Some(konst((r & k) as u128, 8)));
                }
                return Ok(None);
            }
            BitOr | BitXor => {
                let (l, k) = if la.0 == 0 {
                    (lb, la.1)
                } else if let Some(k) = k {
                    (la, k)
                } else {
                    return Ok(None);
                };
                let k = k.rem_euclid(POW64);
                if op == BitXor && k == POW64 - 1 {
                    return Ok(Some(Self::mk_lin((-l.0, -l.1 - l.2, l.2))));
                }
                if k >= 1 << 12 {
                    return Ok(None);
                }
                let m = ((k + 1) as u64).next_power_of_two() as i128;
                let r = self.lin_mod(st, l, m)?;
                let n = if op == BitOr { r | k } else { r ^ k };
                Self::mk_lin((l.0, l.1 + (n - r) * l.2, l.2))
            }
            _ => return Ok(None),
        }))
    }

    fn fact_target(t: TermId) -> TermId {
        strip_zext(t).unwrap_or(t)
    }

    /// Comparison; result is a 1-byte boolean term (or a split).
    pub fn compare(&mut self, st: &State, op: BinOp, a: TermId, b: TermId, signed: bool) -> R<TermId> {
        use BinOp::*;
        let tb = |v: bool| konst(v as u128, 1);
        let (a, b) = (st.res(a), st.res(b));
        if has_uninit(a) || has_uninit(b) {
            return stuck("comparison of uninitialised bytes");
        }
        match op {
            Gt => return self.compare(st, Lt, b, a, signed),
            Ge => return self.compare(st, Le, b, a, signed),
            Ne => {
                let e = self.compare(st, Eq, a, b, signed)?;
                return Ok(self.bool_not(e));
            }
            _ => {}
        }
        let size = size_of(a);
        if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
            return Ok(tb(match op {
                Eq => x == y,
                Lt => {
                    if signed {
                        sext_val(x, size) < sext_val(y, size)
                    } else {
                        x < y
                    }
                }
                Le => {
                    if signed {
                        sext_val(x, size) <= sext_val(y, size)
                    } else {
                        x <= y
                    }
                }
                _ => return stuck("compare op"),
            }));
        }
        if a == b {
            return Ok(tb(matches!(op, Eq | Le)));
        }
        // pointers
        match (terms::get(a), terms::get(b)) {
            (Term::Ptr { alloc: x, off: i }, Term::Ptr { alloc: y, off: j }) => {
                if x == y {
                    return Ok(tb(match op {
                        Eq => i == j,
                        Lt => i < j,
                        _ => i <= j,
                    }));
                }
                if op == Eq {
                    return Ok(tb(false));
                }
                return stuck("ordering of unrelated pointers");
            }
            (Term::Ptr { .. }, Term::Const(k, _)) if k < 4096 || k > (1 << 62) => {
                return Ok(tb(match op {
                    Eq => false,
                    _ => k > (1 << 62),
                }))
            }
            (Term::Const(k, _), Term::Ptr { .. }) if k < 4096 || k > (1 << 62) => {
                return Ok(tb(match op {
                    Eq => false,
                    _ => k < 4096,
                }))
            }
            _ => {}
        }
        // S-terms
        if Self::is_lin(a) || Self::is_lin(b) {
            if let (Some(la), Some(lb)) = (Self::lin_of(a), Self::lin_of(b)) {
                let mut la = self.canon(st, la)?;
                let mut lb = self.canon(st, lb)?;
                if signed {
                    for l in [&mut la, &mut lb] {
                        let (lo, hi) = st.s.range(l.0, l.1, l.2);
                        if lo >= POW64 / 2 {
                            l.1 -= POW64 * l.2;
                        } else if hi >= POW64 / 2 {
                            return self.split_at_value(st, *l, POW64 / 2);
                        }
                    }
                }
                let df = Self::lin_add(la, lb, -1);
                if df.0 == 0 {
                    let v = df.1;
                    return Ok(tb(match op {
                        Eq => v == 0,
                        Lt => v < 0,
                        _ => v <= 0,
                    }));
                }
                let (lo, hi) = st.s.range(df.0, df.1, df.2);
                match op {
                    Eq => {
                        if lo > 0 || hi < 0 {
                            return Ok(tb(false));
                        }
                        if lo == 0 && hi == 0 {
                            return Ok(tb(true));
                        }
                        // the single solution S0 = -c/a
                        if df.1 % df.0 != 0 {
                            return Ok(tb(false));
                        }
                        let s0 = -df.1 / df.0;
                        if s0 < st.s.lo || s0 > st.s.hi || (s0 - st.s.r).rem_euclid(st.s.m) != 0 {
                            return Ok(tb(false));
                        }
                        return Err(Int::Split(vec![
                            Refine::SRange(st.s.lo, s0 - 1),
                            Refine::SRange(s0, s0),
                            Refine::SRange(s0 + 1, st.s.hi),
                        ]));
                    }
                    Lt => {
                        if hi < 0 {
                            return Ok(tb(true));
                        }
                        if lo >= 0 {
                            return Ok(tb(false));
                        }
                        return self.split_at_value(st, df, 0);
                    }
                    _ => {
                        if hi <= 0 {
                            return Ok(tb(true));
                        }
                        if lo > 0 {
                            return Ok(tb(false));
                        }
                        return self.split_at_value(st, df, 1);
                    }
                }
            }
        }
        // intervals
        let (al, ah) = st.range(a);
        let (bl, bh) = st.range(b);
        if op == Eq {
            if ah < bl || bh < al {
                return Ok(tb(false));
            }
            // {0,1}-valued against a constant
            for (x, y) in [(a, b), (b, a)] {
                if let Some(k) = as_const(y) {
                    if st.range(x).1 <= 1 {
                        let x1 = st.res(from_bytes(&bytes_of(x)[..1]));
                        return Ok(if k == 1 { x1 } else { self.bool_not(x1) });
                    }
                }
            }
        }
        let half = 1u128 << (8 * size as u32 - 1);
        if signed && op != Eq {
            // only decide when neither interval straddles the sign boundary
            for (x, (l, h)) in [(a, (al, ah)), (b, (bl, bh))] {
                if l < half && h >= half && as_const(x).is_none() && (as_const(a).is_some() || as_const(b).is_some()) {
                    let t = Self::fact_target(x);
                    return Err(Int::Split(vec![Refine::Fact(t, l, half - 1), Refine::Fact(t, half, h)]));
                }
            }
            let f = |v: u128| v ^ half;
            if (al >= half) == (ah >= half) && (bl >= half) == (bh >= half) {
                let (al, ah, bl, bh) = (f(al), f(ah), f(bl), f(bh));
                match op {
                    Lt => {
                        if ah < bl {
                            return Ok(tb(true));
                        }
                        if al >= bh {
                            return Ok(tb(false));
                        }
                    }
                    _ => {
                        if ah <= bl {
                            return Ok(tb(true));
                        }
                        if al > bh {
                            return Ok(tb(false));
                        }
                    }
                }
            }
        } else if op == Lt {
            if ah < bl {
                return Ok(tb(true));
            }
            if al >= bh {
                return Ok(tb(false));
            }
        } else if op == Le {
            if ah <= bl {
                return Ok(tb(true));
            }
            if al > bh {
                return Ok(tb(false));
            }
        }
        // split an unknown against a constant
        for (x, k, flip) in [(a, as_const(b), false), (b, as_const(a), true)] {
            let Some(k) = k else { continue };
            let t = Self::fact_target(x);
            let (l, h) = st.range(t);
            // cut points: values < cut | >= cut
            let mut cuts: Vec<u128> = vec![];
            match (op, flip) {
                (Eq, _) => {
                    cuts.push(k);
                    cuts.push(k + 1);
                }
                (Lt, false) | (Le, true) => cuts.push(k), // x < k   |  k <= x
                (Le, false) | (Lt, true) => cuts.push(k + 1), // x <= k  |  k < x
                _ => {}
            }
            let mut out = vec![];
            let mut cur = l;
            for c in cuts {
                if c > cur && c <= h {
                    out.push(Refine::Fact(t, cur, c - 1));
                    cur = c;
                }
            }
            out.push(Refine::Fact(t, cur, h));
            if out.len() > 1 {
                return Err(Int::Split(out));
            }
        }
        let o = match (op, signed) {
            (Eq, _) => Op::Eq,
            (Lt, false) => Op::Lt,
            (Lt, true) => Op::SLt,
            (Le, false) => Op::Le,
            _ => Op::SLe,
        };
        let args = if o == Op::Eq && b < a { vec![b, a] } else { vec![a, b] };
        Ok(st.res(mk_op(o, args, 1)))
    }

    pub fn bool_not(&self, t: TermId) -> TermId {
        match terms::get(t) {
            Term::Const(v, _) => konst((v == 0) as u128, 1),
            Term::Op { op: Op::Xor, args, size: 1 } if as_const(args[1]) == Some(1) => args[0],
            _ => mk_op(Op::Xor, vec![t, konst(1, 1)], 1),
        }
    }

    /// (wrapped result, overflow flag)
    fn checked(&mut self, st: &State, op: BinOp, a: TermId, b: TermId, size: u8, signed: bool) -> R<(TermId, TermId)> {
        use BinOp::*;
        let (a, b) = (st.res(a), st.res(b));
        let tb = |v: bool| konst(v as u128, 1);
        if matches!(op, Shl | Shr | ShlUnchecked | ShrUnchecked) {
            let r = self.arith(st, op, a, b, size, signed)?;
            let w = konst(8 * size as u128, size_of(b));
            let o = self.compare(st, Le, w, b, false)?;
            return Ok((r, o));
        }
        let m = mask(size);
        let (lo_ok, hi_ok): (i128, i128) = if signed {
            (-(1i128 << (8 * size as u32 - 1)), (1i128 << (8 * size as u32 - 1)) - 1)
        } else {
            (0, if size >= 16 { i128::MAX } else { m as i128 })
        };
        if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
            let (x, y) = if signed { (sext_val(x, size), sext_val(y, size)) } else { (x as i128, y as i128) };
            let v = match op {
                Add => x.checked_add(y),
                Sub => x.checked_sub(y),
                Mul => x.checked_mul(y),
                _ => return stuck("checked op"),
            };
            let ovf = match v {
                Some(v) => v < lo_ok || v > hi_ok,
                None => true,
            };
            let r = self.arith(st, op, a, b, size, signed)?;
            return Ok((r, tb(ovf)));
        }
        if size == 8 && (Self::is_lin(a) || Self::is_lin(b)) {
            if let (Some(la), Some(lb)) = (Self::lin_of(a), Self::lin_of(b)) {
                let la = self.canon(st, la)?;
                let lb = self.canon(st, lb)?;
                let l = match op {
                    Add => Some(Self::lin_add(la, lb, 1)),
                    Sub => Some(Self::lin_add(la, lb, -1)),
                    Mul if la.0 == 0 && la.1 < 1 << 40 => Some((lb.0 * la.1, lb.1 * la.1, lb.2)),
                    Mul if lb.0 == 0 && lb.1 < 1 << 40 => Some((la.0 * lb.1, la.1 * lb.1, la.2)),
                    _ => None,
                };
                if let Some(l) = l {
                    let (lo, hi) = if l.0 == 0 { (l.1 / l.2, l.1 / l.2) } else { st.s.range(l.0, l.1, l.2) };
                    let r = Self::mk_lin(l);
                    if lo >= lo_ok && hi <= hi_ok {
                        return Ok((r, tb(false)));
                    }
                    if hi < lo_ok || lo > hi_ok {
                        return Ok((r, tb(true)));
                    }
                    let v = if lo < lo_ok { lo_ok } else { hi_ok + 1 };
                    return self.split_at_value(st, l, v);
                }
            }
        }
        let r = self.arith(st, op, a, b, size, signed)?;
        if !signed {
            let (al, ah) = st.range(a);
            let (bl, bh) = st.range(b);
            match op {
                Add if ah.checked_add(bh).is_some_and(|v| v <= m) => return Ok((r, tb(false))),
                Sub if al >= bh => return Ok((r, tb(false))),
                Sub if ah < bl => return Ok((r, tb(true))),
                Mul if ah.checked_mul(bh).is_some_and(|v| v <= m) => return Ok((r, tb(false))),
                _ => {}
            }
        }
        let code = op_name_code(&format!("overflow-{op:?}-{signed}"));
        let o = mk_op(Op::Other(code), vec![a, b], 1);
        st.facts.get(&o);
        Ok((r, o))
    }

    /// Decide a boolean term, splitting if unknown.
    fn decide(&mut self, st: &State, t: TermId) -> R<bool> {
        let t = st.res(t);
        if has_uninit(t) {
            return stuck("branch on uninitialised byte");
        }
        match as_const(t) {
            Some(v) => Ok(v != 0),
            None => {
                // negation normal form
                if let Term::Op { op: Op::Xor, args, size: 1 } = terms::get(t) {
                    if as_const(args[1]) == Some(1) {
                        return Ok(!self.decide(st, args[0])?);
                    }
                }
                Err(Int::Split(vec![Refine::Fact(t, 0, 0), Refine::Fact(t, 1, 1)]))
            }
        }
    }

    fn need_const(&mut self, st: &State, t: TermId, what: &str) -> R<u128> {
        let t = st.res(t);
        match as_const(t) {
            Some(v) => Ok(v),
            None => {
                let (l, h) = st.range(t);
                if h - l < 8 && !has_uninit(t) && !Self::is_lin(t) {
                    let tt = Self::fact_target(t);
                    return Err(Int::Split((l..=h).map(|v| Refine::Fact(tt, v, v)).collect()));
                }
                stuck(format!("{what} is unknown: {}", show(t)))
            }
        }
    }

    fn float_op(&self, name: &str, args: Vec<TermId>, size: u8) -> TermId {
        // comparisons of constants
        if let ("fEq" | "fNe" | "fLt" | "fLe" | "fGt" | "fGe", Some(x), Some(y)) = (name, as_const(args[0]), args.get(1).and_then(|t| as_const(*t))) {
            if let Some(v) = crate::sample::float(name, x, y, size_of(args[0])) {
                return konst(v, size);
            }
        }
        if let (Some("0" | "->"), Some(0)) = (name.strip_prefix("IntToFloat").map(|r| &r[..r.len().min(2)]), as_const(args[0])) {
            return konst(0, size);
        }
        mk_op(Op::Float(op_name_code(name)), args, size)
    }

    fn binop(&mut self, st: &State, op: BinOp, a: TermId, b: TermId, lty: Ty) -> R<TermId> {
        use BinOp::*;
        if Self::is_float(lty) {
            let size = size_of(a);
            return Ok(match op {
                Eq | Lt | Le | Ne | Ge | Gt => {
                    let t = self.float_op(&format!("f{op:?}"), vec![a, b], 1);
                    // declare boolean range through a wrapper comparison
                    let t = match as_const(t) {
                        Some(v) => konst(v, 1),
                        None => mk_op(Op::Ne, vec![t, konst(0, 1)], 1),
                    };
                    st.res(t)
                }
                _ => self.float_op(&format!("f{op:?}"), vec![a, b], size),
            });
        }
        let signed = Self::is_signed(lty);
        match op {
            Eq | Lt | Le | Ne | Ge | Gt => {
                if let (8, Some(t)) = (size_of(a), Self::pointee(lty)) {
                    let _ = t;
                    return self.compare(st, op, a, b, false);
                }
                self.compare(st, op, a, b, signed)
            }
            Cmp => {
                let lt = self.compare(st, Lt, a, b, signed)?;
                if self.decide(st, lt)? {
                    return Ok(konst(255, 1));
                }
                let eq = self.compare(st, Eq, a, b, signed)?;
                Ok(konst(if self.decide(st, eq)? { 0 } else { 1 }, 1))
            }
            Offset => {
                let pointee = Self::pointee(lty).ok_or(Int::Stuck("offset".into()))?;
                let sz = self.info(pointee)?.size as i64;
                let n = self.need_const(st, b, "pointer offset")? as u64 as i64;
                let addr = self.addr_of_term(st.res(a))?;
                Ok(Self::term_of_addr(Self::add_addr(addr, n.wrapping_mul(sz))))
            }
            _ => {
                let size = size_of(a);
                // shifts may have operands of different width; truncate via constant
                if matches!(op, Shl | ShlUnchecked | Shr | ShrUnchecked) && size_of(b) != size {
                    if let Some(k) = as_const(st.res(b)) {
                        return self.arith(st, op, a, konst(k, size), size, signed);
                    }
                    let b2 = zext(b, size);
                    return self.arith(st, op, a, b2, size, signed);
                }
                self.arith(st, op, a, b, size, signed)
            }
        }
    }

    fn int_cast(&mut self, st: &State, t: TermId, from: Ty, to_size: u8) -> R<TermId> {
        let t = st.res(t);
        if has_uninit(t) {
            return stuck("cast of uninitialised bytes");
        }
        let fs = size_of(t);
        if to_size == fs {
            return Ok(t);
        }
        if to_size < fs {
            if Self::is_lin(t) {
                // keep precision when the value fits
                let l = self.canon(st, Self::lin_of(t).unwrap())?;
                let lim = mask(to_size) as i128;
                let (lo, hi) = st.s.range(l.0, l.1, l.2);
                if lo <= lim && hi > lim {
                    return self.split_at_value(st, l, lim + 1);
                }
            }
            return Ok(zext(t, to_size));
        }
        if Self::is_signed(from) {
            if let Some(v) = as_const(t) {
                return Ok(konst(sext_val(v, fs) as u128, to_size));
            }
            let half = 1u128 << (8 * fs as u32 - 1);
            if st.range(t).1 < half {
                return Ok(zext(t, to_size));
            }
            return Ok(mk_op(Op::SExt, vec![t], to_size));
        }
        // widening of a truncated S that fits restores S
        if let Term::Cat(b) = terms::get(t) {
            if let Some(Byte::T(x, 0)) = b.first().copied() {
                if Self::is_lin(x) && b.iter().enumerate().all(|(i, y)| *y == Byte::T(x, i as u8)) {
                    let l = self.canon(st, Self::lin_of(x).unwrap())?;
                    let (lo, hi) = st.s.range(l.0, l.1, l.2);
                    if lo >= 0 && hi <= mask(fs) as i128 && to_size == 8 {
                        return Ok(x);
                    }
                }
            }
        }
        Ok(zext(t, to_size))
    }

    // ---------------------------------------------------------------- discriminants

    fn discriminant(&mut self, st: &State, addr: Addr, ty: Ty) -> R<u128> {
        let info = self.info(ty)?;
        match &info.shape.variants {
            VariantsShape::Empty => stuck("discriminant of uninhabited"),
            VariantsShape::Single { index } => {
                let idx = *index;
                if let TyKind::RigidTy(RigidTy::Adt(def, _)) = ty.kind() {
                    if def.kind() == AdtKind::Enum {
                        return Ok(def.discriminant_for_variant(idx).val);
                    }
                }
                Ok(0)
            }
            VariantsShape::Multiple { tag, tag_encoding, tag_field, .. } => {
                let toff = match &info.shape.fields {
                    FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes() as i64,
                    _ => 0,
                };
                let tsize = match tag {
                    rustc_public::abi::Scalar::Initialized { value, .. }
                    | rustc_public::abi::Scalar::Union { value } => {
                        value.size(&rustc_public::target::MachineInfo::target()).bytes()
                    }
                };
                let b = self.load(st, Self::add_addr(addr, toff), tsize)?;
                let t = st.res(from_bytes(&b));
                if has_uninit(t) {
                    return stuck(format!("discriminant of uninitialised {ty}"));
                }
                match tag_encoding {
                    TagEncoding::Direct => {
                        let v = self.need_const(st, t, "enum tag")?;
                        // find the variant with this (truncated) discriminant
                        if let TyKind::RigidTy(RigidTy::Adt(def, _)) = ty.kind() {
                            for vd in def.variants() {
                                let d = def.discriminant_for_variant(vd.idx()).val;
                                if d & mask(tsize as u8) == v {
                                    return Ok(d);
                                }
                            }
                            return stuck("invalid enum tag");
                        }
                        Ok(v)
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        let (a, z) = (niche_variants.start().to_index(), niche_variants.end().to_index());
                        let m = mask(tsize as u8);
                        let n = (z - a) as u128;
                        let var = match as_const(t) {
                            Some(v) => {
                                let rel = v.wrapping_sub(*niche_start) & m;
                                if rel <= n {
                                    a + rel as usize
                                } else {
                                    untagged_variant.to_index()
                                }
                            }
                            None => {
                                let (lo, hi) = st.range(t);
                                let mut v = None;
                                for k in 0..=n {
                                    let nv = niche_start.wrapping_add(k) & m;
                                    if nv >= lo && nv <= hi {
                                        v = Some(nv);
                                    }
                                }
                                match v {
                                    None => untagged_variant.to_index(),
                                    Some(nv) => {
                                        let tt = Self::fact_target(t);
                                        let mut out = vec![Refine::Fact(tt, nv, nv)];
                                        if nv > lo {
                                            out.push(Refine::Fact(tt, lo, nv - 1));
                                        }
                                        if nv < hi {
                                            out.push(Refine::Fact(tt, nv + 1, hi));
                                        }
                                        return Err(Int::Split(out));
                                    }
                                }
                            }
                        };
                        if let TyKind::RigidTy(RigidTy::Adt(def, _)) = ty.kind() {
                            for vd in def.variants() {
                                if vd.idx().to_index() == var {
                                    return Ok(def.discriminant_for_variant(vd.idx()).val);
                                }
                            }
                        }
                        Ok(var as u128)
                    }
                }
            }
        }
    }

    fn set_discriminant_bytes(&mut self, ty: Ty, idx: VariantIdx) -> R<Option<(i64, Vec<Byte>)>> {
        let info = self.info(ty)?;
        if let VariantsShape::Multiple { tag, tag_encoding, tag_field, .. } = &info.shape.variants {
            let toff = match &info.shape.fields {
                FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes() as i64,
                _ => 0,
            };
            let tsize = match tag {
                rustc_public::abi::Scalar::Initialized { value, .. }
                | rustc_public::abi::Scalar::Union { value } => {
                    value.size(&rustc_public::target::MachineInfo::target()).bytes()
                }
            } as u8;
            match tag_encoding {
                TagEncoding::Direct => {
                    let v = match ty.kind() {
                        TyKind::RigidTy(RigidTy::Adt(def, _)) => def.discriminant_for_variant(idx).val,
                        _ => idx.to_index() as u128,
                    };
                    return Ok(Some((toff, bytes_of(konst(v, tsize)))));
                }
                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                    if idx.to_index() != untagged_variant.to_index() {
                        let v = niche_start
                            .wrapping_add((idx.to_index() - niche_variants.start().to_index()) as u128);
                        return Ok(Some((toff, bytes_of(konst(v, tsize)))));
                    }
                }
            }
        }
        Ok(None)
    }

    // ---------------------------------------------------------------- rvalues

    fn rvalue(&mut self, st: &State, rv: &Rvalue, dty: Ty) -> R<Vec<Byte>> {
        match rv {
            Rvalue::Use(o, _) => Ok(self.operand(st, o)?.0),
            Rvalue::CopyForDeref(p) => Ok(self.read_place(st, p)?.0),
            Rvalue::Reborrow(_, _, p) => Ok(self.read_place(st, p)?.0),
            Rvalue::AddressOf(_, p) | Rvalue::Ref(_, _, p) => {
                self.raw_place = matches!(rv, Rvalue::AddressOf(..));
                let pl = self.place(st, p);
                self.raw_place = false;
                let pl = pl?;
                if matches!(rv, Rvalue::Ref(..)) {
                    self.aligned(st, pl.addr, pl.ty)?;
                }
                let mut b = bytes_of(Self::term_of_addr(pl.addr));
                let pointee = Self::pointee(dty).ok_or(Int::Stuck("ref type".into()))?;
                if self.is_wide(pointee)? {
                    match pl.meta {
                        Some(m) => b.extend(bytes_of(m)),
                        None => return stuck("missing pointer metadata"),
                    }
                }
                Ok(b)
            }
            Rvalue::Len(p) => {
                let pl = self.place(st, p)?;
                let n = self.seq_len(&pl)?;
                Ok(bytes_of(konst(n as u128, 8)))
            }
            Rvalue::Repeat(o, n) => {
                let (b, _) = self.operand(st, o)?;
                let n = self.array_len(n)?;
                let mut out = Vec::with_capacity(b.len() * n as usize);
                for _ in 0..n {
                    out.extend_from_slice(&b);
                }
                Ok(out)
            }
            Rvalue::Aggregate(kind, ops) => {
                if let AggregateKind::RawPtr(..) = kind {
                    let mut b = self.operand(st, &ops[0])?.0;
                    b.extend(self.operand(st, &ops[1])?.0);
                    return Ok(b);
                }
                let info = self.info(dty)?;
                let mut out = vec![Byte::Uninit; info.size];
                let (variant, active) = match kind {
                    AggregateKind::Adt(_, v, _, _, act) => (Some(*v), *act),
                    _ => (None, None),
                };
                for (i, o) in ops.iter().enumerate() {
                    let (b, _) = self.operand(st, o)?;
                    let idx = active.unwrap_or(i);
                    let off = self.field_off(dty, variant, idx)? as usize;
                    if off + b.len() > out.len() {
                        return stuck("aggregate overflow");
                    }
                    out[off..off + b.len()].copy_from_slice(&b);
                }
                if let AggregateKind::Adt(def, v, ..) = kind {
                    if def.kind() == AdtKind::Enum {
                        if let Some((off, b)) = self.set_discriminant_bytes(dty, *v)? {
                            out[off as usize..off as usize + b.len()].copy_from_slice(&b);
                        }
                    }
                }
                Ok(out)
            }
            Rvalue::Discriminant(p) => {
                let pl = self.place(st, p)?;
                let v = self.discriminant(st, pl.addr, pl.ty)?;
                let n = self.info(dty)?.size as u8;
                Ok(bytes_of(konst(v, n)))
            }
            Rvalue::UnaryOp(op, o) => {
                if let UnOp::PtrMetadata = op {
                    let (b, _) = self.operand(st, o)?;
                    return Ok(if b.len() == 16 { b[8..].to_vec() } else { vec![] });
                }
                let (t, ty) = self.scalar(st, o)?;
                if has_uninit(t) {
                    return stuck("unary op on uninitialised bytes");
                }
                let size = size_of(t);
                let r = match op {
                    UnOp::Not if Self::is_bool(ty) => self.bool_not(t),
                    UnOp::Not => match as_const(t) {
                        Some(v) => konst(!v, size),
                        None => match Self::lin_of(t) {
                            Some(l) if size == 8 => Self::mk_lin((-l.0, -l.1 - l.2, l.2)),
                            _ => mk_op(Op::Not, vec![t], size),
                        },
                    },
                    UnOp::Neg if Self::is_float(ty) => self.float_op("fNeg", vec![t], size),
                    UnOp::Neg => match as_const(t) {
                        Some(v) => konst(v.wrapping_neg(), size),
                        None => match Self::lin_of(t) {
                            Some(l) if size == 8 => Self::mk_lin((-l.0, -l.1, l.2)),
                            _ => mk_op(Op::Neg, vec![t], size),
                        },
                    },
                    UnOp::PtrMetadata => unreachable!(),
                };
                Ok(bytes_of(r))
            }
            Rvalue::BinaryOp(op, x, y) => {
                let (a, lty) = {
                    let (b, ty) = self.operand(st, x)?;
                    if b.len() == 16 && Self::pointee(ty).is_some() {
                        // wide pointer comparison
                        let (c, _) = self.operand(st, y)?;
                        let e1 = self.compare(st, BinOp::Eq, from_bytes(&b[..8]), from_bytes(&c[..8]), false)?;
                        let e2 = self.compare(st, BinOp::Eq, from_bytes(&b[8..]), from_bytes(&c[8..]), false)?;
                        let r = self.decide(st, e1)? && self.decide(st, e2)?;
                        return match op {
                            BinOp::Eq => Ok(vec![Byte::C(r as u8)]),
                            BinOp::Ne => Ok(vec![Byte::C(!r as u8)]),
                            _ => stuck("wide pointer ordering"),
                        };
                    }
                    if b.is_empty() {
                        // unit comparison
                        return match op {
                            BinOp::Eq | BinOp::Le | BinOp::Ge => Ok(vec![Byte::C(1)]),
                            _ => Ok(vec![Byte::C(0)]),
                        };
                    }
                    (st.res(from_bytes(&b)), ty)
                };
                let (b, _) = self.scalar(st, y)?;
                let r = self.binop(st, *op, a, b, lty)?;
                Ok(bytes_of(r))
            }
            Rvalue::CheckedBinaryOp(op, x, y) => {
                let (a, lty) = self.scalar(st, x)?;
                let (b, _) = self.scalar(st, y)?;
                let size = size_of(a);
                let (r, o) = self.checked(st, *op, a, b, size, Self::is_signed(lty))?;
                let info = self.info(dty)?;
                let mut out = vec![Byte::Uninit; info.size];
                let o0 = self.field_off(dty, None, 0)? as usize;
                let o1 = self.field_off(dty, None, 1)? as usize;
                out[o0..o0 + size as usize].copy_from_slice(&bytes_of(r));
                out[o1..o1 + 1].copy_from_slice(&bytes_of(o));
                Ok(out)
            }
            Rvalue::Cast(kind, o, ty) => self.cast(st, kind, o, *ty),
            Rvalue::ThreadLocalRef(_) => stuck("thread local"),
        }
    }

    fn cast(&mut self, st: &State, kind: &CastKind, o: &Operand, ty: Ty) -> R<Vec<Byte>> {
        let (b, from) = self.operand(st, o)?;
        let to = self.info(ty)?;
        match kind {
            CastKind::IntToInt => {
                let r = self.int_cast(st, from_bytes(&b), from, to.size as u8)?;
                Ok(bytes_of(r))
            }
            CastKind::Transmute | CastKind::BoxDerefTransmute | CastKind::Subtype => {
                if b.len() != to.size {
                    return stuck(format!("transmute {from} -> {ty} of different size"));
                }
                self.valid(st, &b, ty)?;
                Ok(b)
            }
            CastKind::PtrToPtr | CastKind::FnPtrToPtr => Ok(b[..to.size.min(b.len())].to_vec()),
            CastKind::PointerExposeAddress | CastKind::PointerWithExposedProvenance => {
                let r = zext(st.res(from_bytes(&b[..8.min(b.len())])), to.size.min(8) as u8);
                Ok(bytes_of(r))
            }
            CastKind::FloatToInt | CastKind::FloatToFloat | CastKind::IntToFloat => {
                let t = from_bytes(&b);
                let r = self.float_op(&format!("{kind:?}{}->{ty}", if Self::is_signed(from) { ":s" } else { "" }), vec![t], to.size as u8);
                Ok(bytes_of(r))
            }
            CastKind::PointerCoercion(pc) => match pc {
                PointerCoercion::ReifyFnPointer(_) => match from.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(def, args)) => {
                        let inst = Instance::resolve_for_fn_ptr(def, &args)
                            .map_err(|e| Int::Stuck(format!("{e:?}")))?;
                        Ok(bytes_of(ptr(self.fn_alloc(inst), 0)))
                    }
                    _ => stuck("reify"),
                },
                PointerCoercion::ClosureFnPointer(_) => match from.kind() {
                    TyKind::RigidTy(RigidTy::Closure(def, args)) => {
                        let inst = Instance::resolve_closure(def, &args, ClosureKind::FnOnce)
                            .map_err(|e| Int::Stuck(format!("{e:?}")))?;
                        Ok(bytes_of(ptr(self.fn_alloc(inst), 0)))
                    }
                    _ => stuck("closure fn pointer"),
                },
                PointerCoercion::UnsafeFnPointer
                | PointerCoercion::MutToConstPointer
                | PointerCoercion::ArrayToPointer => Ok(b),
                PointerCoercion::Unsize => self.unsize(st, b, from, ty),
            },
        }
    }

    fn unsize(&mut self, st: &State, b: Vec<Byte>, from: Ty, to: Ty) -> R<Vec<Byte>> {
        if let (Some(sp), Some(dp)) = (Self::pointee(from), Self::pointee(to)) {
            if b.len() == 16 {
                return Ok(b);
            }
            let (st_, dt_) = (self.unsize_tail(sp, dp)?.0, self.unsize_tail(sp, dp)?.1);
            let meta = match (st_.kind(), dt_.kind()) {
                (TyKind::RigidTy(RigidTy::Array(_, n)), TyKind::RigidTy(RigidTy::Slice(_))) => {
                    konst(self.array_len(&n)? as u128, 8)
                }
                (_, TyKind::RigidTy(RigidTy::Dynamic(preds, _))) => {
                    let principal = preds.iter().find_map(|p| match &p.value {
                        ExistentialPredicate::Trait(t) => Some(Binder {
                            value: t.clone(),
                            bound_vars: p.bound_vars.clone(),
                        }),
                        _ => None,
                    });
                    let key = (st_, format!("{:?}", principal));
                    let id = match self.vtables.get(&key) {
                        Some(i) => *i,
                        None => {
                            let ga = GlobalAlloc::VTable(st_, principal);
                            let aid = ga.vtable_allocation().ok_or(Int::Stuck("vtable".into()))?;
                            let i = self.global_of(aid)?;
                            self.vtables.insert(key, i);
                            i
                        }
                    };
                    ptr(id, 0)
                }
                _ => return stuck(format!("unsize {from} -> {to}")),
            };
            let mut out = b;
            out.extend(bytes_of(meta));
            return Ok(out);
        }
        // smart pointer: find the single field that changes
        match (from.kind(), to.kind()) {
            (TyKind::RigidTy(RigidTy::Adt(d1, a1)), TyKind::RigidTy(RigidTy::Adt(d2, a2))) if d1 == d2 => {
                let n = self.info(to)?.size;
                let mut out = vec![Byte::Uninit; n];
                let (f1, f2) = (d1.variants()[0].fields(), d2.variants()[0].fields());
                for i in 0..f1.len() {
                    let (t1, t2) = (f1[i].ty_with_args(&a1), f2[i].ty_with_args(&a2));
                    let (o1, o2) = (self.field_off(from, None, i)? as usize, self.field_off(to, None, i)? as usize);
                    let n1 = self.info(t1)?.size;
                    let piece = b[o1..o1 + n1].to_vec();
                    let piece = if t1 == t2 || n1 == 0 { piece } else { self.unsize(st, piece, t1, t2)? };
                    let l = piece.len();
                    out[o2..o2 + l].copy_from_slice(&piece);
                }
                Ok(out)
            }
            (TyKind::RigidTy(RigidTy::Pat(t1, _)), TyKind::RigidTy(RigidTy::Pat(t2, _))) => self.unsize(st, b, t1, t2),
            _ => stuck(format!("unsize {from} -> {to}")),
        }
    }

    fn unsize_tail(&mut self, a: Ty, b: Ty) -> R<(Ty, Ty)> {
        match (a.kind(), b.kind()) {
            (TyKind::RigidTy(RigidTy::Adt(d1, a1)), TyKind::RigidTy(RigidTy::Adt(d2, a2)))
                if d1 == d2 && d1.kind() == AdtKind::Struct =>
            {
                let f = d1.variants()[0].fields();
                let g = d2.variants()[0].fields();
                match (f.last(), g.last()) {
                    (Some(x), Some(y)) => self.unsize_tail(x.ty_with_args(&a1), y.ty_with_args(&a2)),
                    _ => Ok((a, b)),
                }
            }
            _ => Ok((a, b)),
        }
    }

    // ---------------------------------------------------------------- functions

    pub fn body(&mut self, inst: Instance) -> R<Rc<FnBody>> {
        if let Some(b) = self.bodies.get(&inst) {
            return Ok(b.clone());
        }
        let name = inst.name();
        let Some(body) = inst.body() else { return stuck(format!("no body for {name}")) };
        let local_tys = body.locals().iter().map(|l| l.ty).collect();
        let krate = inst.def.krate().name.to_string();
        if krate == "crevice" {
            self.collect_literals(&body);
            self.stats.crevice_functions.insert(name.clone());
        }
        self.stats.functions.insert(name.clone());
        let fb = Rc::new(FnBody { ours: krate == "crevice" || body.span.get_filename().contains("/repo/"), calls: Default::default(), krate, body, inst, name, local_tys });
        self.bodies.insert(inst, fb.clone());
        Ok(fb)
    }

    fn collect_literals(&mut self, body: &Body) {
        struct V<'a>(&'a mut BTreeSet<u128>);
        impl MirVisitor for V<'_> {
            fn visit_const_operand(&mut self, c: &ConstOperand, _l: rustc_public::mir::visit::Location) {
                if let ConstantKind::Allocated(a) = c.const_.kind() {
                    if a.provenance.ptrs.is_empty() && matches!(c.const_.ty().kind(), TyKind::RigidTy(RigidTy::Uint(_) | RigidTy::Int(_))) {
                        if let Ok(v) = a.read_uint() {
                            self.0.insert(v);
                        }
                    }
                }
            }
        }
        use rustc_public::mir::visit::MirVisitor;
        V(&mut self.stats.literals).visit_body(body);
        for b in &body.blocks {
            if let TerminatorKind::SwitchInt { targets, .. } = &b.terminator.kind {
                for (v, _) in targets.branches() {
                    self.stats.literals.insert(v);
                }
            }
        }
    }

    fn push_frame(&mut self, st: &mut State, inst: Instance, args: Vec<Vec<Byte>>, dest: Addr, target: Option<usize>) -> R<()> {
        let f = self.body(inst)?;
        if st.frames.len() > 400 {
            return stuck("call depth");
        }
        let nargs = f.body.arg_locals().len();
        let mut args = args;
        if let Some(sp) = f.body.spread_arg() {
            // pack the remaining arguments into the spread tuple
            let first = sp - 1;
            if args.len() != nargs || {
                let n = self.info(f.local_tys[sp])?.size;
                args[first].len() != n
            } {
                let tail: Vec<Vec<Byte>> = args.split_off(first);
                let ty = f.local_tys[sp];
                let n = self.info(ty)?.size;
                let mut out = vec![Byte::Uninit; n];
                for (i, b) in tail.iter().enumerate() {
                    let off = self.field_off(ty, None, i)? as usize;
                    out[off..off + b.len()].copy_from_slice(b);
                }
                args.push(out);
            }
        }
        if args.len() != nargs {
            return stuck(format!("argument count of {}: {} vs {}", f.name, args.len(), nargs));
        }
        let mut locals = Vec::with_capacity(f.local_tys.len());
        for (i, ty) in f.local_tys.iter().enumerate() {
            let info = self.info(*ty)?;
            let id = if i >= 1 && i <= nargs {
                let a = std::mem::take(&mut args[i - 1]);
                if a.len() != info.size {
                    return stuck(format!("argument size of {}: arg {} {} vs {} ({})", f.name, i, a.len(), info.size, ty));
                }
                st.alloc(a, info.align)
            } else {
                st.alloc(vec![Byte::Uninit; info.size], info.align)
            };
            locals.push(id);
        }
        self.stats.calls += 1;
        if f.ours && st.trace.len() < 8 && !st.trace.iter().any(|t| t.inst == f.inst) {
            st.trace.push(f.clone());
        }
        st.frames.push(Frame { f, locals, bb: 0, si: 0, dest, target });
        Ok(())
    }

    /// Run `inst` on the given arguments from `st`; explores all paths.
    pub fn run(&mut self, st: State, inst: Instance, args: Vec<Vec<Byte>>) -> Vec<Outcome> {
        let mut st = st;
        let ret_ty = inst.ty().kind().fn_sig().map(|s| s.skip_binder().output());
        let mut outs = vec![];
        let size = match ret_ty {
            Some(t) => match self.info(t) {
                Ok(i) => i.size,
                Err(Int::Stuck(s)) => {
                    outs.push(Outcome { st, end: End::Stuck(s) });
                    return outs;
                }
                Err(_) => 0,
            },
            None => 0,
        };
        let dest = st.alloc(vec![Byte::Uninit; size], 16);
        let base = st.frames.len();
        debug_assert!(base == 0);
        if let Err(e) = self.push_frame(&mut st, inst, args, Addr::Mem(dest, 0), None) {
            let s = match e {
                Int::Stuck(s) => s,
                e => format!("{e:?}"),
            };
            outs.push(Outcome { st, end: End::Stuck(s) });
            return outs;
        }
        let mut work = vec![st];
        while let Some(mut st) = work.pop() {
            loop {
                if st.frames.is_empty() {
                    let b = self.load(&st, Addr::Mem(dest, 0), size).unwrap_or_default();
                    self.stats.paths += 1;
                    outs.push(Outcome { st, end: End::Return(b) });
                    break;
                }
                st.steps += 1;
                self.stats.steps += 1;
                if st.steps > self.max_steps {
                    // the next ones need not wait as long
                    self.max_steps = self.max_steps.min(3_000_000);
                    outs.push(Outcome { st, end: End::Stuck("step budget exhausted (possible non-termination)".into()) });
                    break;
                }
                match self.step(&mut st) {
                    Ok(()) => {}
                    Err(Int::Split(rs)) => {
                        self.stats.splits += 1;
                        if rs.iter().any(|r| matches!(r, Refine::Force(_))) {
                            if st.choices >= st.max_choices {
                                outs.push(Outcome { st, end: End::Cut });
                                break;
                            }
                            st.choices += 1;
                        }
                        for r in rs.iter().rev() {
                            let mut s2 = st.clone();
                            if s2.apply(r) {
                                work.push(s2);
                            }
                        }
                        if work.len() + outs.len() > self.max_paths {
                            outs.push(Outcome { st, end: End::Stuck("path budget exhausted".into()) });
                            return outs;
                        }
                        break;
                    }
                    Err(Int::Stuck(s)) => {
                        self.stats.paths += 1;
                        let at = self.where_am_i(&st);
                        outs.push(Outcome { st, end: End::Stuck(format!("{s} @ {at}")) });
                        break;
                    }
                    Err(Int::Panic(s)) => {
                        self.stats.paths += 1;
                        let at = self.where_am_i(&st);
                        outs.push(Outcome { st, end: End::Panic(format!("{s} @ {at}")) });
                        break;
                    }
                }
            }
        }
        outs
    }

    pub fn where_am_i(&self, st: &State) -> String {
        let mut v = vec![];
        for f in st.frames.iter().rev() {
            let bb = &f.f.body.blocks[f.bb];
            let span = if f.si < bb.statements.len() {
                bb.statements[f.si].source_info.span
            } else {
                bb.terminator.source_info.span
            };
            v.push(format!("{} ({})", f.f.name, short_span(&span.diagnostic())));
            if v.len() >= 6 {
                break;
            }
        }
        v.join(" <- ")
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let bb = &f.body.blocks[fr.bb];
        if fr.si < bb.statements.len() {
            let s = &bb.statements[fr.si];
            match &s.kind {
                StatementKind::Assign(p, rv) => {
                    let pl = self.place(st, p)?;
                    let b = self.rvalue(st, rv, pl.ty)?;
                    self.store(st, pl.addr, &b)?;
                }
                StatementKind::SetDiscriminant { place, variant_index } => {
                    let pl = self.place(st, place)?;
                    if let Some((off, b)) = self.set_discriminant_bytes(pl.ty, *variant_index)? {
                        self.store(st, Self::add_addr(pl.addr, off), &b)?;
                    }
                }
                StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                    if self.strict {
                        let (t, _) = self.scalar(st, o)?;
                        if as_const(t) == Some(0) {
                            return stuck("undefined: assume(false)");
                        }
                    }
                }
                StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                    let (src, ty) = self.scalar(st, &c.src)?;
                    let (dst, _) = self.scalar(st, &c.dst)?;
                    let (n, _) = self.scalar(st, &c.count)?;
                    let n = self.need_const(st, n, "copy length")? as usize;
                    let pt = Self::pointee(ty).ok_or(Int::Stuck("copy".into()))?;
                    let sz = self.info(pt)?.size;
                    let b = self.load(st, self.addr_of_term(src)?, n * sz)?;
                    self.store(st, self.addr_of_term(dst)?, &b)?;
                }
                _ => {}
            }
            st.frames.last_mut().unwrap().si += 1;
            return Ok(());
        }
        match &bb.terminator.kind {
            TerminatorKind::Goto { target } => self.goto(st, *target),
            TerminatorKind::SwitchInt { discr, targets } => {
                let (t, ty) = self.scalar(st, discr)?;
                if has_uninit(t) {
                    return stuck("switch on uninitialised bytes");
                }
                if let Some(v) = as_const(t) {
                    let tgt = targets.branches().find(|(b, _)| *b == v).map(|(_, t)| t).unwrap_or(targets.otherwise());
                    return self.goto(st, tgt);
                }
                if Self::is_bool(ty) {
                    let b = self.decide(st, t)?;
                    let v = b as u128;
                    let tgt = targets.branches().find(|(b, _)| *b == v).map(|(_, t)| t).unwrap_or(targets.otherwise());
                    return self.goto(st, tgt);
                }
                for (v, tgt) in targets.branches() {
                    let e = self.compare(st, BinOp::Eq, t, konst(v, size_of(t)), false)?;
                    if self.decide(st, e)? {
                        return self.goto(st, tgt);
                    }
                }
                self.goto(st, targets.otherwise())
            }
            TerminatorKind::Resume | TerminatorKind::Abort => Err(Int::Panic("unwind".into())),
            TerminatorKind::Unreachable => stuck("reached `unreachable`"),
            TerminatorKind::Return => {
                let fr = st.frames.last().unwrap().clone();
                let n = self.info(fr.f.local_tys[0])?.size;
                let b = self.load(st, Addr::Mem(fr.locals[0], 0), n)?;
                self.valid(st, &b, fr.f.local_tys[0])?;
                self.store(st, fr.dest, &b)?;
                st.frames.pop();
                for l in &fr.locals {
                    st.mem.remove(l);
                }
                if let Some(c) = st.frames.last_mut() {
                    match fr.target {
                        Some(t) => {
                            c.bb = t;
                            c.si = 0;
                        }
                        None => return stuck("return from a diverging call"),
                    }
                }
                Ok(())
            }
            TerminatorKind::Drop { place, target, .. } => {
                let pl = self.place(st, place)?;
                self.drop_at(st, pl, *target)
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let (t, _) = self.scalar(st, cond)?;
                let b = self.decide(st, t)?;
                if b == *expected {
                    self.goto(st, *target)
                } else {
                    let m = msg.description().map(|s| s.to_string()).unwrap_or_else(|_| match msg {
                        AssertMessage::BoundsCheck { .. } => "index out of bounds".into(),
                        _ => "assertion".into(),
                    });
                    Err(Int::Panic(m))
                }
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                self.call_terminator(st, func, args, destination, *target)
            }
            TerminatorKind::InlineAsm { .. } => stuck("inline asm"),
        }
    }

    fn goto(&mut self, st: &mut State, t: usize) -> R<()> {
        let fr = st.frames.last_mut().unwrap();
        fr.bb = t;
        fr.si = 0;
        Ok(())
    }

    fn drop_at(&mut self, st: &mut State, pl: Pl, target: usize) -> R<()> {
        if let TyKind::RigidTy(RigidTy::Dynamic(..)) = pl.ty.kind() {
            let vt = pl.meta.ok_or(Int::Stuck("dyn drop".into()))?;
            let va = self.addr_of_term(vt)?;
            let b = self.load(st, va, 8)?;
            let fp = from_bytes(&b);
            if as_const(fp) == Some(0) {
                return self.goto(st, target);
            }
            let inst = self.fn_of(st, fp)?;
            let arg = bytes_of(Self::term_of_addr(pl.addr));
            let unit = st.alloc(vec![], 1);
            return self.push_frame(st, inst, vec![arg], Addr::Mem(unit, 0), Some(target));
        }
        let inst = Instance::resolve_drop_in_place(pl.ty);
        if inst.is_empty_shim() {
            return self.goto(st, target);
        }
        let mut arg = bytes_of(Self::term_of_addr(pl.addr));
        if let Some(m) = pl.meta {
            if self.is_wide(pl.ty)? {
                arg.extend(bytes_of(m));
            }
        }
        let unit = st.alloc(vec![], 1);
        self.push_frame(st, inst, vec![arg], Addr::Mem(unit, 0), Some(target))
    }

    fn fn_of(&mut self, st: &State, t: TermId) -> R<Instance> {
        match terms::get(st.res(t)) {
            Term::Ptr { alloc, off: 0 } if alloc >= GLOBAL_BASE => match &self.globals[(alloc - GLOBAL_BASE) as usize] {
                Global::Fn(i) => Ok(*i),
                _ => stuck("call through data pointer"),
            },
            _ => stuck(format!("call through unknown pointer {}", show(t))),
        }
    }

    fn call_terminator(&mut self, st: &mut State, func: &Operand, args: &[Operand], destination: &Place, target: Option<usize>) -> R<()> {
        let fr = st.frames.last().unwrap();
        let fty = match func {
            Operand::Constant(c) => c.const_.ty(),
            Operand::Copy(p) | Operand::Move(p) => {
                p.ty(fr.f.body.locals()).map_err(|e| Int::Stuck(format!("{e:?}")))?
            }
            _ => return stuck("call operand"),
        };
        let dest_pl = self.place(st, destination)?;
        let mut vals = vec![];
        let mut tys = vec![];
        for a in args {
            let (b, t) = self.operand(st, a)?;
            vals.push(b);
            tys.push(t);
        }
        let site = st.frames.last().unwrap();
        let (f, bb) = (site.f.clone(), site.bb);
        if let Some((inst, rc)) = f.calls.borrow().get(&bb) {
            return self.call_instance(st, *inst, vals, tys, *rc, dest_pl.addr, dest_pl.ty, target);
        }
        let mut rust_call = false;
        let inst = match fty.kind() {
            TyKind::RigidTy(RigidTy::FnDef(def, gargs)) => {
                if let Some(sig) = fty.kind().fn_sig() {
                    rust_call = matches!(sig.value.abi, Abi::RustCall);
                }
                let i = Instance::resolve(def, &gargs).map_err(|e| Int::Stuck(format!("{e:?}")))?;
                f.calls.borrow_mut().insert(bb, (i, rust_call));
                i
            }
            TyKind::RigidTy(RigidTy::FnPtr(_)) => {
                let (b, _) = self.operand(st, func)?;
                self.fn_of(st, from_bytes(&b))?
            }
            _ => return stuck(format!("call of {fty}")),
        };
        self.call_instance(st, inst, vals, tys, rust_call, dest_pl.addr, dest_pl.ty, target)
    }

    #[allow(clippy::too_many_arguments)]
    fn call_instance(&mut self, st: &mut State, inst: Instance, mut vals: Vec<Vec<Byte>>, mut tys: Vec<Ty>, rust_call: bool, dest: Addr, dty: Ty, target: Option<usize>) -> R<()> {
        let mut inst = inst;
        if let InstanceKind::Virtual { idx } = inst.kind {
            if vals[0].len() != 16 {
                return stuck("virtual call receiver");
            }
            let vt = self.addr_of_term(from_bytes(&vals[0][8..]))?;
            let b = self.load(st, Self::add_addr(vt, 8 * idx as i64), 8)?;
            inst = self.fn_of(st, from_bytes(&b))?;
            vals[0].truncate(8);
            tys[0] = Ty::new_ptr(Ty::new_tuple(&[]), Mutability::Not);
        }
        let ci = match self.callinfo.get(&inst) {
            Some(c) => c.clone(),
            None => {
                let c = Rc::new(Self::call_info(inst));
                self.callinfo.insert(inst, c.clone());
                c
            }
        };
        if let Some(name) = &ci.intrinsic {
            return self.intrinsic(st, inst, name, vals, tys, dest, dty, target);
        }
        if inst.kind == InstanceKind::LlvmIntrinsic {
            return stuck(format!("llvm intrinsic {}", inst.name()));
        }
        if let Some(p) = &ci.panics {
            if let Some(f) = st.frames.iter().rev().find(|f| f.f.name.contains("precondition_check")) {
                return Err(Int::Panic(format!("unsafe precondition violated: {}", f.f.name)));
            }
            return Err(Int::Panic(p.clone()));
        }
        if let Some(f) = &ci.foreign {
            return self.hook_foreign(st, f, &vals, dest, target);
        }
        if ci.empty {
            return match target {
                Some(t) => self.goto(st, t),
                None => stuck("diverging empty shim"),
            };
        }
        // "rust-call": spread the argument tuple unless the callee re-packs it
        if rust_call && !vals.is_empty() {
            let spreads = inst.has_body() && self.body(inst)?.body.spread_arg().is_some();
            if !spreads {
                let last = vals.pop().unwrap();
                let lty = tys.pop().unwrap();
                if let TyKind::RigidTy(RigidTy::Tuple(ts)) = lty.kind() {
                    for (i, t) in ts.iter().enumerate() {
                        let off = self.field_off(lty, None, i)? as usize;
                        let n = self.info(*t)?.size;
                        vals.push(last[off..off + n].to_vec());
                    }
                } else {
                    return stuck("rust-call argument");
                }
            }
        }
        if !inst.has_body() {
            if let Some(b) = self.construct(inst, &vals, dty)? {
                return self.ret(st, dest, b, target);
            }
        }
        self.push_frame(st, inst, vals, dest, target)
    }

    /// The constructor of a tuple struct or tuple variant, called as a function.
    fn construct(&mut self, inst: Instance, vals: &[Vec<Byte>], dty: Ty) -> R<Option<Vec<Byte>>> {
        let TyKind::RigidTy(RigidTy::Adt(def, _)) = dty.kind() else { return Ok(None) };
        let name = inst.def.name();
        let me = def.name();
        let variant = match def.kind() {
            AdtKind::Struct if name == me => 0,
            AdtKind::Enum => match def.variants().iter().position(|v| name == format!("{me}::{}", v.name())) {
                Some(i) => i,
                None => return Ok(None),
            },
            _ => return Ok(None),
        };
        let idx = VariantIdx::to_val(variant);
        let info = self.info(dty)?;
        let mut out = vec![Byte::Uninit; info.size];
        let v = (def.kind() == AdtKind::Enum).then_some(idx);
        if def.variants()[variant].fields().len() != vals.len() {
            return Ok(None);
        }
        for (i, b) in vals.iter().enumerate() {
            let off = self.field_off(dty, v, i)? as usize;
            if off + b.len() > out.len() {
                return stuck("constructor overflow");
            }
            out[off..off + b.len()].copy_from_slice(b);
        }
        if v.is_some() {
            if let Some((off, b)) = self.set_discriminant_bytes(dty, idx)? {
                out[off as usize..off as usize + b.len()].copy_from_slice(&b);
            }
        }
        Ok(Some(out))
    }

    fn ret(&mut self, st: &mut State, dest: Addr, v: Vec<Byte>, target: Option<usize>) -> R<()> {
        self.store(st, dest, &v)?;
        match target {
            Some(t) => self.goto(st, t),
            None => stuck("return of diverging function"),
        }
    }

    /// Functions with modelled semantics.
    fn call_info(inst: Instance) -> CallInfo {
        let mut c = CallInfo { intrinsic: None, empty: inst.is_empty_shim(), panics: None, foreign: None };
        if let Some(iname) = inst.intrinsic_name() {
            if inst.kind == InstanceKind::Intrinsic {
                c.intrinsic = Some(iname.to_string());
            }
        }
        let name = inst.name();
        let last = name.split('<').next().unwrap_or(&name).rsplit("::").next().unwrap_or("").to_string();
        if name.starts_with("core::panicking::")
            || name.starts_with("std::panicking::")
            || name.starts_with("std::rt::panic")
            || name.starts_with("std::rt::begin_panic")
            || name.starts_with("std::process::abort")
            || name.starts_with("alloc::alloc::handle_alloc_error")
            || name.starts_with("std::alloc::handle_alloc_error")
        {
            c.panics = Some(format!("panic via {last}"));
        }
        if inst.is_foreign_item() || !matches!(inst.kind, InstanceKind::Item | InstanceKind::Shim) || last.starts_with("__rust") || last.starts_with("__probe") {
            c.foreign = Some(last);
        }
        c
    }

    fn hook_foreign(&mut self, st: &mut State, last: &str, vals: &[Vec<Byte>], dest: Addr, target: Option<usize>) -> R<()> {
        let sc = |st: &State, i: usize| st.res(from_bytes(&vals[i]));
        match last {
            "__rust_no_alloc_shim_is_unstable_v2" | "__rust_no_alloc_shim_is_unstable" => self.ret(st, dest, vec![], target),
            "__rust_alloc" | "__rust_alloc_zeroed" => {
                let n = self.need_const(st, sc(st, 0), "allocation size")? as usize;
                let al = self.need_const(st, sc(st, 1), "allocation alignment")? as u64;
                if n > 1 << 22 {
                    return stuck("huge allocation");
                }
                let fill = if last.ends_with("zeroed") { Byte::C(0) } else { Byte::Uninit };
                let id = st.alloc(vec![fill; n], al.max(1));
                self.ret(st, dest, bytes_of(ptr(id, 0)), target)
            }
            "__rust_dealloc" => {
                if let Addr::Mem(id, _) = self.addr_of_term(sc(st, 0))? {
                    st.mem.remove(&id);
                }
                self.ret(st, dest, vec![], target)
            }
            "__rust_realloc" => {
                let a = self.addr_of_term(sc(st, 0))?;
                let old = self.need_const(st, sc(st, 1), "size")? as usize;
                let al = self.need_const(st, sc(st, 2), "align")? as u64;
                let new = self.need_const(st, sc(st, 3), "size")? as usize;
                let b = self.load(st, a, old.min(new))?;
                let mut nb = b;
                nb.resize(new, Byte::Uninit);
                if let Addr::Mem(id, _) = a {
                    st.mem.remove(&id);
                }
                let id = st.alloc(nb, al.max(1));
                self.ret(st, dest, bytes_of(ptr(id, 0)), target)
            }
            "__probe_choice" => {
                let n = self.need_const(st, sc(st, 0), "choice")? as usize;
                match st.forced.take() {
                    Some(k) => {
                        if k > 0 {
                            st.deviations += 1;
                        }
                        st.log.push(Event::Choice(k, n));
                        self.ret(st, dest, bytes_of(konst(k as u128, 8)), target)
                    }
                    None if st.deviations >= st.max_deviations => {
                        st.log.push(Event::Choice(0, n));
                        self.ret(st, dest, bytes_of(konst(0, 8)), target)
                    }
                    None => Err(Int::Split((0..n).map(Refine::Force).collect())),
                }
            }
            "__probe_emit" => {
                let tag = self.need_const(st, sc(st, 0), "tag")? as u32;
                let a = self.addr_of_term(sc(st, 1))?;
                let n = self.need_const(st, sc(st, 2), "emitted length")? as usize;
                let b = self.load(st, a, n)?;
                if self.strict && b.iter().any(|x| matches!(x, Byte::Uninit)) {
                    return stuck("undefined: uninitialised bytes given to the sink");
                }
                st.log.push(Event::Emit(tag, b));
                self.ret(st, dest, vec![], target)
            }
            "__probe_val" => {
                let tag = self.need_const(st, sc(st, 0), "tag")? as u32;
                let v = sc(st, 1);
                st.log.push(Event::Val(tag, v));
                self.ret(st, dest, vec![], target)
            }
            "__probe_s" => self.ret(st, dest, bytes_of(lin(1, 0, 1)), target),
            "memcmp" | "bcmp" => {
                let (a, b) = (self.addr_of_term(sc(st, 0))?, self.addr_of_term(sc(st, 1))?);
                let n = self.need_const(st, sc(st, 2), "length")? as usize;
                let r = self.cmp_bytes(st, a, b, n)?;
                self.ret(st, dest, bytes_of(konst(r as u32 as u128, 4)), target)
            }
            "memcpy" | "memmove" => {
                let (d, s) = (self.addr_of_term(sc(st, 0))?, self.addr_of_term(sc(st, 1))?);
                let n = self.need_const(st, sc(st, 2), "length")? as usize;
                let b = self.load(st, s, n)?;
                self.store(st, d, &b)?;
                self.ret(st, dest, vals[0].clone(), target)
            }
            _ => stuck(format!("foreign function {last}")),
        }
    }

    fn cmp_bytes(&mut self, st: &State, a: Addr, b: Addr, n: usize) -> R<i32> {
        let x = self.load(st, a, n)?;
        let y = self.load(st, b, n)?;
        let x: Vec<Byte> = x.iter().map(|p| st.res_byte(*p)).collect();
        let y: Vec<Byte> = y.iter().map(|p| st.res_byte(*p)).collect();
        // up to eight bytes at a time
        for (p, q) in x.chunks(8).zip(y.chunks(8)) {
            if p == q && !p.contains(&Byte::Uninit) {
                continue;
            }
            let (t, u) = (from_bytes(p), from_bytes(q));
            let e = self.compare(st, BinOp::Eq, t, u, false)?;
            if self.decide(st, e)? {
                continue;
            }
            let rev = |v: &[Byte]| from_bytes(&v.iter().rev().cloned().collect::<Vec<_>>());
            let lt = self.compare(st, BinOp::Lt, rev(p), rev(q), false)?;
            return Ok(if self.decide(st, lt)? { -1 } else { 1 });
        }
        Ok(0)
    }

    /// Are n bytes at a and b the same?
    fn eq_bytes(&mut self, st: &State, a: Addr, b: Addr, n: usize) -> R<bool> {
        let x = self.load(st, a, n)?;
        let y = self.load(st, b, n)?;
        for (p, q) in x.chunks(8).zip(y.chunks(8)) {
            let (t, u) = (from_bytes(p), from_bytes(q));
            let e = self.compare(st, BinOp::Eq, t, u, false)?;
            if !self.decide(st, e)? {
                return Ok(false);
            }
        }
        Ok(true)
    }

    fn garg_ty(inst: &Instance, i: usize) -> R<Ty> {
        let tys: Vec<Ty> = inst
            .args()
            .0
            .iter()
            .filter_map(|a| match a {
                GenericArgKind::Type(t) => Some(*t),
                _ => None,
            })
            .collect();
        tys.get(i).copied().ok_or(Int::Stuck("intrinsic type argument".into()))
    }

    fn size_of_val(&mut self, st: &State, ty: Ty, p: &[Byte]) -> R<(usize, u64)> {
        let _ = st;
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Slice(t)) => {
                let n = as_const(from_bytes(&p[8..])).ok_or(Int::Stuck("len".into()))? as usize;
                let i = self.info(t)?;
                Ok((n * i.size, i.align))
            }
            TyKind::RigidTy(RigidTy::Str) => {
                let n = as_const(from_bytes(&p[8..])).ok_or(Int::Stuck("len".into()))? as usize;
                Ok((n, 1))
            }
            TyKind::RigidTy(RigidTy::Dynamic(..)) => {
                let vt = self.addr_of_term(from_bytes(&p[8..]))?;
                let s = self.load(st, Self::add_addr(vt, 8), 8)?;
                let a = self.load(st, Self::add_addr(vt, 16), 8)?;
                Ok((
                    as_const(from_bytes(&s)).unwrap_or(0) as usize,
                    as_const(from_bytes(&a)).unwrap_or(1) as u64,
                ))
            }
            _ => {
                let i = self.info(ty)?;
                if !i.sized {
                    return stuck("size_of_val of unsized struct");
                }
                Ok((i.size, i.align))
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn intrinsic(&mut self, st: &mut State, inst: Instance, name: &str, vals: Vec<Vec<Byte>>, tys: Vec<Ty>, dest: Addr, dty: Ty, target: Option<usize>) -> R<()> {
        let sc = |st: &State, i: usize| st.res(from_bytes(&vals[i]));
        let us = |v: usize| bytes_of(konst(v as u128, 8));
        let ret: Vec<Byte> = match name {
            "size_of" => us(self.info(Self::garg_ty(&inst, 0)?)?.size),
            "align_of" | "min_align_of" | "pref_align_of" => us(self.info(Self::garg_ty(&inst, 0)?)?.align as usize),
            "size_of_val" => {
                let ty = Self::garg_ty(&inst, 0)?;
                us(self.size_of_val(st, ty, &vals[0])?.0)
            }
            "align_of_val" | "min_align_of_val" => {
                let ty = Self::garg_ty(&inst, 0)?;
                us(self.size_of_val(st, ty, &vals[0])?.1 as usize)
            }
            "needs_drop" => {
                let ty = Self::garg_ty(&inst, 0)?;
                vec![Byte::C(!Instance::resolve_drop_in_place(ty).is_empty_shim() as u8)]
            }
            "transmute" | "transmute_unchecked" => {
                let n = self.info(dty)?.size;
                if vals[0].len() != n {
                    return stuck("transmute size");
                }
                vals[0].clone()
            }
            "assume" if self.strict && as_const(sc(st, 0)) == Some(0) => return stuck("undefined: assume(false)"),
            "black_box" => vals[0].clone(),
            "forget" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "assume"
            | "cold_path" | "prefetch_read_data" => vec![],
            "likely" | "unlikely" => vals[0].clone(),
            "is_val_statically_known" => vec![Byte::C(0)],
            "ub_checks" => vec![Byte::C(self.strict as u8)],
            "contract_checks" => vec![Byte::C(0)],
            "overflow_checks" => vec![Byte::C(1)],
            "abort" | "breakpoint" => return Err(Int::Panic("abort".into())),
            "unreachable" => return stuck("reached unreachable_unchecked"),
            "caller_location" => {
                let n = match Self::pointee(dty) {
                    Some(t) => self.info(t)?.size,
                    None => 0,
                };
                let id = st.alloc(vec![Byte::Uninit; n], 8);
                bytes_of(ptr(id, 0))
            }
            "type_id" => {
                let ty = Self::garg_ty(&inst, 0)?;
                let n = self.info(dty)?.size;
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                ty.hash(&mut h);
                let v = h.finish() as u128;
                let mut b = bytes_of(konst(v | (v << 64), 16));
                b.resize(n, Byte::C(0));
                b
            }
            "type_id_eq" => {
                let e = vals[0] == vals[1];
                vec![Byte::C(e as u8)]
            }
            "copy_nonoverlapping" | "copy" | "volatile_copy_nonoverlapping_memory" | "volatile_copy_memory" => {
                let sz = self.info(Self::garg_ty(&inst, 0)?)?.size;
                let n = self.need_const(st, sc(st, 2), "copy length")? as usize;
                let b = self.load(st, self.addr_of_term(sc(st, 0))?, n * sz)?;
                self.store(st, self.addr_of_term(sc(st, 1))?, &b)?;
                vec![]
            }
            "write_bytes" | "volatile_set_memory" => {
                let sz = self.info(Self::garg_ty(&inst, 0)?)?.size;
                let n = self.need_const(st, sc(st, 2), "fill length")? as usize;
                let v = st.res_byte(vals[1][0]);
                self.store(st, self.addr_of_term(sc(st, 0))?, &vec![v; n * sz])?;
                vec![]
            }
            "compare_bytes" => {
                let n = self.need_const(st, sc(st, 2), "length")? as usize;
                let r = self.cmp_bytes(st, self.addr_of_term(sc(st, 0))?, self.addr_of_term(sc(st, 1))?, n)?;
                bytes_of(konst(r as u32 as u128, 4))
            }
            "raw_eq" => {
                let n = self.info(Self::garg_ty(&inst, 0)?)?.size;
                let r = self.eq_bytes(st, self.addr_of_term(sc(st, 0))?, self.addr_of_term(sc(st, 1))?, n)?;
                vec![Byte::C(r as u8)]
            }
            "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => {
                let n = self.info(dty)?.size;
                let a = self.addr_of_term(sc(st, 0))?;
                if name != "unaligned_volatile_load" {
                    self.aligned(st, a, dty)?;
                }
                let b = self.load(st, a, n)?;
                self.valid(st, &b, dty)?;
                b
            }
            "write_via_move" | "volatile_store" | "unaligned_volatile_store" => {
                let a = self.addr_of_term(sc(st, 0))?;
                if name != "unaligned_volatile_store" {
                    self.aligned(st, a, tys[1])?;
                }
                self.store(st, a, &vals[1])?;
                vec![]
            }
            "discriminant_value" => {
                let ty = Self::garg_ty(&inst, 0)?;
                let a = self.addr_of_term(sc(st, 0))?;
                let v = self.discriminant(st, a, ty)?;
                let n = self.info(dty)?.size as u8;
                bytes_of(konst(v, n))
            }
            "offset" | "arith_offset" => {
                let pt = Self::pointee(tys[0]).ok_or(Int::Stuck("offset".into()))?;
                let sz = self.info(pt)?.size as i64;
                let n = self.need_const(st, sc(st, 1), "pointer offset")? as u64 as i64;
                let a = self.addr_of_term(sc(st, 0))?;
                bytes_of(Self::term_of_addr(Self::add_addr(a, n.wrapping_mul(sz))))
            }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let sz = self.info(Self::garg_ty(&inst, 0)?)?.size as i64;
                let (a, b) = (self.addr_of_term(sc(st, 0))?, self.addr_of_term(sc(st, 1))?);
                let d = match (a, b) {
                    (Addr::Mem(x, i), Addr::Mem(y, j)) if x == y => i - j,
                    (Addr::Raw(x), Addr::Raw(y)) => x as i64 - y as i64,
                    _ => return stuck("offset_from of unrelated pointers"),
                };
                bytes_of(konst((d / sz.max(1)) as u64 as u128, 8))
            }
            "ptr_mask" => {
                let r = self.arith(st, BinOp::BitAnd, sc(st, 0), sc(st, 1), 8, false)?;
                bytes_of(r)
            }
            "ptr_metadata" => {
                if vals[0].len() == 16 {
                    vals[0][8..].to_vec()
                } else {
                    vec![]
                }
            }
            "aggregate_raw_ptr" => {
                let mut b = vals[0].clone();
                b.extend(vals[1].clone());
                b
            }
            "slice_get_unchecked" => {
                // fn(slice_ptr, index) -> item_ptr
                let pt = Self::pointee(dty).ok_or(Int::Stuck("slice_get_unchecked".into()))?;
                let sz = self.info(pt)?.size as i64;
                let n = self.need_const(st, sc(st, 1), "index")? as i64;
                let a = self.addr_of_term(st.res(from_bytes(&vals[0][..8])))?;
                bytes_of(Self::term_of_addr(Self::add_addr(a, n * sz)))
            }
            "wrapping_add" | "unchecked_add" => {
                let n = vals[0].len() as u8;
                bytes_of(self.arith(st, BinOp::Add, sc(st, 0), sc(st, 1), n, Self::is_signed(tys[0]))?)
            }
            "wrapping_sub" | "unchecked_sub" => {
                let n = vals[0].len() as u8;
                bytes_of(self.arith(st, BinOp::Sub, sc(st, 0), sc(st, 1), n, Self::is_signed(tys[0]))?)
            }
            "wrapping_mul" | "unchecked_mul" => {
                let n = vals[0].len() as u8;
                bytes_of(self.arith(st, BinOp::Mul, sc(st, 0), sc(st, 1), n, Self::is_signed(tys[0]))?)
            }
            "unchecked_div" | "exact_div" => {
                let n = vals[0].len() as u8;
                bytes_of(self.arith(st, BinOp::Div, sc(st, 0), sc(st, 1), n, Self::is_signed(tys[0]))?)
            }
            "unchecked_rem" => {
                let n = vals[0].len() as u8;
                bytes_of(self.arith(st, BinOp::Rem, sc(st, 0), sc(st, 1), n, Self::is_signed(tys[0]))?)
            }
            "unchecked_shl" | "unchecked_shr" => {
                let op = if name.ends_with("shl") { BinOp::Shl } else { BinOp::Shr };
                bytes_of(self.binop(st, op, sc(st, 0), sc(st, 1), tys[0])?)
            }
            "disjoint_bitor" => {
                let n = vals[0].len() as u8;
                bytes_of(self.arith(st, BinOp::BitOr, sc(st, 0), sc(st, 1), n, false)?)
            }
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let op = match &name[..3] {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let size = vals[0].len() as u8;
                let (r, o) = self.checked(st, op, sc(st, 0), sc(st, 1), size, Self::is_signed(tys[0]))?;
                let n = self.info(dty)?.size;
                let mut out = vec![Byte::Uninit; n];
                let o0 = self.field_off(dty, None, 0)? as usize;
                let o1 = self.field_off(dty, None, 1)? as usize;
                out[o0..o0 + size as usize].copy_from_slice(&bytes_of(r));
                out[o1..o1 + 1].copy_from_slice(&bytes_of(o));
                out
            }
            "saturating_add" | "saturating_sub" => {
                let op = if name.ends_with("add") { BinOp::Add } else { BinOp::Sub };
                let size = vals[0].len() as u8;
                let signed = Self::is_signed(tys[0]);
                let (a, b) = (sc(st, 0), sc(st, 1));
                let (r, o) = self.checked(st, op, a, b, size, signed)?;
                if self.decide(st, o)? {
                    if signed {
                        return stuck("signed saturation");
                    }
                    bytes_of(konst(if op == BinOp::Add { mask(size) } else { 0 }, size))
                } else {
                    bytes_of(r)
                }
            }
            "ctpop" | "ctlz" | "ctlz_nonzero" | "cttz" | "cttz_nonzero" | "bswap" | "bitreverse" => {
                let t = sc(st, 0);
                let size = size_of(t);
                let bits = 8 * size as u32;
                let rn = self.info(dty)?.size as u8;
                match as_const(t) {
                    Some(v) => {
                        let r = match name {
                            "ctpop" => v.count_ones() as u128,
                            "ctlz" | "ctlz_nonzero" => (v.leading_zeros() - (128 - bits)) as u128,
                            "cttz" | "cttz_nonzero" => {
                                if v == 0 {
                                    bits as u128
                                } else {
                                    v.trailing_zeros() as u128
                                }
                            }
                            "bswap" => {
                                let mut r = 0;
                                for i in 0..size as u32 {
                                    r |= ((v >> (8 * i)) & 255) << (8 * (size as u32 - 1 - i));
                                }
                                r
                            }
                            _ => v.reverse_bits() >> (128 - bits),
                        };
                        bytes_of(konst(r, rn))
                    }
                    None if name == "bswap" => {
                        let mut b = vals[0].clone();
                        b.reverse();
                        b
                    }
                    None => {
                        let op = match name {
                            "ctpop" => Op::Ctpop,
                            "ctlz" | "ctlz_nonzero" => Op::Ctlz,
                            "cttz" | "cttz_nonzero" => Op::Cttz,
                            _ => Op::Other(op_name_code("bitreverse")),
                        };
                        bytes_of(mk_op(op, vec![t], rn))
                    }
                }
            }
            "rotate_left" | "rotate_right" => {
                let t = sc(st, 0);
                let size = size_of(t);
                let bits = 8 * size as u128;
                let k = self.need_const(st, sc(st, 1), "rotation")? % bits;
                let k = if name.ends_with("left") { k } else { (bits - k) % bits };
                if k % 8 == 0 {
                    let k = (k / 8) as usize;
                    let n = size as usize;
                    let b = bytes_of(t);
                    (0..n).map(|i| b[(i + n - k) % n]).collect()
                } else if let Some(v) = as_const(t) {
                    bytes_of(konst((v << k) | (v >> (bits - k)), size))
                } else {
                    bytes_of(mk_op(Op::Other(op_name_code("rotl")), vec![t, konst(k, 4)], size))
                }
            }
            "three_way_compare" => bytes_of(self.binop(st, BinOp::Cmp, sc(st, 0), sc(st, 1), tys[0])?),
            "select_unpredictable" => {
                let c = self.decide(st, sc(st, 0))?;
                if c {
                    vals[1].clone()
                } else {
                    vals[2].clone()
                }
            }
            "const_eval_select" => {
                // (args tuple, const fn, runtime fn): take the runtime function
                let fty = tys[2];
                let TyKind::RigidTy(RigidTy::FnDef(def, gargs)) = fty.kind() else {
                    return stuck("const_eval_select");
                };
                let i2 = Instance::resolve(def, &gargs).map_err(|e| Int::Stuck(format!("{e:?}")))?;
                let TyKind::RigidTy(RigidTy::Tuple(ts)) = tys[0].kind() else { return stuck("const_eval_select") };
                let mut args = vec![];
                for (i, t) in ts.iter().enumerate() {
                    let off = self.field_off(tys[0], None, i)? as usize;
                    let n = self.info(*t)?.size;
                    args.push(vals[0][off..off + n].to_vec());
                }
                return self.call_instance(st, i2, args, ts, false, dest, dty, target);
            }
            "vtable_size" | "vtable_align" => {
                let a = self.addr_of_term(sc(st, 0))?;
                self.load(st, Self::add_addr(a, if name == "vtable_size" { 8 } else { 16 }), 8)?
            }
            "fabsf32" | "fabsf64" | "fabs" | "sqrtf32" | "sqrtf64" | "minnumf32" | "maxnumf32" | "copysignf32"
            | "floorf32" | "ceilf32" | "roundf32" | "truncf32" => {
                let ts: Vec<TermId> = (0..vals.len()).map(|i| sc(st, i)).collect();
                let n = self.info(dty)?.size as u8;
                bytes_of(self.float_op(name, ts, n))
            }
            _ if name.starts_with("atomic_") => {
                if name.starts_with("atomic_load") {
                    let n = self.info(dty)?.size;
                    self.load(st, self.addr_of_term(sc(st, 0))?, n)?
                } else if name.starts_with("atomic_store") {
                    self.store(st, self.addr_of_term(sc(st, 0))?, &vals[1])?;
                    vec![]
                } else if name.starts_with("atomic_fence") || name.starts_with("atomic_singlethreadfence") {
                    vec![]
                } else {
                    return stuck(format!("intrinsic {name}"));
                }
            }
            _ => {
                // fall back to the intrinsic's own MIR body, if it has one
                if inst.body().is_some() {
                    return self.push_frame(st, inst, vals, dest, target);
                }
                return stuck(format!("intrinsic {name}"));
            }
        };
        self.ret(st, dest, ret, target)
    }
}

pub fn short_span(s: &str) -> String {
    let s = s.strip_prefix("/repo/").unwrap_or(s);
    if let Some(i) = s.find("/lib/rustlib/src/rust/") {
        return format!("<rust>/{}", &s[i + "/lib/rustlib/src/rust/".len()..]);
    }
    s.to_string()
}

#[allow(dead_code)]
pub type Set<T> = HashSet<T>;
