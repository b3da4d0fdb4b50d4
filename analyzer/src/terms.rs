//! Abstract scalar values: hash-consed terms over opaque atoms.
//!
//! A value of n bytes is a sequence of `Byte`s; a scalar is a `TermId`.  Constants and
//! byte-level recombinations are kept in normal form, everything else is an
//! uninterpreted (Herbrand) operator application.

use std::cell::RefCell;
use std::collections::HashMap as StdHashMap;
use std::hash::{BuildHasherDefault, Hasher};

/// A fast non-cryptographic hasher for interning tables.
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Fx {
    fn add(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
}
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut v = [0u8; 8];
            v[..c.len()].copy_from_slice(c);
            self.add(u64::from_le_bytes(v));
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.add(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.add(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.add(x)
    }
    fn write_usize(&mut self, x: usize) {
        self.add(x as u64)
    }
    fn write_u128(&mut self, x: u128) {
        self.add(x as u64);
        self.add((x >> 64) as u64)
    }
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}
pub type HashMap<K, V> = StdHashMap<K, V, BuildHasherDefault<Fx>>;

pub type TermId = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Byte {
    Uninit,
    C(u8),
    T(TermId, u8),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    SDiv,
    Rem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    Shr,
    Sar,
    Eq,
    Ne,
    Lt,
    Le,
    SLt,
    SLe,
    Not,
    Neg,
    SExt,
    Ctpop,
    Ctlz,
    Cttz,
    Float(u32), // interned float operation code
    Other(u32), // interned name
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Term {
    /// An unknown value within [lo, hi].
    Atom { id: u32, size: u8, lo: u128, hi: u128 },
    Const(u128, u8),
    /// (a*S + c)/d over the distinguished unknown S; 8 bytes, modulo 2^64. The division is exact.
    Lin { a: i128, c: i128, d: i128 },
    Ptr { alloc: u32, off: i64 },
    Op { op: Op, args: Vec<TermId>, size: u8 },
    Cat(Vec<Byte>),
}

#[derive(Default)]
struct Arena {
    terms: Vec<Term>,
    map: HashMap<Term, TermId>,
    atom_names: Vec<String>,
    atom_ids: HashMap<String, u32>,
    op_names: Vec<String>,
}

thread_local! {
    static A: RefCell<Arena> = RefCell::new(Arena::default());
}

pub fn intern(t: Term) -> TermId {
    A.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(&i) = a.map.get(&t) {
            return i;
        }
        let i = a.terms.len() as TermId;
        a.terms.push(t.clone());
        a.map.insert(t, i);
        i
    })
}

pub fn get(t: TermId) -> Term {
    A.with(|a| a.borrow().terms[t as usize].clone())
}

pub fn size_of(t: TermId) -> u8 {
    A.with(|a| match &a.borrow().terms[t as usize] {
        Term::Atom { size, .. } | Term::Const(_, size) | Term::Op { size, .. } => *size,
        Term::Lin { .. } | Term::Ptr { .. } => 8,
        Term::Cat(b) => b.len() as u8,
    })
}

pub fn as_const(t: TermId) -> Option<u128> {
    A.with(|a| match &a.borrow().terms[t as usize] {
        Term::Const(v, _) => Some(*v),
        _ => None,
    })
}

/// An opaque atom; the name makes it unique.
pub fn atom(name: &str, size: u8, lo: u128, hi: u128) -> TermId {
    let id = A.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(i) = a.atom_ids.get(name) {
            *i
        } else {
            a.atom_names.push(name.to_string());
            let i = a.atom_names.len() as u32 - 1;
            a.atom_ids.insert(name.to_string(), i);
            i
        }
    });
    intern(Term::Atom { id, size, lo, hi })
}

pub fn op_name_code(name: &str) -> u32 {
    A.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(i) = a.op_names.iter().position(|n| n == name) {
            i as u32
        } else {
            a.op_names.push(name.to_string());
            a.op_names.len() as u32 - 1
        }
    })
}

pub fn op_name(code: u32) -> String {
    A.with(|a| a.borrow().op_names[code as usize].clone())
}

pub fn mask(size: u8) -> u128 {
    if size >= 16 {
        u128::MAX
    } else {
        (1u128 << (8 * size as u32)) - 1
    }
}

pub fn konst(v: u128, size: u8) -> TermId {
    intern(Term::Const(v & mask(size), size))
}

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

pub fn lin(a: i128, c: i128, d: i128) -> TermId {
    debug_assert!(d > 0);
    if a == 0 {
        debug_assert!(c % d == 0);
        return konst((c / d) as u128, 8);
    }
    let g = gcd(gcd(a, c), d);
    if g > 1 {
        intern(Term::Lin { a: a / g, c: c / g, d: d / g })
    } else {
        intern(Term::Lin { a, c, d })
    }
}

pub fn ptr(alloc: u32, off: i64) -> TermId {
    intern(Term::Ptr { alloc, off })
}

pub fn mk_op(op: Op, args: Vec<TermId>, size: u8) -> TermId {
    intern(Term::Op { op, args, size })
}

/// The bytes of a scalar term (little endian).
pub fn bytes_of(t: TermId) -> Vec<Byte> {
    match get(t) {
        Term::Const(v, n) => (0..n).map(|i| Byte::C((v >> (8 * i as u32)) as u8)).collect(),
        Term::Cat(b) => b,
        _ => (0..size_of(t)).map(|i| Byte::T(t, i)).collect(),
    }
}

/// The scalar made of the given bytes (little endian), in normal form.
pub fn from_bytes(b: &[Byte]) -> TermId {
    if b.iter().all(|x| matches!(x, Byte::C(_))) {
        let mut v = 0u128;
        for (i, x) in b.iter().enumerate() {
            if let Byte::C(c) = x {
                v |= (*c as u128) << (8 * i as u32);
            }
        }
        return konst(v, b.len() as u8);
    }
    if let Byte::T(t, 0) = b[0] {
        if size_of(t) as usize == b.len()
            && b.iter().enumerate().all(|(i, x)| *x == Byte::T(t, i as u8))
        {
            return t;
        }
    }
    intern(Term::Cat(b.to_vec()))
}

pub fn has_uninit(t: TermId) -> bool {
    A.with(|a| match &a.borrow().terms[t as usize] {
        Term::Cat(b) => b.iter().any(|x| matches!(x, Byte::Uninit)),
        _ => false,
    })
}

pub fn show(t: TermId) -> String {
    match get(t) {
        Term::Atom { id, .. } => A.with(|a| a.borrow().atom_names[id as usize].clone()),
        Term::Const(v, _) => {
            if v > 0xffff {
                format!("{:#x}", v)
            } else {
                format!("{}", v)
            }
        }
        Term::Lin { a, c, d } => {
            let n = format!("{}S{:+}", if a == 1 { String::new() } else { a.to_string() }, c);
            if d == 1 {
                n
            } else {
                format!("({})/{}", n, d)
            }
        }
        Term::Ptr { alloc, off } => format!("&m{}{:+}", alloc, off),
        Term::Op { op, args, .. } => {
            let name = match op {
                Op::Float(c) | Op::Other(c) => A.with(|a| a.borrow().op_names[c as usize].clone()),
                o => format!("{:?}", o),
            };
            format!("{}({})", name, args.iter().map(|x| show(*x)).collect::<Vec<_>>().join(","))
        }
        Term::Cat(b) => format!("[{}]", b.iter().map(|x| show_byte(*x)).collect::<Vec<_>>().join(" ")),
    }
}

pub fn show_byte(b: Byte) -> String {
    match b {
        Byte::Uninit => "uninit".into(),
        Byte::C(c) => format!("{:#04x}", c),
        Byte::T(t, i) => format!("{}.b{}", show(t), i),
    }
}

/// Unknown atoms with at most `max` possible values occurring in a term.
pub fn small_atoms(t: TermId, max: u128, out: &mut Vec<TermId>) {
    match get(t) {
        Term::Atom { lo, hi, .. } => {
            if hi - lo < max && !out.contains(&t) {
                out.push(t)
            }
        }
        Term::Op { args, .. } => {
            for a in args {
                small_atoms(a, max, out)
            }
        }
        Term::Cat(b) => {
            for x in b {
                if let Byte::T(t, _) = x {
                    small_atoms(t, max, out)
                }
            }
        }
        _ => {}
    }
}
