//! Is a reported difference real?  Values the abstract domain cannot compare (results of
//! arithmetic on unknown data) are compared by folding them for a number of constants, so
//! that a violation always comes with inputs that show it; without such inputs the
//! obligation is undecided, not violated.

use crate::interp::State;
use crate::terms::{self, *};

pub struct Assign {
    vals: HashMap<TermId, u128>,
    s: i128,
    /// moves objects around, as far as their alignment allows
    shift: u64,
    aligns: std::rc::Rc<HashMap<u32, u64>>,
}

/// The value of a term; None if an operation is not known here.
pub fn eval(t: TermId, a: &Assign) -> Option<u128> {
    let sx = |v: u128, n: u8| -> i128 {
        let sh = 128 - 8 * n as u32;
        ((v << sh) as i128) >> sh
    };
    Some(match terms::get(t) {
        Term::Const(v, _) => v,
        Term::Atom { .. } => *a.vals.get(&t)?,
        Term::Lin { a: k, c, d } => ((k * a.s + c) / d).rem_euclid(1i128 << 64) as u128,
        Term::Ptr { alloc, off } => {
            let al = a.aligns.get(&alloc).copied().unwrap_or(64);
            let by = a.shift.wrapping_mul(alloc as u64 | 1) & 63 & !(al - 1);
            (0x10_0000 + by as i64 + ((alloc as i64) << 24) + off) as u64 as u128
        }
        Term::Cat(b) => {
            let mut v = 0;
            for (i, x) in b.iter().enumerate() {
                v |= (byte(*x, a)? as u128) << (8 * i as u32);
            }
            v
        }
        Term::Op { op, args, size } => {
            let n = size_of(args[0]);
            let x = eval(args[0], a)?;
            let y = match args.get(1) {
                Some(t) => eval(*t, a)?,
                None => 0,
            };
            let bits = 8 * n as u32;
            let r = match op {
                Op::Add => x.wrapping_add(y),
                Op::Sub => x.wrapping_sub(y),
                Op::Mul => x.wrapping_mul(y),
                Op::Div => x.checked_div(y)?,
                Op::Rem => x.checked_rem(y)?,
                Op::SDiv => sx(x, n).checked_div(sx(y, n))? as u128,
                Op::SRem => sx(x, n).checked_rem(sx(y, n))? as u128,
                Op::And => x & y,
                Op::Or => x | y,
                Op::Xor => x ^ y,
                Op::Shl => x << (y as u32 % bits),
                Op::Shr => x >> (y as u32 % bits),
                Op::Sar => (sx(x, n) >> (y as u32 % bits)) as u128,
                Op::Eq => (x == y) as u128,
                Op::Ne => (x != y) as u128,
                Op::Lt => (x < y) as u128,
                Op::Le => (x <= y) as u128,
                Op::SLt => (sx(x, n) < sx(y, n)) as u128,
                Op::SLe => (sx(x, n) <= sx(y, n)) as u128,
                Op::Not => !x,
                Op::Neg => x.wrapping_neg(),
                Op::SExt => sx(x, n) as u128,
                Op::Ctpop => x.count_ones() as u128,
                Op::Ctlz => (x.leading_zeros() - (128 - bits)) as u128,
                Op::Cttz => (if x == 0 { bits } else { x.trailing_zeros() }) as u128,
                Op::Float(c) => float(&op_name(c), x, y, n)?,
                Op::Other(c) => match op_name(c).as_str() {
                    "bitreverse" => x.reverse_bits() >> (128 - bits),
                    "rotl" => {
                        let k = y as u32 % bits;
                        if k == 0 { x } else { (x << k) | (x >> (bits - k)) }
                    }
                    "overflow-Add-false" => (x + y > mask(n)) as u128,
                    "overflow-Sub-false" => (x < y) as u128,
                    "overflow-Mul-false" => (x.checked_mul(y)? > mask(n)) as u128,
                    _ => return None,
                },
            };
            r & mask(size)
        }
    })
}

pub fn float(name: &str, x: u128, y: u128, n: u8) -> Option<u128> {
    macro_rules! go {
        ($f:ty, $u:ty) => {{
            let (p, q) = (<$f>::from_bits(x as $u), <$f>::from_bits(y as $u));
            let r = match name {
                "fAdd" => p + q,
                "fSub" => p - q,
                "fMul" => p * q,
                "fDiv" => p / q,
                "fRem" => p % q,
                "fNeg" => -p,
                "fEq" => return Some((p == q) as u128),
                "fNe" => return Some((p != q) as u128),
                "fLt" => return Some((p < q) as u128),
                "fLe" => return Some((p <= q) as u128),
                "fGt" => return Some((p > q) as u128),
                "fGe" => return Some((p >= q) as u128),
                "FloatToFloat->f32" => return Some((p as f32).to_bits() as u128),
                "FloatToFloat->f64" => return Some((p as f64).to_bits() as u128),
                "FloatToInt->u32" => return Some(p as u32 as u128),
                "FloatToInt->i32" => return Some(p as i32 as u32 as u128),
                "FloatToInt->u64" | "FloatToInt->usize" => return Some(p as u64 as u128),
                "FloatToInt->i64" | "FloatToInt->isize" => return Some(p as i64 as u64 as u128),
                _ => return None,
            };
            Some(r.to_bits() as u128)
        }};
    }
    if let Some(to) = name.strip_prefix("IntToFloat") {
        let sh = 128 - 8 * n as u32;
        let v = ((x << sh) as i128) >> sh;
        let signed = to.starts_with(":s");
        return Some(match (signed, to.ends_with("f32")) {
            (false, true) => (x as f32).to_bits() as u128,
            (false, false) => (x as f64).to_bits() as u128,
            (true, true) => (v as f32).to_bits() as u128,
            (true, false) => (v as f64).to_bits() as u128,
        });
    }
    match n {
        4 => go!(f32, u32),
        8 => go!(f64, u64),
        _ => None,
    }
}

pub fn byte(b: Byte, a: &Assign) -> Option<u8> {
    match b {
        Byte::C(c) => Some(c),
        Byte::T(t, i) => Some((eval(t, a)? >> (8 * i as u32)) as u8),
        Byte::Uninit => None,
    }
}

fn atoms(t: TermId, out: &mut Vec<TermId>, ops: &mut bool) {
    match terms::get(t) {
        Term::Atom { .. } => {
            if !out.contains(&t) {
                out.push(t)
            }
        }
        Term::Op { args, .. } => {
            *ops = true;
            for a in args {
                atoms(a, out, ops)
            }
        }
        Term::Cat(b) => {
            for x in b {
                if let Byte::T(t, _) = x {
                    atoms(t, out, ops)
                }
            }
        }
        _ => {}
    }
}

/// Constants for the unknowns in the facts of st (and in `more`) that satisfy those facts.
/// Err(()) if some operation cannot be folded.
fn samples(st: &State, more: &[TermId], tries: usize, f: &mut dyn FnMut(&Assign) -> Option<bool>) -> Option<bool> {
    let mut at = vec![];
    let mut ops = false;
    for t in st.facts.keys().chain(more) {
        atoms(*t, &mut at, &mut ops);
    }
    let mut seed = 0x9e37_79b9_7f4a_7c15u64;
    let mut rnd = move || {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        seed
    };
    let mut any = false;
    let aligns = std::rc::Rc::new(st.mem.iter().map(|(k, m)| (*k, m.align)).collect::<HashMap<u32, u64>>());
    for k in 0..tries {
        let mut a = Assign { vals: Default::default(), s: 0, shift: if k % 2 == 0 { 0 } else { rnd() >> 7 }, aligns: aligns.clone() };
        let d = &st.s;
        let steps = ((d.hi - d.lo) / d.m.max(1)).max(0) as u64;
        a.s = d.lo + d.m * match k % 4 {
            0 => 0,
            1 => steps as i128,
            _ => (rnd() % (steps.saturating_add(1)).max(1)) as i128,
        };
        for (j, t) in at.iter().enumerate() {
            let (lo, hi) = st.range(*t);
            let w = hi.wrapping_sub(lo);
            let r = ((rnd() as u128) << 64) | rnd() as u128;
            let v = match if k < 64 { k } else { (k + j + rnd() as usize) % 97 } {
                0 => lo,
                1 => hi,
                2 => lo.saturating_add(1),
                3 => hi.saturating_sub(1),
                4 => lo + w / 2,
                5 => lo + w / 2 + 1,
                6..=37 => 1u128 << (k % 128).min(127),
                38..=45 => r & 0xff,
                46..=52 => (r & 0xff) << (8 * (r >> 120 & 3) as u32),
                _ => if w == u128::MAX { r } else { lo + r % (w + 1) },
            };
            a.vals.insert(*t, if v < lo || v > hi { if w == u128::MAX { v } else { lo + v % (w + 1) } } else { v });
        }
        let mut ok = true;
        for (t, (lo, hi)) in &st.facts {
            let v = eval(*t, &a)?;
            if v < *lo || v > *hi {
                ok = false;
                break;
            }
        }
        if ok {
            any = true;
            match f(&a) {
                Some(true) => return Some(true),
                Some(false) => {}
                None => return None,
            }
        }
    }
    let _ = any;
    Some(false)
}

/// May this path be one that no input takes?
pub fn doubtful(st: &State) -> bool {
    let (mut at, mut ops) = (vec![], false);
    for t in st.facts.keys() {
        atoms(*t, &mut at, &mut ops);
    }
    // facts about the unknowns themselves (and their bytes) are consistent
    ops && samples(st, &[], 4000, &mut |_| Some(true)) == Some(false)
}

/// May these different terms be equal all the same?
pub fn maybe_equal(st: &State, x: Byte, y: Byte) -> bool {
    let (mut at, mut ops) = (vec![], false);
    let mut ts = vec![];
    for b in [x, y] {
        match b {
            Byte::T(t, _) => {
                atoms(t, &mut at, &mut ops);
                ts.push(t);
            }
            Byte::Uninit => return false,
            _ => {}
        }
    }
    ops && samples(st, &ts, 4000, &mut |a| Some(byte(x, a)? != byte(y, a)?)) == Some(false)
}

/// Is there a value of the term, on this path, outside the range?
pub fn outside(st: &State, t: TermId, inside: &dyn Fn(u128) -> bool) -> bool {
    samples(st, &[t], 4000, &mut |a| Some(!inside(eval(t, a)?))) == Some(true)
}
