//! The GLSL std140/std430 layout rules (OpenGL 4.6 specification, section 7.6.2.2),
//! written independently of the code under analysis.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Scalar {
    F32,
    F64,
    I32,
    U32,
    Bool,
}

impl Scalar {
    pub fn size(self) -> usize {
        if self == Scalar::F64 {
            8
        } else {
            4
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Layout {
    Std140,
    Std430,
}
pub use Layout::*;

impl Layout {
    pub fn name(self) -> &'static str {
        match self {
            Std140 => "std140",
            Std430 => "std430",
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Glsl {
    S(Scalar),
    V(Scalar, usize),
    M(Scalar, usize),
    Struct(String, Vec<(String, Glsl)>),
    /// crevice's DynamicUniform: alignment raised to 256
    Dyn(Box<Glsl>),
}
use Glsl::*;

pub fn round_up(x: usize, a: usize) -> usize {
    (x + a - 1) / a * a
}

impl Glsl {
    pub fn parse(name: &str) -> Option<Glsl> {
        let (pre, rest) = match name {
            "float" => return Some(S(Scalar::F32)),
            "double" => return Some(S(Scalar::F64)),
            "int" => return Some(S(Scalar::I32)),
            "uint" => return Some(S(Scalar::U32)),
            "bool" => return Some(S(Scalar::Bool)),
            _ => match name.as_bytes().first()? {
                b'd' => (Scalar::F64, &name[1..]),
                b'i' => (Scalar::I32, &name[1..]),
                b'u' => (Scalar::U32, &name[1..]),
                b'b' => (Scalar::Bool, &name[1..]),
                _ => (Scalar::F32, name),
            },
        };
        let n: usize = rest.get(3..)?.parse().ok()?;
        if !(2..=4).contains(&n) {
            return None;
        }
        match &rest[..3] {
            "vec" => Some(V(pre, n)),
            "mat" if matches!(pre, Scalar::F32 | Scalar::F64) => Some(M(pre, n)),
            _ => None,
        }
    }

    pub fn name(&self) -> String {
        let p = |s: &Scalar| match s {
            Scalar::F32 => "",
            Scalar::F64 => "d",
            Scalar::I32 => "i",
            Scalar::U32 => "u",
            Scalar::Bool => "b",
        };
        match self {
            S(Scalar::F32) => "float".into(),
            S(Scalar::F64) => "double".into(),
            S(Scalar::I32) => "int".into(),
            S(Scalar::U32) => "uint".into(),
            S(Scalar::Bool) => "bool".into(),
            V(s, n) => format!("{}vec{}", p(s), n),
            M(s, n) => format!("{}mat{}", p(s), n),
            Struct(n, _) => n.clone(),
            Dyn(g) => format!("dynamic {}", g.name()),
        }
    }

    /// Base alignment.
    pub fn align(&self, l: Layout) -> usize {
        match self {
            // rule 1
            S(s) => s.size(),
            // rules 2, 3
            V(s, 2) => 2 * s.size(),
            V(s, _) => 4 * s.size(),
            // rules 5, 4: an array of column vectors
            M(s, n) => {
                let a = V(*s, *n).align(l);
                if l == Std140 {
                    round_up(a, 16)
                } else {
                    a
                }
            }
            // rule 9
            Struct(_, f) => {
                let a = f.iter().map(|(_, g)| g.align(l)).max().unwrap_or(1);
                if l == Std140 {
                    round_up(a, 16)
                } else {
                    a
                }
            }
            Dyn(g) => g.align(l).max(256),
        }
    }

    pub fn size(&self, l: Layout) -> usize {
        match self {
            S(s) => s.size(),
            V(s, n) => n * s.size(),
            M(_, n) => n * self.column_stride(l),
            Struct(_, f) => {
                let mut o = 0;
                for (_, g) in f {
                    o = round_up(o, g.align(l)) + g.size(l);
                }
                round_up(o, self.align(l))
            }
            Dyn(g) => g.size(l),
        }
    }

    pub fn column_stride(&self, l: Layout) -> usize {
        match self {
            M(s, n) => round_up(V(*s, *n).size(l), self.align(l)),
            _ => 0,
        }
    }

    /// Offsets of the members of a struct.
    pub fn member_offsets(&self, l: Layout) -> Vec<usize> {
        let mut v = vec![];
        if let Struct(_, f) = self {
            let mut o = 0;
            for (_, g) in f {
                o = round_up(o, g.align(l));
                v.push(o);
                o += g.size(l);
            }
        }
        v
    }

    /// Offset and scalar kind of every component, in order.
    pub fn comps(&self, l: Layout, base: usize, out: &mut Vec<(usize, Scalar)>) {
        match self {
            S(s) => out.push((base, *s)),
            V(s, n) => (0..*n).for_each(|i| out.push((base + i * s.size(), *s))),
            M(s, n) => {
                for c in 0..*n {
                    V(*s, *n).comps(l, base + c * self.column_stride(l), out);
                }
            }
            Struct(_, f) => {
                for ((_, g), o) in f.iter().zip(self.member_offsets(l)) {
                    g.comps(l, base + o, out);
                }
            }
            Dyn(g) => g.comps(l, base, out),
        }
    }

    /// Distance between consecutive elements of a GLSL array of this type.
    pub fn array_stride(&self, l: Layout) -> usize {
        let a = if l == Std140 { round_up(self.align(l), 16) } else { self.align(l) };
        round_up(self.size(l), a)
    }

    pub fn has_bool(&self) -> bool {
        match self {
            S(s) | V(s, _) | M(s, _) => *s == Scalar::Bool,
            Struct(_, f) => f.iter().any(|(_, g)| g.has_bool()),
            Dyn(g) => g.has_bool(),
        }
    }
}
