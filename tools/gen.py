#!/usr/bin/env python3
"""Writes the struct corpora: crates of client structs with the crevice derives.  Never run, only analysed.

The structs enumerate the decision space of the derive: every ordered pair (thorough: triple) of
size/alignment classes, every member type of every library, all member counts up to 40 and some
beyond, nesting, and the syntactic variety of Rust struct declarations."""
import os, random, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

CARGO = open(os.path.join(VERIF, 'probes/main/Cargo.toml')).read()
LOCK = open(os.path.join(VERIF, 'probes/main/Cargo.lock')).read()

# GLSL type -> Rust types
M = 'mint::'
TYPES = {}
for s, r in (('', 'f32'), ('d', 'f64'), ('i', 'i32'), ('u', 'u32'), ('b', 'bool')):
    for n in (2, 3, 4):
        v = [f'mint::Vector{n}<{r}>', f'cgmath::Vector{n}<{r}>', f'nalgebra::Vector{n}<{r}>']
        if n < 4:
            v += [f'mint::Point{n}<{r}>', f'cgmath::Point{n}<{r}>', f'nalgebra::Point{n}<{r}>']
        g = {'': 'Vec', 'd': 'DVec', 'i': 'IVec', 'u': 'UVec', 'b': None}[s]
        if g:
            v.append(f'glam::{g}{n}')
        TYPES[f'{s}vec{n}'] = v
for s, r in (('', 'f32'), ('d', 'f64')):
    for n in (2, 3, 4):
        TYPES[f'{s}mat{n}'] = [f'mint::ColumnMatrix{n}<{r}>', f'cgmath::Matrix{n}<{r}>', f'nalgebra::Matrix{n}<{r}>',
                               f'glam::{"D" if s else ""}Mat{n}']
for g, r in (('float', 'f32'), ('double', 'f64'), ('int', 'i32'), ('uint', 'u32'), ('bool', 'bool')):
    TYPES[g] = [r]
ALL = [t for v in TYPES.values() for t in v]
CLASSES = ['f32', 'f64', 'bool', 'mint::Vector2<f32>', 'mint::Vector3<f32>', 'mint::Vector4<f32>',
           'mint::Vector2<f64>', 'mint::Vector3<f64>', 'mint::Vector4<f64>',
           'mint::ColumnMatrix2<f32>', 'mint::ColumnMatrix3<f32>', 'mint::ColumnMatrix4<f32>',
           'mint::ColumnMatrix2<f64>', 'mint::ColumnMatrix3<f64>', 'mint::ColumnMatrix4<f64>',
           'N4', 'N12', 'N16']
SMALL = ['f32', 'f64', 'mint::Vector2<f32>', 'mint::Vector3<f32>', 'mint::Vector4<f32>', 'mint::Vector3<f64>',
         'mint::ColumnMatrix2<f32>', 'mint::ColumnMatrix3<f64>', 'bool', 'N4', 'N12', 'N16']
DERIVE = '#[derive(crevice::std140::AsStd140, crevice::std430::AsStd430, crevice::glsl::GlslStruct)]'

NEST = f'''
{DERIVE}
pub struct N4 {{ pub a: f32 }}
{DERIVE}
pub struct N12 {{ pub a: mint::Vector3<f32> }}
{DERIVE}
pub struct N16 {{ pub a: f64, pub b: f32 }}
{DERIVE}
pub struct NBool {{ pub on: bool, pub v: mint::Vector3<bool>, pub b: bool }}
{DERIVE}
pub struct NN {{ pub x: N12, pub y: f32, pub z: N4 }}
{DERIVE}
pub struct NNN {{ pub x: f32, pub y: NN, pub z: NBool, pub w: f32 }}
'''
NESTED = ['N4', 'N12', 'N16', 'NBool', 'NN', 'NNN']


class Crate:
    def __init__(self, name):
        self.name, self.src, self.names, self.n140, self.n430 = name, [], [], [], []
        self.edition = '2021'

    def struct(self, name, members, head=DERIVE):
        ms = ', '.join(f'pub {n}: {t}' for n, t in members)
        self.src.append(f'{head}\npub struct {name} {{ {ms} }}')
        self.names.append(name)

    def auto(self, name, tys):
        self.struct(name, [(f'm{i}', t) for i, t in enumerate(tys)])

    def write(self, out):
        d = os.path.join(out, self.name)
        os.makedirs(os.path.join(d, 'src'), exist_ok=True)
        put(os.path.join(d, 'Cargo.toml'), CARGO.replace('probe_main', self.name).replace('edition = "2021"', f'edition = "{self.edition}"'))
        put(os.path.join(d, 'Cargo.lock'), LOCK.replace('probe_main', self.name))
        tabs = ''
        for pre, names in (('derived', self.names), ('only140', self.n140), ('only430', self.n430)):
            for i in range(0, len(names), 40):
                tabs += f'pub fn {pre}__{i}() -> ({", ".join(names[i:i+40])},) {{ loop {{}} }}\n'
        common = os.path.join(VERIF, 'probes/common')
        main = os.path.join(VERIF, 'probes/main/src')
        text = f'''//! Generated by tools/gen.py.
#![allow(dead_code, unused, non_snake_case, non_camel_case_types)]
#[path = "{common}/probe.rs"]
pub mod probe;
use bytemuck as _;
include!("{common}/entries.rs");
include!("{main}/types.rs");
''' + '\n'.join(self.src) + '\n' + tabs
        put(os.path.join(d, 'src/lib.rs'), text)


def put(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, 'w') as f:
        f.write(text)


def syntax(c):
    """The ways a struct and its members can be written."""
    c.src.append(open(os.path.join(VERIF, 'probes/syntax.rs')).read().replace('DERIVE', DERIVE))
    for line in c.src[-1].splitlines():
        for tag, lst in (('//@derived ', c.names), ('//@140 ', c.n140), ('//@430 ', c.n430)):
            if line.startswith(tag):
                lst.append(line[len(tag):].strip())


def pairs():
    c = Crate('probe_pairs')
    c.src.append(NEST)
    c.names += NESTED
    for i, a in enumerate(CLASSES):
        for j, b in enumerate(CLASSES):
            c.auto(f'P{i}_{j}', [a, b])
    return c


def shapes(rnd, name, counts):
    c = Crate(name)
    c.src.append(NEST)
    c.names += NESTED
    c.struct('Empty', [])
    for i, t in enumerate(ALL):
        c.auto(f'S{i}', [t])
    pool = CLASSES + NESTED
    prev = []
    for k, n in enumerate(counts):
        tys = []
        for _ in range(n):
            x = rnd.random()
            if x < 0.5:
                tys.append(rnd.choice(pool))
            elif x < 0.92 or not prev or n > 40:
                tys.append(rnd.choice(ALL))
            else:
                tys.append(rnd.choice(prev[-6:]))
        c.auto(f'R{k}', tys)
        if n <= 6:
            prev.append(f'R{k}')
    return c


def dynamics(rnd, name, n):
    """Members that are dynamic uniforms (alignment 256), in every position and next to every class."""
    c = Crate(name)
    c.src.append(NEST)
    d = 'crevice::std140::DynamicUniform<%s>'
    head = '#[derive(crevice::std140::AsStd140)]'
    k = 0

    def add(tys):
        nonlocal k
        c.struct(f'D{k}', [(f'm{i}', t) for i, t in enumerate(tys)], head)
        c.n140.append(c.names.pop())
        k += 1

    inner = ['f32', 'mint::Vector3<f32>', 'mint::Vector4<f64>', 'N12', 'mint::ColumnMatrix3<f32>']
    for i, a in enumerate(CLASSES):
        w = d % inner[i % len(inner)]
        add([a, w])
        add([w, a])
        add([d % a])
    for a in inner:
        for b in inner[:3]:
            add([d % a, d % b])
    add([d % (d % 'f32'), 'f32', d % 'bool'])
    for _ in range(n):
        tys = [rnd.choice(CLASSES) for _ in range(rnd.randint(2, 9))]
        for _ in range(rnd.randint(1, 2)):
            tys[rnd.randrange(len(tys))] = d % rnd.choice(inner)
        if rnd.random() < 0.3:
            tys[rnd.randrange(len(tys))] = f'D{rnd.randrange(max(1, k - 20), k)}'
        add(tys)
    return c


def triples(part, parts):
    c = Crate(f'probe_triples{part}')
    c.src.append(NEST)
    n = 0
    for i, a in enumerate(SMALL):
        for j, b in enumerate(SMALL):
            for k, d in enumerate(SMALL):
                n += 1
                if n % parts == part:
                    c.auto(f'T{i}_{j}_{k}', [a, b, d])
    return c


def main():
    out, tier, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    made = []

    def go(c):
        c.write(out)
        made.append(c.name)

    go(pairs())
    # the same structs in both tiers and for every seed
    go(shapes(random.Random(1), 'probe_shapes', list(range(1, 25)) * 2 + [27, 30, 33, 36, 40, 65, 130]))
    c = Crate('probe_syntax')
    c.src.append(NEST)
    syntax(c)
    go(c)
    for name, ed in (('probe_scope', '2021'), ('probe_scope18', '2018'), ('probe_scope24', '2024')):
        c = Crate(name)
        c.edition = ed
        c.src.append(open(os.path.join(VERIF, 'probes/scope.rs')).read().replace('DERIVEABS', DERIVE.replace('crevice::', '::crevice::')).replace('DERIVE', DERIVE))
        go(c)
    go(dynamics(random.Random(5), 'probe_dynamics', 20))
    if tier == 'thorough':
        for p in range(4):
            go(triples(p, 4))
        rnd = random.Random(seed * 7919 + 13)
        go(shapes(rnd, 'probe_random', [rnd.randint(1, 12) for _ in range(250)] + [rnd.randint(13, 60) for _ in range(30)]))
        go(dynamics(rnd, 'probe_dynrandom', 80))
        # a long one: does anything depend on the number of members?
        go(shapes(rnd, 'probe_long', [100, 255, 256, 257, 300]))
    print(' '.join(made))


main()
