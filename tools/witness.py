"""Compile-fail witnesses (C18): client declarations the derives must reject, each next to an accepted twin."""
import concurrent.futures as cf
import json, os, shutil, subprocess
import engine

LAYOUT = {'AsStd140': 'crevice::std140::AsStd140', 'AsStd430': 'crevice::std430::AsStd430', 'GlslStruct': 'crevice::glsl::GlslStruct'}
PRE = '''#![allow(dead_code, unused, improper_ctypes_definitions)]
pub struct Plain { pub a: f32 }
#[derive(Clone, Copy)] pub struct PlainCopy { pub a: f32 }
#[derive(Clone, Copy)] pub struct Param<T>(pub T);
pub enum Choice { A, B }
pub union Either { pub a: f32, pub b: u32 }
#[derive(crevice::std140::AsStd140)] pub struct Has140 { pub a: f32, pub v: mint::Vector3<f32> }
#[derive(crevice::std430::AsStd430)] pub struct Has430 { pub a: f32, pub v: mint::Vector3<f32> }
#[derive(crevice::glsl::GlslStruct)] pub struct HasGlsl { pub a: f32, pub v: mint::Vector3<f32> }
#[derive(crevice::std140::AsStd140, crevice::std430::AsStd430, crevice::glsl::GlslStruct)] pub struct HasAll { pub a: f32, pub v: mint::Vector3<f32> }
pub trait Tr {}
'''
# kind of item -> declaration (D is replaced by the derive)
ITEMS = {
    'tuple struct': 'D pub struct X(pub f32, pub mint::Vector3<f32>);',
    'one-member tuple struct': 'D pub struct X(pub f32);',
    'transparent tuple struct': 'D #[repr(transparent)] pub struct X(pub mint::Vector3<f32>);',
    'empty tuple struct': 'D pub struct X();',
    'unit struct': 'D pub struct X;',
    'unit-only enum': 'D pub enum X { A, B }',
    'repr(u32) enum': 'D #[derive(Clone, Copy)] #[repr(u32)] pub enum X { A = 0, B = 1 }',
    'one-variant enum': 'D pub enum X { A { a: f32 } }',
    'enum with data': 'D pub enum X { A(f32), B { v: mint::Vector3<f32> } }',
    'empty enum': 'D pub enum X {}',
    'union': 'D #[derive(Clone, Copy)] pub union X { pub a: f32, pub b: u32 }',
    'one-member union': 'D #[derive(Clone, Copy)] #[repr(C)] pub union X { pub a: f32 }',
}
MEMBERS = '''u8 i8 u16 i16 u64 i64 u128 i128 usize isize char () ! str String &'static_str &'static_f32 &'static_[f32] &'static_mut_f32 *const_f32
[f32;_4] [f32;_1] [f32;_0] [f32;_16] [[f32;_4];_4] [mint::Vector4<f32>;_2] [HasAll;_2] [u8;_4] [bool;_2] (f32,) (f32,_f32) (f32,_f32,_f32) ((),) Option<f32> Option<mint::Vector3<f32>> Option<bool> Result<f32,_()> Vec<f32> Box<f32>
Box<mint::Vector3<f32>> Box<HasAll> Box<dyn_Tr> std::rc::Rc<f32> std::sync::Arc<f32> std::cell::Cell<f32> std::cell::RefCell<f32> std::cell::UnsafeCell<f32> std::mem::MaybeUninit<f32> std::mem::ManuallyDrop<f32>
std::num::Wrapping<u32> std::num::NonZeroU32 std::num::NonZeroI32 Option<std::num::NonZeroU32> std::sync::atomic::AtomicU32 std::sync::atomic::AtomicBool std::pin::Pin<&'static_f32>
std::marker::PhantomData<f32> std::marker::PhantomPinned std::cmp::Ordering std::cmp::Reverse<f32> std::time::Duration std::ops::Range<f32> fn() fn(f32)_->_f32 std::collections::HashMap<u32,_f32> std::borrow::Cow<'static,_str>
mint::Vector2<u8> mint::Vector3<u8> mint::Vector4<u8> mint::Vector4<i8> mint::Vector2<u16> mint::Vector4<i16> mint::Vector2<u64> mint::Vector3<i64> mint::Vector4<usize> mint::Vector3<isize> mint::Vector2<char> mint::Vector3<()> mint::Vector2<mint::Vector2<f32>>
mint::Point2<u8> mint::Point3<i64> mint::Point3<u16> mint::Point2<usize>
mint::ColumnMatrix2<i32> mint::ColumnMatrix3<u32> mint::ColumnMatrix4<i32> mint::ColumnMatrix2<bool> mint::ColumnMatrix3<bool> mint::ColumnMatrix4<u8> mint::ColumnMatrix4<i64>
mint::RowMatrix2<f32> mint::RowMatrix3<f32> mint::RowMatrix4<f32> mint::RowMatrix2<f64> mint::RowMatrix3<f64> mint::RowMatrix4<f64> mint::RowMatrix3<i32> mint::RowMatrix4<bool>
mint::Quaternion<f32> mint::Quaternion<f64> mint::EulerAngles<f32,_mint::IntraXYZ>
cgmath::Quaternion<f32> cgmath::Vector1<f32> cgmath::Rad<f32> cgmath::Deg<f32> cgmath::Euler<cgmath::Rad<f32>> cgmath::Vector4<u8> cgmath::Vector3<i64> cgmath::Point3<u8> cgmath::Point1<f32> cgmath::Matrix3<i32> cgmath::Matrix4<u32> cgmath::Basis3<f32> cgmath::Perspective<f32> cgmath::Decomposed<cgmath::Vector3<f32>,_cgmath::Quaternion<f32>>
glam::Quat glam::DQuat glam::Affine2 glam::Affine3A glam::DAffine3
nalgebra::Vector3<u8> nalgebra::Vector4<i64> nalgebra::Vector4<u16> nalgebra::Point3<u8> nalgebra::Matrix3<i32> nalgebra::Matrix4<u32> nalgebra::Matrix2<bool> nalgebra::Quaternion<f32> nalgebra::UnitQuaternion<f32> nalgebra::Rotation3<f32> nalgebra::RowVector3<f32> nalgebra::RowVector4<f64>
nalgebra::Isometry3<f32> nalgebra::Similarity3<f32> nalgebra::Perspective3<f32> nalgebra::Translation3<f32>
Plain PlainCopy Param<f32> Choice Either'''.replace('\n', ' ').split()
MEMBERS = [m.replace('_', ' ') if "'static_" in m or ';_' in m or ',_' in m or m.startswith(('*', 'Box<dyn', 'fn')) else m for m in MEMBERS]
# wrong only for one derive
SPECIAL = {
    'AsStd140': ['Has430', 'HasGlsl', 'crevice::std430::Vec3', 'crevice::std430::Vec2', 'crevice::std430::Mat3', 'crevice::std430::DVec4', 'crevice::std140::DynamicUniform<u8>', 'crevice::std140::DynamicUniform<Plain>', 'crevice::std140::DynamicUniform<crevice::std430::Vec3>',
                 '<Has430 as crevice::std430::AsStd430>::Output'],
    'AsStd430': ['Has140', 'HasGlsl', 'crevice::std140::Vec3', 'crevice::std140::Vec2', 'crevice::std140::Mat3', 'crevice::std140::DVec4', '<Has140 as crevice::std140::AsStd140>::Output',
                 'crevice::std140::DynamicUniform<f32>', 'crevice::std140::DynamicUniform<HasAll>'],
    'GlslStruct': ['Has140', 'Has430'],
}
TWINS = ['f32', 'f64', 'i32', 'u32', 'bool', 'mint::Vector3<f32>', 'mint::ColumnMatrix3<f64>', 'HasAll', 'cgmath::Point3<f32>', 'glam::Mat4', 'nalgebra::Vector4<u32>']
TWIN_SPECIAL = {'AsStd140': ['Has140', 'crevice::std140::Vec3', 'crevice::std140::DynamicUniform<f32>'], 'AsStd430': ['Has430', 'crevice::std430::Vec3'], 'GlslStruct': ['HasGlsl']}


def cases():
    out = []  # (derive, kind, source, must compile)
    for d, path in LAYOUT.items():
        head = f'#[derive({path})]'
        for k, decl in ITEMS.items():
            out.append((d, k, decl.replace('D', head, 1), False))
        for m in MEMBERS + SPECIAL[d]:
            out.append((d, f'member {m}', f'{head} pub struct X {{ pub before: f32, pub m: {m}, pub after: mint::Vector3<f32> }}', False))
            if m in ('u8', 'String', 'i64', 'Plain', '[f32; 4]', 'mint::RowMatrix3<f32>', 'Option<f32>', '()'):
                out.append((d, f'only member {m}', f'{head} pub struct X {{ m: {m} }}', False))
                out.append((d, f'last member {m}', f'{head} pub struct X {{ a: f32, b: f64, m: {m} }}', False))
        for m in TWINS + TWIN_SPECIAL[d]:
            out.append((d, f'member {m}', f'{head} pub struct X {{ pub before: f32, pub m: {m}, pub after: mint::Vector3<f32> }}', True))
        out.append((d, 'empty named struct', f'{head} pub struct X {{}}', True))
    return out


def compile_one(plan, src_dir, i, text):
    src = os.path.join(src_dir, f'w{i}.rs')
    with open(src, 'w') as f:
        f.write(text)
    args, skip = [], False
    it = iter(plan['args'][1:])
    for a in it:
        if a in ('--crate-name', '--error-format', '--json', '--out-dir', '--emit', '-C', '--color', '--diagnostic-width'):
            v = next(it)
            if a == '-C' and not v.startswith(('metadata', 'extra-filename', 'incremental')):
                args += [a, v]
            continue
        if a.startswith(('--error-format', '--json', '--out-dir', '--emit', '--diagnostic-width', '--color')) or a.endswith('.rs'):
            continue
        args.append(a)
    e = engine.base_env()
    e['LD_LIBRARY_PATH'] = engine.toolchain_lib()
    for k, v in plan['env']:
        e[k] = v
    r = subprocess.run([plan['args'][0], '--crate-name', f'w{i}', src, '--emit=metadata', '--out-dir', src_dir, '--error-format=json', *args], cwd=plan['cwd'], env=e, capture_output=True, text=True, timeout=120)
    errs = []
    for m, at in engine.compiler_errors(r.stderr):
        errs.append((m, at))
    for suf in (f'w{i}.rs', f'libw{i}.rmeta'):
        p = os.path.join(src_dir, suf)
        if os.path.exists(p):
            os.remove(p)
    return r.returncode, errs, r.stderr


def compile_many(plan, texts):
    d = os.path.join(engine.TARGET, f'cf_{os.getpid()}')
    os.makedirs(d, exist_ok=True)
    try:
        with cf.ThreadPoolExecutor(engine.WORKERS) as ex:
            return list(ex.map(lambda x: compile_one(plan, d, x[0], x[1]), enumerate(texts)))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(c, spec):
    plan = c.plans(['main'])['main']
    cs = cases()
    res = compile_many(plan, [PRE + x[2] + '\n' for x in cs])
    decl_line = PRE.count('\n') + 1
    twins_ok = {}
    for (d, k, src, ok), (rc, errs, err) in zip(cs, res):
        if 'internal compiler error' in err:
            raise engine.Broken(err[-2000:])
        rule = f'reject.{d}' if not ok else f'accept.{d}'
        r = c.rules.setdefault(rule, [0, 0, 1])
        r[0] += 1
        outside = [e for e in errs if e[1] and not e[1].endswith(f':{decl_line}')]
        if ok and rc == 0 or not ok and rc != 0 and (not outside or len(outside) < len(errs)):
            r[1] += 1
            if k in ('union', 'member u8', 'tuple struct') or not ok and len(c.samples) < 9:
                c.samples.append(f'{d} on {k}: ' + (errs[0][0] if errs else 'compiles'))
        elif ok:
            c.violation(rule, f'{d} {k}', f'the accepted twin of the witnesses no longer compiles: {d} on a struct with {k}: {errs[0][0] if errs else err[-300:]}', src)
        elif rc == 0:
            c.violation(rule, f'{d} {k}', f'derive({d}) accepts {k}', src)
        else:
            raise engine.Broken(f'witness fails for a reason of its own: {d} {k}: {errs}')
    c.programs = len(cs)
    c.extra['item_kinds'] = len(ITEMS)
    c.extra['member_types'] = len(MEMBERS) + sum(len(v) for v in SPECIAL.values())
