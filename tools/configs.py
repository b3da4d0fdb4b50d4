"""Feature configurations (C21): one client crate per configuration, analysed with the same rules and the same oracle."""
import itertools, os, re, subprocess
import engine
from engine import VERIF, TARGET, REPO, Broken

LIBS = ['cgmath', 'glam', 'nalgebra']
DEPS = {'mint': 'mint = "0.5.9"', 'bytemuck': 'bytemuck = "1.12.3"',
        'cgmath': 'cgmath = { version = "0.18.0", default-features = false }',
        'glam': 'glam = { version = "0.33", default-features = false, features = ["mint", "i32", "u32", "f64", "std", "scalar-math"] }',
        'nalgebra': 'nalgebra = { version = "0.35", default-features = false, features = ["mint"] }'}
CLASSES = ['f32', 'f64', 'bool', 'u32', 'mint::Vector2<f32>', 'mint::Vector3<f32>', 'mint::Vector4<f32>', 'mint::Vector3<f64>', 'mint::Point3<i32>', 'mint::Vector3<bool>',
           'mint::ColumnMatrix2<f32>', 'mint::ColumnMatrix3<f32>', 'mint::ColumnMatrix3<f64>', 'mint::ColumnMatrix4<f32>', 'In4', 'In12']
LIBCLASSES = {'cgmath': ['cgmath::Vector3<f32>', 'cgmath::Matrix3<f32>', 'cgmath::Point3<f64>'], 'glam': ['glam::Vec3', 'glam::Mat3', 'glam::UVec2'],
              'nalgebra': ['nalgebra::Vector3<f32>', 'nalgebra::Matrix3<f64>', 'nalgebra::Point2<bool>']}


class Config:
    def __init__(self, std, libs, debug=False, all_math=False):
        self.std, self.libs, self.debug, self.all_math = std, list(libs), debug, all_math

    @property
    def name(self):
        return 'probe_cfg_' + ('std' if self.std else 'core') + ''.join('_' + l for l in self.libs) + ('_debug' if self.debug else '') + ('_allmath' if self.all_math else '')

    @property
    def text(self):
        f = (['std'] if self.std else []) + (['test-all-math-libraries'] if self.all_math else self.libs) + (['crevice-derive/debug-methods'] if self.debug else [])
        return 'features [' + ', '.join(f) + ']'

    def features(self):
        return (['std'] if self.std else []) + (['test-all-math-libraries'] if self.all_math else self.libs)


def all_configs():
    out = []
    for std in (True, False):
        for n in range(4):
            for libs in itertools.combinations(LIBS, n):
                out.append(Config(std, libs))
    out += [Config(True, [], debug=True), Config(True, LIBS, debug=True), Config(True, LIBS, all_math=True)]
    return out


def strip(text, std):
    if std:
        return text
    return re.sub(r'^ *// std\n.*?^ *// end\n', '', text, flags=re.S | re.M)


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, 'w') as f:
            f.write(text)


def write(c, out):
    d = os.path.join(out, c.name)
    deps = [f'crevice = {{ path = "{REPO}", default-features = false, features = [{", ".join(chr(34) + f + chr(34) for f in c.features())}] }}']
    if c.debug:
        deps.append(f'crevice-derive = {{ path = "{REPO}/crevice-derive", features = ["debug-methods"] }}')
    deps += [DEPS['mint'], DEPS['bytemuck']] + [DEPS[l] for l in c.libs]
    put(os.path.join(d, 'Cargo.toml'), f'[package]\nname = "{c.name}"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n' + '\n'.join(deps) + '\n')
    common = os.path.join(VERIF, 'probes/common')
    src = '#![allow(dead_code, unused, non_snake_case, non_camel_case_types)]\n'
    if not c.std:
        src += '#![no_std]\n'
    src += 'pub mod probe {\n' + strip(re.sub(r'^//!.*\n', '', open(os.path.join(common, 'probe.rs')).read(), flags=re.M), c.std) + '}\nuse bytemuck as _;\n'
    src += strip(open(os.path.join(common, 'entries.rs')).read(), c.std)
    for line in open(os.path.join(VERIF, 'probes/main/src/types.rs')):
        m = re.match(r'pub fn (\w+)\(\) -> \((.*),\) \{ loop \{\} \}', line)
        if m:
            tys = [t for t in m[2].split(', ') if t.split('::')[0] not in LIBS or t.split('::')[0] in c.libs]
            if tys:
                src += f'pub fn {m[1]}() -> ({", ".join(tys)},) {{ loop {{}} }}\n'
    derive = 'crevice::std140::AsStd140, crevice::std430::AsStd430' + (', crevice::glsl::GlslStruct' if c.std else '')
    names = []

    def struct(name, tys):
        nonlocal src
        names.append(name)
        src += f'#[derive({derive})]\npub struct {name} {{ ' + ', '.join(f'pub m{i}: {t}' for i, t in enumerate(tys)) + ' }\n'

    struct('In4', ['f32'])
    struct('In12', ['mint::Vector3<f32>'])
    pool = CLASSES + [t for l in c.libs for t in LIBCLASSES[l]]
    for i, a in enumerate(pool):
        struct(f'A{i}', [a, pool[(i * 5 + 3) % len(pool)], pool[(i * 7 + 1) % len(pool)]])
        struct(f'B{i}', ['f32', a, 'f32'])
    struct('Long', pool)
    struct('Empty', [])
    for i in range(0, len(names), 40):
        src += f'pub fn derived__{i}() -> ({", ".join(names[i:i + 40])},) {{ loop {{}} }}\n'
    put(os.path.join(d, 'src/lib.rs'), src)
    lock = os.path.join(d, 'Cargo.lock')
    if not os.path.exists(lock):
        put(lock, open(os.path.join(VERIF, 'probes/main/Cargo.lock')).read().replace('probe_main', c.name))
    return d


NONE = 'x86_64-unknown-none'


def bare_target(c, target, only_deps=False):
    """Compile crevice and a client for a target that has no std."""
    d = write(Config(False, []), os.path.join(TARGET, 'gen'))
    e = engine.base_env()
    e['CARGO_TARGET_DIR'] = target
    r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '-Zbuild-std=core', '--target', NONE, '--message-format=json'], cwd=d, env=e, capture_output=True, text=True)
    return r


def setup():
    tgt = os.path.join(TARGET, 'cfg')
    os.makedirs(tgt, exist_ok=True)
    for c in all_configs():
        d = write(c, os.path.join(TARGET, 'gen'))
        engine.plan(d, c.name, tgt)
    engine.forget(tgt)
    bare_target(None, os.path.join(TARGET, 'bare'))
    engine.forget(os.path.join(TARGET, 'bare'), NONE)


GROUPS = 'layout,align,to,from,rt,names,pod,bytes,sizerabs'


def run(c, spec):
    tgt = os.path.join(TARGET, 'cfg')
    os.makedirs(tgt, exist_ok=True)
    engine.forget(tgt)
    tasks = []
    cs = all_configs()
    for k in cs:
        # the crate itself, without std: what does it link?
        if not k.std:
            q, err = engine.plan(write(k, os.path.join(TARGET, 'gen')), 'crevice', tgt)
            if q is not None:
                tasks.append(dict(plan=q, groups='linked', shard=(0, 1), only='', tier=c.tier, label=k.name))
    for k in cs:
        d = write(k, os.path.join(TARGET, 'gen'))
        p, err = engine.plan(d, k.name, tgt)
        r = c.rules.setdefault('configuration.compiles', [0, 0, 1])
        r[0] += 1
        if p is None:
            errs = [x for x in engine.compiler_errors(err)]
            if k.features() == ['std']:
                raise Broken('crevice does not compile with its default features:\n' + err[-2000:])
            c.violation('configuration.compiles', k.text, f'crevice with {k.text} does not compile: {errs[0][0] if errs else err[-300:]}', locate(err))
            continue
        r[1] += 1
        tasks.append(dict(plan=p, groups=GROUPS + (',write,sizes,sizer,definitions' if k.std and c.tier == 'thorough' else ''), shard=(0, 1), only='', tier=c.tier))
    for res in engine.run_all(tasks):
        c.take(res, spec['rules'], where=(res.task.get('label') or res.task['plan']['name']).replace('probe_cfg_', ''))
    bare = os.path.join(TARGET, 'bare')
    engine.forget(bare, NONE)
    b = bare_target(c, bare)
    r = c.rules.setdefault('configuration.core_only', [0, 0, 1])
    r[0] += 1
    if b.returncode == 0:
        r[1] += 1
        c.samples.append(f'configuration.core_only: crevice and a client with derives compile for {NONE}')
    else:
        errs = engine.compiler_errors(b.stdout + b.stderr)
        c.violation('configuration.core_only', NONE, f'crevice without std does not compile for {NONE}, which has only core: {errs[0][0] if errs else b.stderr[-400:]}', errs[0][1] if errs else '')
    c.extra['configurations'] = [k.text for k in cs]


def locate(err):
    m = re.search(r'--> (\S+)', err[err.find('error'):])
    return m[1] if m else ''
