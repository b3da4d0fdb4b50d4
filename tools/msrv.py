"""The declared minimum Rust version (C27): what crevice, its derives, the code they generate and its dependencies need."""
import json, os, re, subprocess
import configs, engine
from engine import VERIF, TARGET, REPO, Broken

# written in the source text and gone, or not told apart, in the compiler's tree
TEXT = [(r'\bcfg!?\s*\(\s*(?:\w+\s*\(\s*)*(?:true|false)\b', 88, 'cfg(true) or cfg(false)'), (r'\bcfg_select\s*!', 95, 'cfg_select!'), (r'\brepr\s*\([^)]*[ui]128', 89, 'a 128-bit enum representation'),
        (r'#!?\s*\[\s*optimize\s*\(', 102, '#[optimize]'), (r'\bunsafe\s*\(\s*naked\s*\)', 88, '#[unsafe(naked)]'), (r'\blabel\s*\{', 87, 'a label operand of asm!')]


def version(text):
    m = re.match(r'(\d+)\.(\d+)', text or '')
    return (int(m[1]), int(m[2])) if m else None


def metadata(d):
    r = subprocess.run(['cargo', '+nightly', 'metadata', '--offline', '--format-version', '1', '--filter-platform', engine.TRIPLE], cwd=d, env=engine.base_env(), capture_output=True, text=True)
    if r.returncode:
        raise Broken('cargo metadata: ' + r.stderr[-2000:])
    return json.loads(r.stdout)


def needs(meta, name):
    """The packages a build of `name` compiles, itself included."""
    pk = {p['id']: p for p in meta['packages']}
    nodes = {n['id']: n for n in meta['resolve']['nodes']}
    todo, seen = [p['id'] for p in meta['packages'] if p['name'] == name], set()
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        for d in nodes[i]['deps']:
            if any(k['kind'] != 'dev' for k in d['dep_kinds']):
                todo.append(d['pkg'])
    return [pk[i] for i in seen]


def strip(src):
    """Rust source without comments and the contents of strings."""
    out = re.sub(r'//[^\n]*', '', src)
    out = re.sub(r'/\*.*?\*/', lambda m: '\n' * m[0].count('\n'), out, flags=re.S)
    out = re.sub(r'r(#+)".*?"\1', lambda m: '""' + '\n' * m[0].count('\n'), out, flags=re.S)
    return re.sub(r'"(?:[^"\\\n]|\\.)*"', '""', out)


def documented():
    """The version promised in the crate documentation and the readme."""
    out = []
    for f in ('src/lib.rs', 'README.md', 'README.tpl'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            for m in re.finditer(r'supports? Rust (\d+\.\d+)', open(p).read()):
                out.append((f, version(m[1])))
    return out


def run(c, spec):
    def rule(name, ok, sample):
        r = c.rules.setdefault(name, [0, 0, 1])
        r[0] += 1
        r[1] += ok
        if ok and len(c.samples) < 6:
            c.samples.append(f'{name}: {sample}')
    gen = c.corpora(['probe_shapes'])
    meta = metadata(os.path.join(VERIF, 'probes/main'))
    me = next(p for p in meta['packages'] if p['name'] == 'crevice')
    doc = documented()
    declared = [v for v in [version(me['rust_version'])] + [v for _, v in doc] if v]
    if not declared:
        c.violation('msrv.declared', 'no version', 'crevice declares no minimum Rust version', 'Cargo.toml')
        return
    low = min(declared)
    if low[0] != 1:
        raise Broken(f'minimum version {low}')
    for p in needs(meta, 'crevice'):
        v = version(p['rust_version'])
        ok = v is None or v <= low
        edition = {'2015': 0, '2018': 31, '2021': 56, '2024': 85}.get(p['edition'], 999)
        rule('msrv.dependencies', ok and edition <= low[1], f"{p['name']} {p['version']} asks for Rust {p['rust_version'] or 'any'}, edition {p['edition']}")
        if not ok:
            c.violation('msrv.dependencies', f"{p['name']} asks for Rust 1.{v[1]}", f"{p['name']} {p['version']} asks for Rust {p['rust_version']}, crevice promises 1.{low[1]}", 'Cargo.toml' if p['name'] != 'crevice' else ', '.join(f for f, d in doc))
        elif edition > low[1]:
            c.violation('msrv.dependencies', f"{p['name']} edition {p['edition']}", f"{p['name']} is written in edition {p['edition']}, which Rust has since 1.{edition}; crevice promises 1.{low[1]}", 'Cargo.toml')
    for base in ('src', 'crevice-derive/src'):
        for d, _, fs in sorted(os.walk(os.path.join(REPO, base))):
            for f in sorted(fs):
                if not f.endswith('.rs'):
                    continue
                path = os.path.relpath(os.path.join(d, f), REPO)
                text = strip(open(os.path.join(d, f)).read())
                for rx, since, what in TEXT:
                    m = re.search(rx, text)
                    bad = m and since > low[1]
                    if bad:
                        c.violation('msrv.text', f'{path}: {what}', f'{path} uses {what}, which Rust has since 1.{since}; the crate promises to build with 1.{low[1]}', f'{path}:{text[:m.start()].count(chr(10)) + 1}')
                    rule('msrv.text', not bad, f'{path}: no {what}')
    tgt = os.path.join(TARGET, 'cfg')
    os.makedirs(tgt, exist_ok=True)
    engine.forget(tgt)
    tasks = []

    def add(p, err, groups, label):
        if p is None:
            raise Broken(f'cannot compile crevice ({label}):\n{err[-2000:]}')
        tasks.append(dict(plan=p, groups=groups, shard=(0, 1), only='', tier=c.tier, label=label))
    os.environ['CREVICE_VERIF_MSRV'] = str(low[1])
    C = configs.Config
    for k in [C(True, []), C(False, []), C(True, configs.LIBS), C(False, configs.LIBS), C(True, [], debug=True)]:
        d = configs.write(k, os.path.join(TARGET, 'gen'))
        # each crate is compiled once for each set of features
        if k.std and not k.libs:
            add(*engine.plan(d, 'crevice_derive', tgt), 'msrv_lib', k.name)
        if not k.debug:
            add(*engine.plan(d, 'crevice', tgt), 'msrv_lib', k.name)
        add(*engine.plan(d, k.name, tgt), 'msrv_derived', k.name)
    main = os.path.join(TARGET, 'probe')
    os.makedirs(main, exist_ok=True)
    engine.forget(main)
    for n in ['probe_shapes', 'probe_syntax', 'probe_scope']:
        add(*engine.plan(os.path.join(gen, n), n, main), 'msrv_derived', n)
    for r in engine.run_all(tasks):
        c.take(r, spec['rules'], where=r.task['label'].replace('probe_cfg_', ''))
    c.extra['minimum'] = f'1.{low[1]}'
    c.extra['configurations'] = [t['label'] + ' ' + t['plan']['name'] for t in tasks]
