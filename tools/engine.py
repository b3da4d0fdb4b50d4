"""Runs the analyser over crevice as it is now: plans the compilations with cargo, then analyses in parallel."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('CREVICE_REPO', '/repo')
TARGET = os.environ.get('CREVICE_VERIF_TARGET', os.path.join(VERIF, 'target'))
ANALYZER = os.path.join(VERIF, 'target/analyzer/release/crevice-analyzer')
SYSROOT = os.path.join(VERIF, 'target/sysroot')
TRIPLE = 'x86_64-unknown-linux-gnu'
WORKERS = min(8, os.cpu_count() or 4)
LIB = None


class Broken(Exception):
    """The check itself cannot answer."""


def toolchain_lib():
    global LIB
    if LIB is None:
        LIB = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True, check=True).stdout.strip() + '/lib'
    return LIB


def base_env():
    e = {k: v for k, v in os.environ.items() if k == 'CREVICE_VERIF_MSRV' or not k.startswith(('CREVICE_', 'RUSTFLAGS', 'RUSTC', 'CARGO_BUILD', 'CARGO_TARGET', 'CARGO_ENCODED'))}
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    return e


def analysis_env():
    e = base_env()
    e['LD_LIBRARY_PATH'] = toolchain_lib()
    e['RUSTC_WRAPPER'] = ANALYZER
    e['RUSTFLAGS'] = f'-Zalways-encode-mir --sysroot={SYSROOT} -Zmir-opt-level=0 -Zinline-mir=no'
    return e


def forget(target, triple=TRIPLE):
    """Make cargo compile crevice and its clients again, whatever the time stamps say."""
    for base in (os.path.join(target, triple, 'debug'), os.path.join(target, 'debug')):
        for sub in ('.fingerprint', 'build', 'incremental'):
            root = os.path.join(base, sub)
            if os.path.isdir(root):
                for d in os.listdir(root):
                    if d.startswith(('crevice', 'probe')):
                        shutil.rmtree(os.path.join(root, d), ignore_errors=True)


# crevice and its client as in a release build; the other dependencies stay as they are
RELEASE = [x for k, v in (('profile.dev', 'false'), ('profile.dev.package."*"', 'true'), ('profile.dev.package.crevice', 'false'), ('profile.dev.package.crevice-derive', 'false'))
           for y in ('debug-assertions', 'overflow-checks') for x in ('--config', f'{k}.{y}={v}')]


def mentions_debug():
    for base in ('src', 'crevice-derive/src'):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            for f in fs:
                if f.endswith('.rs') and re.search(r'debug_assert|overflow_checks', re.sub(r'//.*', '', open(os.path.join(d, f)).read())):
                    return True
    return False


def plan(crate_dir, name, target, extra=()):
    """How would cargo compile this crate?  Compiles its dependencies, crevice included."""
    rec = os.path.join(target, f'plan_{name}_{os.getpid()}.json')
    if os.path.exists(rec):
        os.remove(rec)
    e = analysis_env()
    e.update(CREVICE_VERIF_CRATE=name, CREVICE_VERIF_RECORD=rec, CARGO_TARGET_DIR=target)
    r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--target', TRIPLE, *extra], cwd=crate_dir, env=e, capture_output=True, text=True)
    if not os.path.exists(rec):
        return None, r.stderr
    p = json.load(open(rec))
    os.remove(rec)
    p['name'] = name
    p['env'] = [x for x in p['env'] if 'MAKEFLAGS' not in x[0]]
    return p, r.stderr


class Result:
    def __init__(self, task, data, err):
        self.task, self.data, self.err = task, data, err


def analyse(task):
    """task: dict(plan, groups, shard=(k,n), only, tier)"""
    p = task['plan']
    os.makedirs(os.path.join(TARGET, 'out'), exist_ok=True)
    out = os.path.join(TARGET, 'out', f"{p['name']}_{task.get('label', '')}{task['groups'].replace(',', '_')[:60]}_{task['shard'][0]}_{task['shard'][1]}_{os.getpid()}.json")
    e = analysis_env()
    for k, v in p['env']:
        e[k] = v
    e.update(CREVICE_VERIF_CRATE=p['name'], CREVICE_VERIF_OUT=out, CREVICE_VERIF_GROUPS=task['groups'], CREVICE_VERIF_TIER=task['tier'],
             CREVICE_VERIF_SHARD='%d/%d' % task['shard'])
    if task.get('strict'):
        e['CREVICE_VERIF_STRICT'] = '1'
    if task.get('only'):
        e['CREVICE_VERIF_ONLY'] = task['only']
    t = time.time()
    try:
        r = subprocess.run([ANALYZER, *p['args']], cwd=p['cwd'], env=e, capture_output=True, text=True, timeout=task.get('timeout', 780))
        err = '\n'.join(l for l in r.stderr.splitlines() if not l.startswith('{"$message_type":"artifact"'))
        if r.returncode < 0:
            err += f'\nended by signal {-r.returncode}'
    except subprocess.TimeoutExpired:
        return Result(task, None, 'analysis timed out')
    data = None
    if os.path.exists(out):
        data = json.load(open(out))
        os.remove(out)
        data['wall'] = time.time() - t
    return Result(task, data, err)


def compiler_errors(text):
    """Human or JSON diagnostics -> list of error texts"""
    out = []
    for line in text.splitlines():
        if line.startswith('{'):
            try:
                j = json.loads(line)
            except ValueError:
                continue
            m = j.get('message', j)
            if isinstance(m, dict):
                j = m
            if j.get('level') == 'error' and not str(j.get('message', '')).startswith(('aborting due', 'could not compile')):
                at = ''
                for s in j.get('spans', []):
                    if s.get('is_primary'):
                        at = f"{s['file_name']}:{s['line_start']}"
                out.append((j['message'], at))
        elif line.startswith('error'):
            out.append((line, ''))
    return out


def run_all(tasks, workers=WORKERS):
    with cf.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(analyse, tasks))
