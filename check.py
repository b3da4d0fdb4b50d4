#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property of crevice from its current source."""
import json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import engine
from engine import VERIF, TARGET, Broken
import clients
import configs
import msrv
import witness
from texts import TEXT

MAIN = 'main'
CORE_CORPORA = ['probe_pairs', 'probe_shapes', 'probe_syntax', 'probe_scope', 'probe_dynamics']
DEEP_CORPORA = [f'probe_triples{i}' for i in range(4)] + ['probe_random', 'probe_long', 'probe_dynrandom']

DERIVED = 'layout,align,to,from,rt,names,definitions,pod,bytes'

# property -> what to analyse and which rules decide it
#   main / corpora / syntax: (groups, number of processes)
P = {
    'C01': dict(level='proof', rules=r'layout\.std140\.layout|to\.std140\.layout\.(place|size)', main=[('layout,to', 1)]),
    'C02': dict(level='proof', rules=r'layout\.std430\.layout|to\.std430\.layout\.(place|size)', main=[('layout,to', 1)]),
    'C03': dict(level='translation_validation', rules=r'layout\.std140\.derived', corpora=[('layout', 1)]),
    'C04': dict(level='translation_validation', rules=r'layout\.std430\.derived', corpora=[('layout', 1)]),
    'C05': dict(level='translation_validation', rules=r'pod', main=[('pod', 1)], corpora=[('pod', 1)]),
    'C06': dict(level='translation_validation', rules=r'to\.\w+\.\w+\.(pad|panic)', main=[('to,dynamic', 2)], corpora=[('to', 2)]),
    'C07': dict(level='translation_validation', rules=r'to\.\w+\.\w+\.(place|size|bool|panic)', main=[('to', 2)], corpora=[('to', 2)]),
    'C08': dict(level='translation_validation', rules=r'rt\.|from\.\w+\.\w+\.(place|panic)', main=[('from,rt', 3)], corpora=[('from,rt', 3)]),
    'C09': dict(level='translation_validation', rules=r'(to|from)\.\w+\.\w+\.(bool|panic)', main=[('to,from', 3)], corpora=[('to,from', 3)]),
    'C10': dict(level='proof', rules=r'(write|fault)\.', main=[('fault', 12), ('write', 3)], syntax=[('write', 1)]),
    'C11': dict(level='other', rules=r'slice\.', main=[('slice', 12)], syntax=[('slice', 2)]),
    'C12': dict(level='fault_enumeration', rules=r'fault\.', main=[('fault', 14)], syntax=[('fault', 2)]),
    'C13': dict(level='proof', rules=r'sizer\.', main=[('sizer', 6)], syntax=[('sizer', 1)]),
    'C14': dict(level='other', rules=r'sizes\.', main=[('sizes', 3)], corpora=[('sizes', 1)]),
    'C15': dict(level='proof', rules=r'dynamic|(layout|to|from|rt|align|bytes|write)\..*', main=[('dynamic', 2)], syntax=[('dynamic', 1)]),
    'C16': dict(level='proof', rules=r'names', main=[('names', 1)], corpora=[('names', 1)]),
    'C17': dict(level='translation_validation', rules=r'definitions', corpora=[('definitions', 1)]),
    'C18': dict(level='other', run=witness.run),
    'C19': dict(level='translation_validation', rules=r'(layout|to|from|rt)\.\w+\.derived|names|definitions|pod|bytes\.|align\.', crates={
        'probe_scope': [(DERIVED, 1)], 'probe_scope18': [(DERIVED, 1)], 'probe_scope24': [(DERIVED, 1)], 'probe_syntax': [(DERIVED, 1)], 'probe_shapes': [('layout', 1)]}),
    'C20': dict(level='proof', rules=r'coverage\.', main=[('coverage', 1)]),
    'C21': dict(level='proof', rules=r'.*', run=configs.run),
    'C22': dict(level='translation_validation', rules=r'bytes\.', main=[('bytes', 1)], corpora=[('bytes', 1)]),
    'C23': dict(level='other', rules=r'.*\.panic', main=[('slice', 8), ('fault', 8), ('to,from,rt,write,sizer,sizes,bytes', 4)], syntax=[('to,from,rt,write,slice,fault,sizer,sizes,bytes', 2)]),
    'C24': dict(level='translation_validation', rules=r'align\.', main=[('align', 1)], corpora=[('align', 1)]),
    'C25': dict(level='other', rules=r'stride\.', main=[('stride', 1)], corpora=[('stride', 1)]),
    'C30': dict(level='other', strict=True, rules=r'.*', main=[('slice', 8), ('fault', 8), ('to,from,rt,write,sizer,sizes,bytes,dynamic', 4)], syntax=[('to,from,rt,write,slice,fault,sizer,sizes,bytes,dynamic,definitions', 2)], corpora=[('to,rt,bytes', 1)]),
    'C27': dict(level='other', rules=r'msrv\.', run=msrv.run),
    'C28': dict(level='proof', rules=r'effects\.(lib|derived)', libs={'crevice': 'effects_lib'}, corpora=[('effects_derived', 1)]),
    'C31': dict(level='other', run=clients.run_safety),
    'C32': dict(level='other', run=clients.run_freedom),
    'C33': dict(level='other', rules=r'life\.', main=[('life', 6)], syntax=[('life', 1)]),
    'C29': dict(level='proof', rules=r'effects\.derive$', libs={'crevice_derive': 'effects_derive'}),
}

TRUST = ['rustc (nightly) front end, trait resolution, MIR construction and type layout', 'the analyser in /verif/analyzer (abstract MIR semantics, oracle of the GLSL rules)',
         'MIR of core/std/alloc built from rust-src by the same compiler']


def known():
    """Open findings: property -> {key: text}"""
    out = {}
    for line in open(os.path.join(VERIF, 'known_findings.txt')):
        m = re.match(r'KNOWN property=(\w+) key=(.*?) :: (.*)$', line.strip())
        if m:
            out.setdefault(m[1], {})[m[2]] = m[3]
    return out


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.violations, self.undecided, self.notes = [], [], []
        self.rules, self.samples, self.programs = {}, [], 0
        self.functions, self.steps, self.npaths, self.crates = set(), 0, 0, []
        self.extra = {}

    def log(self, *a):
        print(*a, flush=True)

    def violation(self, rule, key, what, at=''):
        self.violations.append(dict(rule=rule, key=key, what=what, at=at))

    # -- analyser runs

    def take(self, res, rules, where=None):
        d = res.data
        name = where or res.task['plan']['name']
        if d is None:
            errs = engine.compiler_errors(res.err)
            if errs and not any('panicked' in l for l in res.err.splitlines()):
                for m, at in errs[:5]:
                    self.violation('compiles', f'{name}: {m}', f'supported client code ({name}) no longer compiles against crevice: {m}', at)
                return
            raise Broken(f'{name}: ' + res.err[-3000:])
        rx = re.compile(rules)
        for r in d['rules']:
            if rx.match(r['rule']):
                o = self.rules.setdefault(r['rule'], [0, 0, 0])
                o[0] += r['obligations']
                o[1] += r['discharged']
                o[2] += r['paths']
                if len(self.samples) < 12:
                    self.samples += [f"{r['rule']}: {s}" for s in r['samples'][:1 if len(d['rules']) > 4 else 6]]
        strict = res.task.get('strict')
        for v in d['violations']:
            if rx.match(v['rule']):
                v['crate'] = name
                if strict and not v['ub'] and not v['undecided']:
                    # a wrong result, but a defined one: other properties judge it
                    self.rules[v['rule']][1] += 1
                    continue
                (self.undecided if v['undecided'] else self.violations).append(v)
        self.functions.update(d['crevice_functions'])
        self.steps += d['steps']
        self.npaths += d['paths']
        if res.task['shard'][0] == 0 and name not in self.crates:
            self.crates.append(name)
            self.programs += d['subjects']

    def corpora(self, names):
        gen = os.path.join(TARGET, 'gen')
        os.makedirs(gen, exist_ok=True)
        deep = any(n in DEEP_CORPORA for n in names)
        subprocess.run([sys.executable, os.path.join(VERIF, 'tools/gen.py'), gen, 'thorough' if deep else 'quick', str(self.seed)], check=True, capture_output=True)
        return gen

    def plans(self, want, extra=(), fresh=True):
        """want: crate names; returns name -> plan"""
        tgt = os.path.join(TARGET, 'probe')
        os.makedirs(tgt, exist_ok=True)
        if fresh:
            engine.forget(tgt)
        gen = self.corpora([n for n in want if n != MAIN])
        out = {}
        for n in want:
            d, name = (os.path.join(VERIF, 'probes/main'), 'probe_main') if n == MAIN else (os.path.join(gen, n), n)
            p, err = engine.plan(d, name, tgt, extra)
            if p is None:
                raise Broken(f'cannot compile crevice for {name}:\n{err[-3000:]}')
            out[n] = p
        return out

    def analyses(self, spec):
        thorough = self.tier == 'thorough'
        corp = CORE_CORPORA + (DEEP_CORPORA if thorough else [])
        work = {MAIN: spec['main']} if spec.get('main') else {}
        for n in corp:
            work[n] = spec.get('corpora', []) + (spec.get('syntax', []) if n == 'probe_syntax' else [])
        for n, g in spec.get('crates', {}).items():
            work[n] = g
        work = {n: g for n, g in work.items() if g}
        for name, groups in spec.get('libs', {}).items():
            # crevice's own crates, as the client with every math library compiles them
            engine.forget(os.path.join(TARGET, 'probe'))
            os.makedirs(os.path.join(TARGET, 'probe'), exist_ok=True)
            p, err = engine.plan(os.path.join(VERIF, 'probes/main'), name, os.path.join(TARGET, 'probe'))
            if p is None:
                raise Broken(f'cannot compile {name}:\n{err[-3000:]}')
            self.take(engine.analyse(dict(plan=p, groups=groups, shard=(0, 1), only='', tier=self.tier)), spec['rules'])
        tasks = []
        modes = [('', ())]
        if engine.mentions_debug():
            # the code says it does something else in release builds: analyse both
            modes.append(('release_', engine.RELEASE))
            self.extra['build_modes'] = ['debug assertions on', 'debug assertions off']
        for label, extra in modes:
            for n, p in self.plans(list(work), extra, fresh=not label).items():
                for g, k in work[n]:
                    for i in range(k):
                        tasks.append(dict(plan=p, groups=g, shard=(i, k), only='' if n == MAIN else 'derived', tier=self.tier, label=label, strict=spec.get('strict')))
        for r in engine.run_all(tasks):
            self.take(r, spec['rules'])

    # -- outcome

    def finish(self, level, technique):
        kn = known().get(self.pid, {})
        fresh, seen = [], {}
        for v in self.violations:
            if v['key'] in kn:
                seen.setdefault(v['key'], v)
            else:
                fresh.append(v)
        obligations = sum(r[0] for r in self.rules.values())
        discharged = sum(r[1] for r in self.rules.values())
        for k in sorted(seen):
            self.log(f'KNOWN-FINDING: property={self.pid} {k}: {kn[k]}')
        cov = dict(obligations=obligations, discharged=discharged, rules={k: dict(obligations=v[0], discharged=v[1], paths=v[2]) for k, v in sorted(self.rules.items())},
                   samples=self.samples[:12] or ['none'], programs=self.programs, analysed_crates=self.crates,
                   crevice_functions=sorted(self.functions), mir_statements=self.steps, symbolic_paths=self.npaths,
                   checker_cmd=f'python3 check.py {self.pid} {self.tier}', trusted_base=TRUST, rule=technique,
                   evaluations=obligations, distinct_nontrivial=discharged, disagreements_checked=obligations,
                   explanation=technique, undecided=len(self.undecided), known_findings=sorted(seen))
        keep = {'proof': ['obligations', 'discharged', 'checker_cmd', 'trusted_base'],
                'translation_validation': ['programs', 'disagreements_checked'],
                'exploration': ['evaluations', 'distinct_nontrivial', 'rule'],
                'fault_enumeration': ['evaluations', 'distinct_nontrivial', 'rule'],
                'other': ['explanation', 'obligations', 'discharged']}[level]
        drop = {'obligations', 'discharged', 'checker_cmd', 'trusted_base', 'programs', 'disagreements_checked', 'evaluations', 'distinct_nontrivial', 'rule', 'explanation'} - set(keep)
        cov = {k: v for k, v in cov.items() if k not in drop}
        if not cov.get('crevice_functions'):
            cov.pop('crevice_functions', None)
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov, wall_s=round(time.time() - self.t0, 1), violations=len(fresh),
                  assumptions=['the analysed MIR is the meaning of the source (rustc front end correct)', 'x86_64-unknown-linux-gnu, 64-bit usize'])
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        replay = os.path.join(VERIF, 'evidence', self.pid + '.violations.json')
        if os.path.exists(replay):
            os.remove(replay)
        if fresh:
            with open(replay, 'w') as f:
                json.dump(dict(property=self.pid, violations=fresh[:200], total=len(fresh), undecided=self.undecided[:50]), f, indent=1)
            for v in fresh[:8]:
                self.log(f"  {v['rule']}: {v['what'][:600]}" + (f"\n      at {v['at'][:600]}" if v.get('at') else ''))
            self.log(f'VIOLATION property={self.pid} replay={replay}')
            return 1
        if self.undecided:
            for v in self.undecided[:10]:
                self.log(f"UNDECIDED {v['rule']} {v['key']}: {v['what'][:600]} {v['at'][:300]}")
            return 2
        if obligations == 0 or discharged < obligations and not seen:
            self.log(f'nothing decided: {obligations} obligations, {discharged} discharged')
            return 2
        self.log(f'{self.pid}: held; {discharged}/{obligations} obligations, {len(self.functions)} crevice functions, {self.steps} MIR statements, {time.time() - self.t0:.1f}s')
        return 0



def main():
    pid = sys.argv[1]
    if pid == '--setup':
        # compile the third-party dependencies once
        c = Check('setup', 'quick')
        c.plans([MAIN])
        engine.forget(os.path.join(TARGET, 'probe'))
        configs.setup()
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    c = Check(pid, tier)
    try:
        spec = P[pid]
        if 'run' in spec:
            spec['run'](c, spec)
        else:
            c.analyses(spec)
        sys.exit(c.finish(spec['level'], TEXT[pid][0]))
    except Broken as e:
        print('BROKEN', e)
        sys.exit(2)


if __name__ == '__main__':
    main()
