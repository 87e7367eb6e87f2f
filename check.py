#!/usr/bin/env python3
"""Static checks of ruruby. usage: check.py PROPERTY [--tier quick|thorough]   |   check.py --setup"""
import sys, os, json, time, importlib, argparse, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

class Ctx:
    def __init__(self, prop, tier, prog):
        self.prop, self.tier, self.p = prop, tier, prog
        self.counts, self.samples, self.viol, self.notes, self.assumptions = {}, {}, [], [], []
        self.rule, self.floors = '', []
    def ok(self, kind, item=None):
        """one discharged obligation"""
        c = self.counts.setdefault(kind, [0, 0])
        c[0] += 1
        c[1] += 1
        if item is not None:
            s = self.samples.setdefault(kind, [])
            if len(s) < 6:
                s.append(str(item))
    def seen(self, kind, n=1):
        """measured size of what was analysed (no verdict attached)"""
        c = self.counts.setdefault(kind, [0, None])
        c[0] += n
    def bad(self, kind, key, msg, where):
        c = self.counts.setdefault(kind, [0, 0])
        if c[1] is None:
            c[1] = 0
        c[0] += 1
        if not any(v['key'] == key for v in self.viol):
            self.viol.append({'kind': kind, 'key': key, 'what': msg, 'where': where})
    def floor(self, kind, n, why='instances counted by hand in the reviewed tree'):
        self.floors.append((kind, n, why))
    def check_floors(self):
        from program import AnalysisError
        for kind, n, why in self.floors:
            got = self.counts.get(kind, [0, 0])[0]
            if got < n and not self.viol:
                raise AnalysisError('%s: only %d instances of "%s" found, expected at least %d (%s): anchor lost, not deciding' % (self.prop, got, kind, n, why))
    def assume(self, s):
        self.assumptions.append(s)

def load_known():
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        return json.load(f)

def run(prop, tier):
    import program
    t0 = time.time()
    mod = importlib.import_module('rules.' + prop.lower())
    prog = program.load()
    ctx = Ctx(prop, tier, prog)
    mod.run(ctx)
    ctx.check_floors()
    known = {k['key']: k for k in load_known()['findings'] if k['property'] == prop}
    new = [v for v in ctx.viol if v['key'] not in known]
    old = [v for v in ctx.viol if v['key'] in known]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    total = sum(c[0] for c in ctx.counts.values() if c[1] is not None)
    disch = sum(c[1] for c in ctx.counts.values() if c[1] is not None)
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': {'explanation': (mod.__doc__ or '').strip(), 'obligations': total, 'discharged': disch,
                       'by_kind': {k: {'found': c[0], 'discharged': c[1]} if c[1] is not None else {'analysed': c[0]} for k, c in sorted(ctx.counts.items())},
                       'functions_in_model': sum(f.kind == 'fn' for f in prog.fns),
                       'samples': ['%s: %s' % (k, s) for k, l in sorted(ctx.samples.items()) for s in l],
                       'tree': prog.tree, 'known_findings': [v['key'] for v in old], 'notes': ctx.notes},
          'assumptions': ctx.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    path = os.path.join(HERE, 'evidence', prop + '.json')
    print('%s [%s]: %d obligations, %d discharged, %d violations (%d known)' % (prop, tier, total, disch, len(ctx.viol), len(old)))
    for k, c in sorted(ctx.counts.items()):
        print('  %-60s %s' % (k, '%d/%d' % (c[1], c[0]) if c[1] is not None else c[0]))
    for n in ctx.notes:
        print('  note: ' + n)
    for v in old:
        print('KNOWN-FINDING: property=%s %s [%s]' % (prop, known[v['key']]['what'], v['key']))
    replay = os.path.join(HERE, 'evidence', prop + '.violations.json')
    if new:
        ev['coverage']['violation_list'] = new
        with open(replay, 'w') as f:
            json.dump(new, f, indent=1)
        for v in new[:60]:
            print('  %s: %s  at %s  [key %s]' % (v['kind'], v['what'], v['where'], v['key']))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
    elif os.path.exists(replay):
        os.unlink(replay)
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1)
    return 1 if new else 0

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--setup', action='store_true')
    a = ap.parse_args()
    import program
    try:
        if a.setup:
            program.load()
            return 0
        return run(a.prop, a.tier)
    except program.AnalysisError as e:
        print('ANALYSIS-ERROR %s: %s' % (a.prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR %s' % a.prop)
        return 2

sys.exit(main())
