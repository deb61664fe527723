"""Obligations, evidence files, VIOLATION / KNOWN-FINDING lines."""
import json, os, sys, time, hashlib
from .prog import Program, AnalysisError, HERE, ROOT

KNOWN = os.path.join(HERE, 'known_findings.json')


class Report:
    def __init__(self, pid, title=''):
        self.pid = pid
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.rules = {}
        self.order = []
        self.viol = []
        self.samples = {}
        self.fnset = set()
        self.progs = []
        self.files = set()
        self.floors = {}
        self.notes = []
        self.assumptions = []
        self.points = 0

    # ---- inputs
    def program(self, *tus):
        p = Program(list(tus))
        self.progs.append(p)
        return p

    def saw(self, fns):
        for f in fns:
            self.fnset.add(f.q if hasattr(f, 'q') else f)
            if hasattr(f, 'rel'):
                self.files.add(f.rel())

    # ---- rules
    def rule(self, name, text, floor=1):
        if name not in self.rules:
            self.rules[name] = {'rule': text, 'obligations': 0, 'discharged': 0}
            self.order.append(name)
            self.floors[name] = floor
        return name

    def ob(self, rule, ok, site, msg='', key=None, detail=None):
        """one obligation of `rule`; a failed one is a violation identified by key"""
        r = self.rules[rule]
        r['obligations'] += 1
        if ok:
            r['discharged'] += 1
            s = self.samples.setdefault(rule, [])
            if len(s) < 6:
                s.append(site)
            return True
        key = key or msg
        k = '%s|%s' % (rule, key)
        for v in self.viol:
            if v['key'] == k:
                return False
        self.viol.append({'key': k, 'rule': rule, 'site': site, 'message': msg, 'detail': detail or []})
        return False

    def bad(self, rule, site, msg, key=None, detail=None):
        return self.ob(rule, False, site, msg, key, detail)

    def good(self, rule, site):
        return self.ob(rule, True, site)

    def assume(self, *a):
        for x in a:
            if x not in self.assumptions:
                self.assumptions.append(x)

    # ---- output
    def finish(self, explanation):
        known = []
        if os.path.exists(KNOWN):
            known = json.load(open(KNOWN)).get('findings', [])
        kmap = {(k['property'], k['key']): k for k in known}
        fresh = []
        listed = []
        for v in self.viol:
            k = kmap.get((self.pid, v['key']))
            if k:
                listed.append((v, k))
            else:
                fresh.append(v)
        nob = sum(r['obligations'] for r in self.rules.values())
        nd = sum(r['discharged'] for r in self.rules.values())
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': {
                'explanation': explanation,
                'obligations': nob, 'discharged': nd,
                'rules': {n: dict(self.rules[n], samples=self.samples.get(n, [])) for n in self.order},
                'functions_analysed': len(self.fnset),
                'functions': sorted(self.fnset)[:120],
                'files_analysed': sorted(self.files),
                'units': sorted({t for p in self.progs for t in p.tus}),
                'program_functions': sum(len(p.fns) for p in self.progs),
                'program_points_visited': self.points,
                'notes': self.notes,
                'violations': [v for v in fresh],
                'known_findings_seen': [{'key': v['key'], 'site': v['site']} for v, k in listed],
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(fresh),
        }
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for v, k in listed:
            print('KNOWN-FINDING: property=%s %s at %s' % (self.pid, k['what'], v['site']))
        if fresh:
            rd = os.path.join(HERE, 'evidence', 'replay')
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.pid + '.txt')
            with open(rp, 'w') as f:
                for v in fresh:
                    f.write('[%s] %s\n  rule: %s\n  at:   %s\n  key:  %s\n' % (self.pid, v['message'], self.rules[v['rule']]['rule'], v['site'], v['key']))
                    for d in v['detail']:
                        f.write('        %s\n' % (d,))
                    f.write('\n')
            for v in fresh:
                print('%s: %s  [%s]' % (v['site'], v['message'], v['rule']))
                for d in v['detail'][:12]:
                    print('      %s' % (d,))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        low = [(n, self.rules[n]['obligations'], fl) for n, fl in self.floors.items() if self.rules[n]['obligations'] < fl]
        if low:
            raise AnalysisError('rule matched fewer instances than confirmed: ' + ', '.join('%s %d<%d' % x for x in low))
        print('%s: %d obligations discharged, %d known findings, %d functions, %.1f s' % (self.pid, nd, len(listed), len(self.fnset), time.time() - self.t0))
        return 0
