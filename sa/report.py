"""Collects obligations and findings of one property run; writes evidence; prints the verdict."""
import json, os, sys, time, re, hashlib
from .build import VERIF, REPO, Broken

EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.json')


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.oblig = {}			# rule -> [number checked, number of distinct sites]
        self.sites = {}
        self.viol = {}			# key -> (message, where)
        self.functions = set()
        self.paths = 0
        self.assume = []
        self.notes = []
        self.sample = []
        self.undecided = []

    def ok(self, rule, site, n=1):
        self.oblig[rule] = self.oblig.get(rule, 0) + n
        self.sites.setdefault(rule, set()).add(site)
        if len(self.sample) < 60 and len([s for s in self.sample if s['rule'] == rule]) < 6 and not any(s['rule'] == rule and s['site'] == site for s in self.sample):
            self.sample.append(dict(rule=rule, site=str(site)))

    def bad(self, rule, site, key, msg, detail=()):
        """key: stable identification of the construct (no line numbers)"""
        self.ok(rule, site)
        k = '%s:%s' % (rule, key)
        if k not in self.viol:
            self.viol[k] = dict(rule=rule, key=k, where=str(site), message=msg, detail=[str(d) for d in detail][:80])

    def merge(self, d):
        for r, n in d['oblig'].items():
            self.oblig[r] = self.oblig.get(r, 0) + n
        for r, s in d['sites'].items():
            self.sites.setdefault(r, set()).update(s)
        for k, v in d['viol'].items():
            self.viol.setdefault(k, v)
        self.functions |= d['functions']
        self.paths += d['paths']
        self.undecided += d['undecided']
        for n in d['notes']:
            if n not in self.notes:
                self.notes.append(n)
        for s in d['sample']:
            if len(self.sample) < 60 and len([x for x in self.sample if x['rule'] == s['rule']]) < 6:
                self.sample.append(s)

    def undecide(self, unit, why):
        """The analysis could not decide this unit: no verdict on it."""
        self.undecided.append((unit, str(why)))
        self.notes.append('undecided: %s: %s' % (unit, why))

    def few_undecided(self, of):
        if len(self.undecided) * 4 > of and not self.viol:
            raise Broken('%d of %d units undecided, first %s: %s' % ((len(self.undecided), of) + self.undecided[0]))

    def dump(self):
        return dict(oblig=self.oblig, sites=self.sites, viol=self.viol, functions=self.functions, paths=self.paths, undecided=self.undecided, notes=self.notes, sample=self.sample)

    def require(self, rule, n, what=None):
        """An anchor that matched nothing proves nothing."""
        if not self.viol and len(self.sites.get(rule, ())) < n:
            raise Broken('%s: rule %s found %d sites, expected at least %d%s' % (self.prop, rule, len(self.sites.get(rule, ())), n, ' (%s)' % what if what else ''))

    def finish(self, technique):
        known = {}
        if os.path.exists(KNOWN):
            for e in json.load(open(KNOWN))['findings']:
                if e['property'] == self.prop and e.get('status') != 'fixed':
                    known[e['key']] = e
        viol, found = [], []
        for k, v in sorted(self.viol.items()):
            if k in known:
                found.append((known[k], v))
            else:
                viol.append(v)
        for e, v in found:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, e['what']))
        for u, w in self.undecided[:20]:
            print('UNDECIDED: property=%s %s: %s' % (self.prop, u, w))
        total = sum(self.oblig.values())
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
                  coverage=dict(explanation=technique,
                                analysed_functions=len(self.functions), functions=sorted(self.functions)[:400],
                                abstract_paths=self.paths, obligations=total,
                                per_rule={r: dict(checked=n, sites=len(self.sites[r])) for r, n in sorted(self.oblig.items())},
                                samples=self.sample, notes=self.notes[:60]),
                  wall_s=round(time.time() - self.t0, 2), assumptions=self.assume,
                  violations=[dict(v) for v in viol], known_findings=[v['key'] for _, v in found])
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations over %d sites in %d functions, %d abstract paths, %.1f s' % (
            self.prop, total, sum(len(s) for s in self.sites.values()), len(self.functions), self.paths, time.time() - self.t0))
        if viol:
            d = os.path.join(EVID, 'replay')
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, self.prop + '.txt')
            with open(p, 'w') as f:
                for v in viol:
                    f.write('%s\n  at %s\n  rule %s\n' % (v['message'], v['where'], v['key']))
                    for x in v['detail']:
                        f.write('    %s\n' % x)
                f.write('re-run: python3 /verif/checks/check.py %s\n' % self.prop)
            for v in viol[:20]:
                print('  %s: %s [%s]' % (v['where'], v['message'], v['key']))
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
            return 1
        return 0
