"""Result of one property check, evidence and known findings."""
import json, os, time
import build

KNOWN = os.path.join(build.VERIF, 'known-findings.txt')
EVID = os.path.join(build.VERIF, 'evidence')


class Result:
    """what a rule analysed and what it found"""

    def __init__(self):
        self.stats = {}        # measured counts
        self.floors = {}       # count -> minimum below which the analysis is considered broken
        self.violations = []   # dicts: key, file, line, where, what
        self.rules = []        # text of the rules applied
        self.samples = {}      # a few instances, for diagnosis

    def count(self, name, n=1, floor=None):
        self.stats[name] = self.stats.get(name, 0) + n
        if floor is not None:
            self.floors[name] = floor

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def bad(self, key, file, line, where, what):
        if not any(v['key'] == key and v['line'] == line for v in self.violations):
            self.violations.append(dict(key=key, file=file, line=line, where=where, what=what))

    def sample(self, group, text, limit=12):
        s = self.samples.setdefault(group, [])
        if len(s) < limit and text not in s:
            s.append(text)

    def merge(self, other, prefix=''):
        for k, v in other.stats.items():
            self.stats[prefix + k] = self.stats.get(prefix + k, 0) + v
        for k, v in other.floors.items():
            self.floors[prefix + k] = v
        for v in other.violations:
            self.bad(v['key'], v['file'], v['line'], v['where'], v['what'])
        for r in other.rules:
            self.rule(r)
        for g, s in other.samples.items():
            for x in s:
                self.sample(g, x)


def known(prop):
    """{key: description} of the recorded, unrepaired defects of a property"""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for l in f:
                l = l.rstrip('\n')
                if l.startswith('finding: property=%s ' % prop):
                    rest = l.split(' ', 2)[2]
                    key, _, what = rest.partition(' :: ')
                    assert key.startswith('key=')
                    out[key[4:]] = what
    return out


def finish(prop, tier, seed, level, explanation, res, t0):
    """print, write evidence, return the exit code"""
    kn = known(prop)
    new = [v for v in res.violations if v['key'] not in kn]
    if not new:
        for k, fl in sorted(res.floors.items()):
            if res.stats.get(k, 0) < fl:
                raise build.AnalysisBroken('%s: only %d %s (at least %d confirmed by hand): the analysis no longer sees the code'
                                           % (prop, res.stats.get(k, 0), k, fl))
    old = sorted({v['key'] for v in res.violations if v['key'] in kn})
    for k in old:
        print('KNOWN-FINDING: property=%s %s' % (prop, kn[k]))
    os.makedirs(EVID, exist_ok=True)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'explanation': explanation + ' Rules applied: ' + ' '.join('(%d) %s' % (i + 1, r) for i, r in enumerate(res.rules)),
            'measured': dict(sorted(res.stats.items())),
            'instances': res.samples,
            'violations': len(new), 'known_findings': old,
        },
        'wall_s': round(time.time() - t0, 2),
    }
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s [%s]: %s' % (prop, tier, ', '.join('%s %s' % (v, k) for k, v in sorted(res.stats.items()))))
    if not new:
        print('%s: held on everything analysed (%.1f s)' % (prop, time.time() - t0))
        return 0
    rp = os.path.join(EVID, prop + '.violations.txt')
    with open(rp, 'w') as f:
        for v in sorted(new, key=lambda v: (v['file'], v['line'])):
            f.write('%s:%s: in %s: %s\n    key=%s\n' % (v['file'], v['line'], v['where'], v['what'], v['key']))
    for v in sorted(new, key=lambda v: (v['file'], v['line']))[:25]:
        print('%s:%s: in %s: %s' % (v['file'], v['line'], v['where'], v['what']))
    print('VIOLATION property=%s replay=%s' % (prop, rp))
    return 1
