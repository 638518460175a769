"""Result collection, evidence, known findings, exit protocol."""
import json, os, time, sys
from . import engine as E


class Report:
    current = None

    def __init__(self, pid, tier):
        Report.current = self
        self.pid = pid; self.tier = tier; self.t0 = time.time()
        self.viol = {}          # construct -> (text, location, detail)
        self.proved = 0; self.open = {}; self.nopen = 0
        self.domains = {}; self.counts = {}; self.samples = []; self.analysed = set(); self.configs = set()
        self.notes = []; self.assumptions = []

    def ok(self, dom=''):
        self.proved += 1; self.domains[dom] = self.domains.get(dom, 0) + 1

    def bad(self, construct, text, loc='', key=None):
        k = key or construct
        if k not in self.viol: self.viol[k] = (construct, text, loc)

    def undecided(self, construct, why):
        self.nopen += 1
        self.open.setdefault(why[:160], []).append(construct)

    def count(self, name, k=1): self.counts[name] = self.counts.get(name, 0) + k

    def sample(self, s):
        if len(self.samples) < 8: self.samples.append(s)

    def take(self, v, construct, cfg, loc='', key=None):
        """v: decide.Verdict"""
        if v.st == 'proved': self.ok(v.dom)
        elif v.st == 'violated': self.bad('%s [%s]' % (construct, cfg), v.why, loc, key)
        else: self.undecided('%s [%s]' % (construct, cfg), v.why)

    def finish(self, rule, minimum):
        """minimum: {counter: least value}; fewer means the analysis no longer matches the program (error exit)"""
        if E.SKIPPED:
            # a configuration that does not compile is a violation of C20; the other properties are decided in the remaining ones
            self.notes.append('left out, headers do not compile: %s' % E.SKIPPED)
            minimum = {k: m * 0.5 * max(1, 7 - len(E.SKIPPED)) / 7 for k, m in minimum.items()}
        for k, m in minimum.items():
            if self.counts.get(k, 0) < m:
                if self.viol: break
                raise E.Broken('analysed only %d %s (expected at least %d): the catalogue no longer matches the program' % (self.counts.get(k, 0), k, m))
        known = known_findings(self.pid)
        listed = {}; new = {}
        for k, v in self.viol.items():
            m = [e for e in known if e['construct'] in v[0]]
            if m: listed.setdefault(m[0]['construct'], m[0])
            else: new[k] = v
        os.makedirs(os.path.join(E.VERIF, 'evidence', 'replay'), exist_ok=True)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new),
              'coverage': dict({'explanation': rule, 'configurations': sorted(self.configs), 'obligations_proved': self.proved, 'obligations_undecided': self.nopen,
                                'proof_domains': self.domains, 'undecided_reasons': {k: {'count': len(v), 'first': v[0]} for k, v in sorted(self.open.items(), key=lambda z: -len(z[1]))[:20]},
                                'known_findings_met': len(listed), 'samples': self.samples, 'notes': self.notes}, **self.counts),
              'assumptions': self.assumptions or ASSUME}
        json.dump(ev, open(os.path.join(E.VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)
        for k, e in listed.items(): print('KNOWN-FINDING: property=%s %s' % (self.pid, e['what']))
        print('%s: %d obligations proved, %d undecided, %d violated; %s; %.1f s' % (self.pid, self.proved, self.nopen, len(new), ', '.join('%s=%d' % z for z in sorted(self.counts.items())), time.time() - self.t0))
        if new:
            rp = os.path.join(E.VERIF, 'evidence', 'replay', self.pid + '.json')
            json.dump({'property': self.pid, 'repo': E.REPO, 'source_hash': E.srchash(), 'rerun': 'python3-vt /verif/check.py %s --tier %s' % (self.pid, self.tier),
                       'violations': [{'construct': v[0], 'what': v[1], 'where': v[2]} for v in new.values()]}, open(rp, 'w'), indent=1)
            for v in list(new.values())[:12]: print('  violated: %s: %s%s' % (v[0], v[1], ' (%s)' % v[2] if v[2] else ''))
            if len(new) > 12: print('  ... and %d more' % (len(new) - 12))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0


ASSUME = ['clang 18 lowers the source to IR faithfully (no optimisation passes are applied before the analysis)',
          'IEEE-754 round-to-nearest arithmetic, FTZ/DAZ off, no floating-point contraction',
          'x86 targets only: AltiVec and NEON headers are not analysed']


def known_findings(pid):
    p = os.path.join(E.VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [e for e in json.load(open(p)).get('findings', []) if e['property'] == pid]
