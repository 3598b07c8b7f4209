"""Obligations, findings, known findings, evidence."""
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known_findings.txt')


def known_keys(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key=(\S+) :: (.*)', line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


class Check:
    def __init__(self, pid, tier, seed, prog):
        self.pid, self.tier, self.seed, self.prog = pid, tier, seed, prog
        self.t0 = time.time()
        self.obs = []            # (rule, subject, status, detail)
        self.findings = {}       # key -> (where, message, detail)
        self.interps = []
        self.rules = {}
        self.assumptions = []
        self.extra = {}

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, subject, detail=''):
        self.obs.append((rule, subject, 'holds', detail))

    def undecided(self, rule, subject, why=''):
        self.obs.append((rule, subject, 'undecided', why))

    def bad(self, rule, subject, where, message, detail=None):
        """a definite violation of `rule` at construct `subject`"""
        self.obs.append((rule, subject, 'VIOLATED', message))
        key = re.sub(r'\s+', '_', '%s:%s' % (rule, subject))
        if key not in self.findings:
            self.findings[key] = (where, message, detail or [])

    def use(self, interp):
        self.interps.append(interp)
        return interp

    def finish(self, explanation, min_decided=1):
        pid = self.pid
        known = known_keys(pid)
        decided = [o for o in self.obs if o[2] != 'undecided']
        code = 0
        nviol = 0
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        for k, (where, msg, det) in sorted(self.findings.items()):
            if k in known:
                print('KNOWN-FINDING: property=%s %s [%s] at %s' % (pid, known[k], k, where))
                continue
            nviol += 1
            d = os.path.join(HERE, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%d.txt' % (pid, nviol))
            with open(path, 'w') as f:
                f.write('property : %s\nrule     : %s\nconstruct: %s\nlocation : %s\nfinding  : %s\n' % (
                    pid, self.rules.get(k.split(':')[0], k.split(':')[0]), k, where, msg))
                for x in det:
                    f.write('  %s\n' % (x,))
                f.write('re-run   : python3 %s/check.py %s\n' % (HERE, pid))
            code = 1
            if nviol <= 12:
                print('%s: %s: %s' % (where, k, msg))
                print('VIOLATION property=%s replay=%s' % (pid, path))
        if nviol > 12:
            print('... and %d more violations of %s (see the evidence directory)' % (nviol - 12, pid))
        visited = set()
        tr = calls = steps = 0
        for i in self.interps:
            visited |= i.visited
            tr += i.stats['traces']
            calls += i.stats['calls']
            steps += i.stats['steps']
        by_rule = {}
        for r, s, st, d in self.obs:
            c = by_rule.setdefault(r, {'holds': 0, 'VIOLATED': 0, 'undecided': 0})
            c[st] += 1
        und = [(r, s, d) for r, s, st, d in self.obs if st == 'undecided']
        samples, seen = [], {}
        for r, s, st, d in self.obs:
            if st == 'holds' and seen.get(r, 0) < 3:
                seen[r] = seen.get(r, 0) + 1
                samples.append('%s | %s | %s' % (r, s, d) if d else '%s | %s' % (r, s))
        cov = {
            'explanation': explanation,
            'rules': self.rules,
            'obligations': len(self.obs),
            'decided': len(decided),
            'discharged': sum(1 for o in self.obs if o[2] == 'holds'),
            'undecided': len(und),
            'undecided_list': ['%s | %s | %s' % u for u in und][:40],
            'by_rule': by_rule,
            'distinct_subjects': len({(o[0], o[1]) for o in self.obs}),
            'abstract_traces': tr,
            'call_edges_followed': calls,
            'abstract_steps': steps,
            'functions_analysed': sorted('%s:%s' % v for v in visited)[:400],
            'functions_analysed_count': len(visited),
            'modules_parsed': len(self.prog.modules),
            'samples': samples[:40],
            'known_findings_reported': sorted(k for k in self.findings if k in known),
        }
        cov.update(self.extra)
        ev = {'property': pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other', 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 3), 'violations': nviol}
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s: %d obligations, %d decided, %d undecided, %d violated, %d known; %d functions, %d abstract traces, %.1fs' % (
            pid, len(self.obs), len(decided), len(und), nviol, len(cov['known_findings_reported']), len(visited), tr, time.time() - self.t0))
        if code == 0 and len(decided) < min_decided:
            print('%s: ANALYSIS-BROKEN: only %d obligations decided (at least %d expected)' % (pid, len(decided), min_decided))
            return 2
        return code
