"""Findings, known findings, evidence."""
import json
import os
import re
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known-findings.txt')


class Finding(object):
    """rule + construct identify a finding; detail is for the reader."""

    def __init__(self, rule, construct, detail, replay=None):
        self.rule, self.construct, self.detail, self.replay = rule, construct, detail, replay

    @property
    def key(self):
        return re.sub(r'\s+', ' ', '%s|%s' % (self.rule, self.construct))


class AnalysisError(Exception):
    """The check cannot reach a decision (missing anchor, vacuous analysis...)."""


def known():
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r'finding: property=(\S+) key=<<(.*?)>> (.*)', line.strip())
                if m:
                    out[(m.group(1), m.group(2))] = m.group(3)
    return out


def finish(prop, tier, t0, findings, coverage, level='other'):
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    kn = known()
    bad, seen = [], set()
    for f in findings:
        k = (prop, f.key)
        if k in seen:
            continue
        seen.add(k)
        if k in kn:
            print('KNOWN-FINDING: property=%s %s' % (prop, kn[k]))
        else:
            bad.append(f)
    viol = []
    for i, f in enumerate(bad[:25]):
        path = os.path.join(ev, '%s.violation%d.json' % (prop, i))
        with open(path, 'w') as h:
            json.dump({'property': prop, 'rule': f.rule, 'construct': f.construct, 'detail': f.detail, 'replay': f.replay,
                       'key': f.key}, h, indent=1, default=str)
        print('  %s at %s: %s' % (f.rule, f.construct, f.detail))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        viol.append({'rule': f.rule, 'construct': f.construct, 'detail': str(f.detail)[:1000], 'replay': path})
    doc = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
           'coverage': coverage, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol), 'violation_list': viol,
           'known_findings_reported': len(seen) - len(bad)}
    with open(os.path.join(ev, prop + '.json'), 'w') as h:
        json.dump(doc, h, indent=1, default=str)
    print('%s (%s): %d finding(s), %d unlisted; %s' % (prop, tier, len(seen), len(bad), summary(coverage)))
    return 1 if bad else 0


def summary(c):
    return ', '.join('%s=%s' % (k, v) for k, v in c.items() if isinstance(v, (int, float)))[:400]
