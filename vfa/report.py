"""Runs one check, applies the known-findings file, writes the evidence, sets the exit code."""
import importlib
import json
import os
import resource
import sys
import time
import traceback

from .spec import Check, Gone

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Late(BaseException):
    """Raised into a check that is about to use up its time."""


def known_findings(pid):
    """Lines `finding: property=<id> | rule=<rule> | site=<file:function> | <what fails>`."""
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            f = [x.strip() for x in line.strip().split(' | ')]
            if f[0] == 'finding: property=%s' % pid and len(f) == 4:
                out.append((f[1][len('rule='):], f[2][len('site='):], f[3]))
    return out


def matches(f, v):
    return f[0] == v.rule and f[1] == ':'.join(str(v.site).split(':')[:2])


def main(pid, tier, root):
    sys.setrecursionlimit(20000)
    mod = importlib.import_module('vfa.checks.%s' % pid.lower())
    t0 = time.time()
    C = Check(pid, root)
    C.tier = tier
    crashed = None
    try:
        mod.check(C)
    except Gone as e:
        crashed = 'the entry point %s does not exist any more; the property has no anchor' % e
    except Exception:
        crashed = ''.join(traceback.format_exc().splitlines(True)[-6:])
    except Late:
        crashed = 'the time of the check is used up'
    C.finish()
    known = known_findings(pid)
    used, rest = set(), []
    for v in C.viol:
        for i, f in enumerate(known):
            if matches(f, v):
                used.add(i)
                break
        else:
            rest.append(v)
    wall = time.time() - t0
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': (mod.__doc__ or '').strip() + ' The source of /repo is parsed and interpreted abstractly '
                           '(gated symbolic values, joins at merges, recognised loop closed forms); nothing is executed.',
            'rule': getattr(mod, 'RULE', ''),
            'obligations_total': len(C.obl),
            'obligations_proved': sum(1 for o in C.obl if o[2] == 'proved'),
            'obligations_violated': sum(1 for o in C.obl if o[2] != 'proved'),
            'functions_analysed': sorted(q for q in getattr(C, 'an', ())),
            'call_and_effect_events': getattr(C, 'nev', 0),
            'loops_summarised': getattr(C, 'nloops', 0),
            'samples': ['%s @ %s: %s%s' % (r, s, o, (' (%s)' % d[:200]) if d else '') for r, s, o, d in C.obl[:40]],
        },
        'wall_s': round(wall, 3),
        'violations': [{'rule': v.rule, 'site': v.site, 'what': v.msg} for v in rest],
    }
    if C.notes:
        ev['coverage']['notes'] = C.notes
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', '%s.json' % pid)
    for i in sorted(used):
        print('KNOWN-FINDING: property=%s %s [%s @ %s]' % (pid, known[i][2], known[i][0], known[i][1]))
    if rest:
        rp = os.path.join(VERIF, 'evidence', '%s.violations.txt' % pid)
        with open(rp, 'w') as f:
            for v in rest:
                f.write('%s\n  rule: %s\n  %s\n\n' % (v.site, v.rule, v.msg))
        for v in rest:
            print('%s: [%s] %s' % (v.site, v.rule, v.msg))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    if crashed:
        print(crashed)
        print('analyser error; no verdict for the rest')
        ev['coverage']['analyser_error'] = crashed[-2000:]
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d obligations, %d violated, %.2fs' % (pid, tier, len(C.obl), len(rest), wall))
    if rest:
        return 1
    return 2 if crashed else 0
