"""The committed known-findings file: genuine defects of the library that were recorded instead of repaired.

A ``finding:`` line names a property and a probe; a probe is a function below that executes the one failing history
against the real code.  It can only print KNOWN-FINDING lines; it suppresses nothing else.  ``fixed:`` lines are records
of repairs and have no effect.
"""
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILE = os.path.join(HERE, 'KNOWN_FINDINGS.txt')

PROBES = {}


def entries():
    out = []
    with open(FILE) as f:
        for line in f:
            m = re.match(r'finding: property=(\S+) probe=(\S+) (.*)', line.strip())
            if m:
                out.append(m.groups())
    return out


def check(prop):
    """-> (KNOWN-FINDING lines of findings that still fail, errors)."""
    lines, errs = [], []
    for p, probe, what in entries():
        if p != prop:
            continue
        if probe not in PROBES:
            errs.append('no probe %s' % probe)
            continue
        from .runner import run_one
        res = run_one({'prop': prop, 'seed': 'probe/' + probe, 'probe': probe, 'ops': []}, 120)
        if res['status'] == 'violation':
            lines.append('KNOWN-FINDING: property=%s %s' % (p, what))
        elif res['status'] != 'ok':
            errs.append('probe %s: %s' % (probe, res.get('detail')))
    return lines, errs


def suppressed(prop, case, res):
    """Whether a violation is exactly a listed finding (identified by its probe's own signature)."""
    for p, probe, _ in entries():
        if p == prop and probe in PROBES and PROBES[probe].get('match') and PROBES[probe]['match'](case, res):
            return True
    return False
