"""Context of one simulated run: reference server, coverage signature, counters."""
import hashlib
import json

from .hub import H
from .ref import RefServer


class Ctx:
    def __init__(self):
        self.ref = RefServer()
        self.sigs = set()
        self.checked = 0
        self.schedules = set()
        self.choices = []

    def note_run(self, out):
        """Coverage: the schedule (which worker took which task when, in which order they finished) of a parallel run."""
        if out.sched:
            self.schedules.add(digest(out.sched))
        self.choices.append(list(getattr(out, 'choices', [])))

    def sig(self, *parts):
        self.sigs.add(digest(parts))


def digest(x):
    return hashlib.sha1(json.dumps(x, default=str, sort_keys=True).encode()).hexdigest()[:16]


def stats(ctx):
    return {'fired': dict(H.fired), 'probes': dict(H.probes), 'steps': H.steps, 'simtime': H.simtime,
            'sched_events': len(H.sched), 'schedules': sorted(ctx.schedules), 'sigs': sorted(ctx.sigs),
            'pools': len(H.pools), 'checked': ctx.checked, 'choices': ctx.choices}
