"""Seeded choice sources.  Everything random in a simulated run comes from here."""
import hashlib
import random


def derive(*parts):
    h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def rng(*parts):
    return random.Random(derive(*parts))


class Choices:
    """A scheduler's decisions: taken from an explicit list first (replay, minimisation), then from the PRNG.

    Every decision taken is appended to ``log`` so that a run can be replayed or minimised decision by decision.
    """

    def __init__(self, seed, explicit=None):
        self.seed = seed
        self.explicit = list(explicit) if explicit else []
        self.rng = random.Random(seed)
        self.log = []

    def choose(self, n):
        pos = len(self.log)
        if pos < len(self.explicit):
            val = self.explicit[pos] % n
        elif self.explicit and self.seed is None:
            val = 0
        else:
            val = self.rng.randrange(n)
        self.log.append(val)
        return val
