"""The choice tape: the only source of randomness of a simulated run.

Every decision is an integer ``draw(n)`` in ``[0, n)``.  In search mode the
integers come from a PRNG seeded with one number and are recorded; in replay
mode they are read back from the record.  A tape that runs out yields 0, and
all helpers map 0 to their simplest outcome, so deleting or zeroing entries
gives a simpler run (this is what the shrinker does).
"""
import random as _random


class Tape:
    def __init__(self, seed=None, record=None, limit=200000):
        self._rng = _random.Random(seed) if record is None else None
        self._in = list(record) if record is not None else None
        self._pos = 0
        self._limit = limit
        self.record = []

    def draw(self, n):
        if n <= 1:
            return 0
        if self._rng is not None:
            if len(self.record) >= self._limit:
                v = 0
            else:
                v = int(self._rng.random() * n) if n < 1 << 50 else self._rng.randrange(n)
        else:
            if self._pos < len(self._in):
                v = self._in[self._pos]
                if v >= n:
                    v %= n
            else:
                v = 0
            self._pos += 1
        self.record.append(v)
        return v

    def chance(self, percent):
        """True with the given percentage; draw 0 means False."""
        if percent <= 0:
            return False
        return self.draw(1000) >= 1000 - int(percent * 10)

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def between(self, lo, hi):
        """integer in [lo, hi], lo is the simplest"""
        return lo + self.draw(hi - lo + 1)

    def weighted(self, pairs):
        """pairs: [(weight, value)]; the first value is the simplest"""
        total = sum(w for w, _ in pairs)
        if total <= 0:
            return pairs[0][1]
        x = self.draw(total)
        for w, v in pairs:
            if x < w:
                return v
            x -= w
        return pairs[-1][1]

    def shuffled(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.draw(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


def shrink(record, fails, budget_s, clock):
    """Greedy minimisation of a failing record.

    ``fails(record)`` returns the record actually consumed (list) if the same
    violation class still occurs, else None.
    """
    best = list(record)
    end = clock() + budget_s
    tries = 0

    def attempt(cand):
        nonlocal best, tries
        tries += 1
        used = fails(cand)
        if used is None:
            return False
        used = list(used)
        while used and used[-1] == 0:
            used.pop()
        if (len(used), used) < (len(best), best):
            best = used
            return True
        return False

    attempt(best)
    improved = True
    while improved and clock() < end:
        improved = False
        # remove spans, large to small
        size = max(1, len(best) // 2)
        while size >= 1 and clock() < end:
            i = max(0, len(best) - size)
            while clock() < end:
                cand = best[:i] + best[i + size:]
                if len(cand) < len(best) and attempt(cand):
                    improved = True
                    i = min(i, max(0, len(best) - size))
                if i == 0:
                    break
                i = max(0, i - max(1, size))
            size //= 2
        # zero spans
        size = max(1, len(best) // 4)
        while size >= 1 and clock() < end:
            i = 0
            while i < len(best) and clock() < end:
                if any(best[i:i + size]):
                    cand = best[:i] + [0] * len(best[i:i + size]) + best[i + size:]
                    if attempt(cand):
                        improved = True
                i += size
            size //= 2
        # lower values
        i = 0
        while i < len(best) and clock() < end:
            v = best[i]
            lo = 0
            while lo < v and clock() < end:
                mid = (lo + v) // 2
                cand = list(best)
                cand[i] = mid
                if attempt(cand):
                    improved = True
                    v = best[i] if i < len(best) else 0
                    if v != mid:
                        break
                else:
                    lo = mid + 1
            i += 1
    return best, tries
