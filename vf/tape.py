"""Choice tapes: every generated case is a pure function of a list of integers, so any failing case can be
shrunk by editing the list, whatever the generator."""
import random


class Tape:
    __slots__ = ("rng", "data", "pos", "out")

    def __init__(self, rng=None, data=None):
        self.rng = rng
        self.data = data
        self.pos = 0
        self.out = []

    def draw(self, n):
        """An integer in [0, n); 0 is the simplest."""
        if n <= 1:
            return 0
        if self.data is not None:
            v = self.data[self.pos] % n if self.pos < len(self.data) else 0
        else:
            v = self.rng.randrange(n)
        self.pos += 1
        self.out.append(v)
        return v

    def range(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def choice(self, xs):
        return xs[self.draw(len(xs))]

    def chance(self, num, den):
        """True with probability num/den; shrinks to False."""
        return self.draw(den) >= den - num

    def weighted(self, pairs):
        """pairs: [(weight, value)]; the first is the simplest."""
        tot = sum(w for w, _ in pairs)
        r = self.draw(tot)
        for w, v in pairs:
            if r < w:
                return v
            r -= w
        return pairs[-1][1]

    def size(self, hi):
        """A size in [0, hi], biased to small with a heavy tail."""
        k = self.draw(4)
        if k == 0:
            return self.draw(min(hi, 2) + 1)
        if k == 1:
            return self.draw(min(hi, 5) + 1)
        if k == 2:
            return self.draw(min(hi, 12) + 1)
        return self.draw(hi + 1)


def shrink_list(data, fails, deadline, now):
    """Deletes spans, then lowers values, while fails(data) stays true."""
    best = list(data)
    improved = True
    while improved and now() < deadline:
        improved = False
        k = max(1, len(best) // 2)
        while k >= 1:
            i = 0
            while i < len(best):
                if now() > deadline:
                    return best
                cand = best[:i] + best[i + k:]
                if fails(cand):
                    best = cand
                    improved = True
                else:
                    i += k
            k //= 2
        for i in range(len(best)):
            if now() > deadline:
                return best
            if best[i] == 0:
                continue
            for v in (0, best[i] // 2, best[i] - 1):
                if v < best[i]:
                    cand = list(best)
                    cand[i] = v
                    if fails(cand):
                        best = cand
                        improved = True
                        break
    return best
