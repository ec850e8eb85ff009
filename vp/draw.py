"""Generation of cases as sequences of choices, and shrinking of those sequences.

A generator is a function of a Source. All of its random choices go through
Source.below(), which records them, so that any edited sequence of choices yields a
valid case again: missing choices are 0 and choices out of range are clamped. Simple
alternatives come first everywhere, hence smaller choices make simpler cases.
"""

import random
import time


class Source:
    def __init__(self, seed=None, choices=None):
        self.rng = random.Random(seed) if choices is None else None
        self.given = choices
        self.made = []
        self.spans = []

    def below(self, n, picked=None):
        """An integer in range(n)."""
        if self.given is not None:
            i = len(self.made)
            v = min(self.given[i], n - 1) if i < len(self.given) else 0
        elif picked is not None:
            v = picked
        else:
            v = self.rng.randrange(n)
        self.made.append(v)
        return v

    def between(self, lo, hi):
        """An integer; lo is the simplest."""
        return lo + self.below(hi - lo + 1)

    def boolean(self):
        return bool(self.below(2))

    def one_in(self, n):
        """True with probability 1/n; False is simpler."""
        picked = None if self.rng is None else int(self.rng.randrange(n) == 0)
        return bool(self.below(2, picked))

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def list(self, element, lo, hi):
        """A list whose length is uniform between lo and hi."""
        n = None if self.rng is None else self.rng.randint(lo, hi)
        result = []
        while len(result) < hi:
            start = len(self.made)
            if len(result) >= lo and not self.below(2, None if n is None else int(len(result) < n)):
                break
            result.append(element(self))
            self.spans.append((start, len(self.made)))
        return result

    def subset(self, seq, lo, hi):
        """Between lo and hi distinct elements, in order."""
        k = min(self.between(lo, hi), len(seq))
        rest = list(range(len(seq)))
        picked = [rest.pop(self.below(len(rest))) for _ in range(k)]
        return [seq[i] for i in sorted(picked)]


def shrink(choices, spans, fails, seconds):
    """Minimize a failing sequence of choices.

    fails(choices) runs the case; it returns (choices, spans) as actually used, or None if the
    case does not fail.
    """
    end = time.monotonic() + seconds
    best = (list(choices), list(spans))
    seen = set()

    def attempt(candidate):
        nonlocal best
        key = tuple(candidate)
        if key in seen or time.monotonic() > end:
            return False
        seen.add(key)
        got = fails(candidate)
        if got is None:
            return False
        new = list(got[0])
        if (len(new), new) < (len(best[0]), best[0]):
            best = (new, list(got[1]))
            return True
        return False

    improved = True
    while improved and time.monotonic() < end:
        improved = False
        # Delete elements of lists, largest first.
        i = 0
        while i < len(best[1]) and time.monotonic() < end:
            spans = sorted(best[1], key=lambda s: (s[0] - s[1], -s[0]))
            a, b = spans[i]
            if attempt(best[0][:a] + best[0][b:]):
                improved = True
            else:
                i += 1
        # Delete runs of choices.
        for size in (8, 4, 2, 1):
            i = len(best[0]) - size
            while i >= 0 and time.monotonic() < end:
                if attempt(best[0][:i] + best[0][i + size:]):
                    improved = True
                i = min(i - 1, len(best[0]) - size)
        # Lower choices, whole elements first.
        for a, b in sorted(best[1], key=lambda s: (s[0] - s[1], -s[0])):
            if b <= len(best[0]) and any(best[0][a + 1:b]):
                if attempt(best[0][:a + 1] + [0] * (b - a - 1) + best[0][b:]):
                    improved = True
        i = 0
        while i < len(best[0]) and time.monotonic() < end:
            v = best[0][i]
            for w in sorted({0, v // 2, v - 1}):
                if 0 <= w < v and attempt(best[0][:i] + [w] + best[0][i + 1:]):
                    improved = True
                    break
            i += 1
    return best[0]
