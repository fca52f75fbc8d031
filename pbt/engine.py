"""A small property-based testing engine (Hypothesis itself cannot be installed
for the only interpreter nxt runs on here, PyPy 3.9).

Same design as Hypothesis' core: every random decision of a case is one integer
drawn from a choice sequence; a case is a pure function of that sequence, so a
failing case is shrunk by editing the sequence (delete / zero / lower / sort /
redistribute) and re-running, and the shrunk sequence is the replay file.
"""
import random
import hashlib


class Violation(AssertionError):
    """The property does not hold for this case."""


class Discard(Exception):
    """The generated case lies outside the property's domain (counted)."""


class Overrun(Exception):
    """The choice sequence was exhausted while replaying with a hard end."""


MAX_CHOICES = 20000


class Data(object):
    """Source of generated choices for one case."""

    def __init__(self, prefix=(), rng=None):
        self.prefix = prefix
        self.rng = rng
        self.choices = []
        self.labels = {}
        self.notes = []
        self.nontrivial = False
        self.sig = None

    # -- primitive ---------------------------------------------------------
    def draw(self, n):
        """An int in [0, n]. 0 is the simplest value."""
        if n <= 0:
            return 0
        i = len(self.choices)
        if i >= MAX_CHOICES:
            raise Overrun()
        if i < len(self.prefix):
            v = self.prefix[i]
            if v > n:
                v = n
        elif self.rng is not None:
            v = self.rng.randint(0, n)
        else:
            v = 0
        self.choices.append(v)
        return v

    # -- derived -----------------------------------------------------------
    def integer(self, lo, hi):
        return lo + self.draw(hi - lo)

    def boolean(self, num=1, den=2):
        """True with probability num/den; shrinks to False."""
        return self.draw(den - 1) >= den - num

    def choice(self, seq):
        return seq[self.draw(len(seq) - 1)]

    def weighted(self, pairs):
        """pairs: [(weight, value)], first is the simplest."""
        total = sum(w for w, _ in pairs)
        v = self.draw(total - 1)
        for w, val in pairs:
            if v < w:
                return val
            v -= w
        return pairs[-1][1]

    def size(self, lo, hi):
        """A size, biased to small values but reaching hi."""
        n = lo
        span = hi - lo
        if span <= 0:
            return lo
        # mean grows with span; drawn as a single choice for good shrinking
        v = self.draw(span * 2)
        if v > span:
            v = (v - span) // 2 if span > 1 else v - span
        return n + v

    def many(self, lo, hi, p=(3, 4)):
        """Yield while the generator decides to continue (shrinks by deletion
        of whole chunks because the continue flag sits beside the element)."""
        i = 0
        while i < hi:
            if i >= lo:
                if not self.boolean(*p):
                    return
            yield i
            i += 1

    def text(self, alphabet, lo=0, hi=8):
        return ''.join(self.choice(alphabet) for _ in self.many(lo, hi))

    def sample(self, seq, lo=0, hi=None):
        """A sub list without repetition, in drawn order."""
        pool = list(seq)
        if hi is None:
            hi = len(pool)
        out = []
        for _ in self.many(min(lo, len(pool)), min(hi, len(pool)), (2, 3)):
            out.append(pool.pop(self.draw(len(pool) - 1)))
        return out

    def permutation(self, seq):
        pool = list(seq)
        out = []
        while pool:
            out.append(pool.pop(self.draw(len(pool) - 1)))
        return out

    # -- bookkeeping -------------------------------------------------------
    def label(self, name):
        self.labels[name] = 1

    def note(self, obj):
        """Human readable content of the case (what the sample shows)."""
        self.notes.append(obj)

    def interesting(self, flag=True):
        if flag:
            self.nontrivial = True


class Failure(object):
    def __init__(self, choices, kind, message, notes):
        self.choices = list(choices)
        self.kind = kind          # root-cause key used while shrinking
        self.message = message
        self.notes = list(notes)


def digest(obj):
    return hashlib.sha1(repr(obj).encode('utf-8', 'replace')).hexdigest()[:16]


def rng_for(seed, *stream):
    key = ':'.join([str(seed)] + [str(s) for s in stream])
    return random.Random(int(hashlib.sha256(key.encode()).hexdigest()[:16],
                             16))


def shrink(run_prefix, failure, max_runs=1500, deadline=None, clock=None):
    """run_prefix(prefix) -> Failure or None. Returns the smallest failure."""
    best = failure
    seen = set()
    runs = [0]

    def better(cand, cur):
        return (len(cand), cand) < (len(cur), cur)

    def attempt(cand):
        nonlocal best
        cand = list(cand)
        key = tuple(cand)
        if key in seen or runs[0] >= max_runs:
            return False
        if deadline is not None and clock() > deadline:
            return False
        seen.add(key)
        runs[0] += 1
        f = run_prefix(cand)
        if f is None or f.kind != failure.kind:
            return False
        got = f.choices
        if better(got, best.choices):
            best = f
            return True
        return False

    improved = True
    while improved and runs[0] < max_runs:
        if deadline is not None and clock() > deadline:
            break
        improved = False
        # delete chunks
        for k in (32, 16, 8, 4, 3, 2, 1):
            i = len(best.choices) - k
            while i >= 0:
                c = best.choices
                if i + k <= len(c):
                    cand = c[:i] + c[i + k:]
                    if attempt(cand):
                        improved = True
                    elif i > 0 and c[i - 1] > 0:
                        # lower a preceding length as well
                        cand2 = list(cand)
                        cand2[i - 1] -= 1
                        if attempt(cand2):
                            improved = True
                i -= 1 if k < 8 else k // 2
        # zero chunks
        for k in (8, 4, 2, 1):
            i = 0
            while i + k <= len(best.choices):
                c = best.choices
                if any(c[i:i + k]):
                    if attempt(c[:i] + [0] * k + c[i + k:]):
                        improved = True
                i += k
        # lower single values (binary search)
        i = 0
        while i < len(best.choices):
            lo, hi = 0, best.choices[i]
            while lo < hi:
                mid = (lo + hi) // 2
                c = list(best.choices)
                if i >= len(c):
                    break
                c[i] = mid
                if attempt(c):
                    improved = True
                    if i >= len(best.choices):
                        break
                    hi = min(mid, best.choices[i])
                else:
                    lo = mid + 1
            i += 1
    return best, runs[0]
