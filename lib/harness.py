"""Choice-tape generation, case context, and failure types shared by all checks.

A case is a pure function of a tape of non-negative integers: a generator asks Draw for an integer below n, and the
answer comes either from a seeded random source (and is appended to the tape) or from a given tape (replay, shrinking).
Zero is always the simplest choice, and a tape that ends early is continued with zeros.
"""
import hashlib
import random


class Fail(Exception):
    """A property is violated. label: the class of violation (kept while shrinking), msg: what was seen."""

    def __init__(self, label, msg=''):
        Exception.__init__(self, label, msg)
        self.label, self.msg = label, msg


class Discard(Exception):
    """The generated case is outside of the property's domain."""


def short(x, n=400):
    try:
        s = x if isinstance(x, str) else repr(x)
    except Exception as e:  # noqa
        s = '<unprintable %s: %s>' % (type(x).__name__, type(e).__name__)
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)


class Draw:
    def __init__(self, seed=None, tape=None):
        self.rng = random.Random(seed) if tape is None else None
        self.src = tape
        self.tape = []
        if tape is None:
            self._rb = self.rng.randrange
            self.int = self._int_rng

    def _int_rng(self, n):
        v = self._rb(n)
        self.tape.append(v)
        return v

    def int(self, n):
        """0 <= x < n"""
        i = len(self.tape)
        v = self.src[i] if i < len(self.src) else 0
        if v >= n:
            v = v % n
        self.tape.append(v)
        return v

    def rng_int(self, lo, hi):
        return lo + self.int(hi - lo + 1)

    def bool(self):
        return self.int(2) == 1

    def chance(self, num, den):
        """True with probability num/den; False is the simple choice."""
        return self.int(den) >= den - num

    def choice(self, seq):
        return seq[self.int(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; the first one is the simplest"""
        t = 0
        for w, _ in pairs:
            t += w
        k = self.int(t)
        for w, v in pairs:
            if k < w:
                return v
            k -= w

    def size(self, small=4, big=40):
        """A length: mostly small, sometimes up to big."""
        k = self.int(16)
        if k < 12:
            return self.int(small + 1)
        if k < 15:
            return self.int(min(big, small * 4) + 1)
        return self.int(big + 1)

    def bytes(self, n):
        return bytes(self.int(256) for _ in range(n))

    def shuffle(self, xs):
        xs = list(xs)
        for i in range(len(xs) - 1):
            j = i + self.int(len(xs) - i)
            xs[i], xs[j] = xs[j], xs[i]
        return xs


class Ctx:
    """What one worker explored."""

    def __init__(self, variant='rel', tier='quick', seed=0, worker=0, nworkers=1, verbose=False, scratch='/tmp'):
        self.variant, self.tier, self.seed = variant, tier, seed
        self.worker, self.nworkers = worker, nworkers
        self.part, self.parts = 0, 1
        self.verbose = verbose
        self.scratch = scratch
        self.evals = 0
        self.discarded = 0
        self.keys = set()
        self.labels = {}
        self.samples = []
        self.notes = []
        self._next_sample = 1
        self._nt_hits = 0

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def nontrivial(self, key, sample=None):
        """Counts a case as non-trivial; distinct ones by the hash of key (bytes, str, or anything with a repr)."""
        if not isinstance(key, bytes):
            key = (key if isinstance(key, str) else repr(key)).encode('utf-8', 'surrogatepass')
        if len(self.keys) < 3000000:
            self.keys.add(hashlib.blake2b(key, digest_size=8).digest())
        self._nt_hits += 1
        if sample is not None and self._nt_hits >= self._next_sample and len(self.samples) < 12:
            self._next_sample = self._next_sample * 3 + 7
            self.samples.append(short(sample() if callable(sample) else sample, 600))

    def note(self, *what):
        """Human readable trace, kept on replay only."""
        if self.verbose:
            self.notes.append(' '.join(short(w() if callable(w) else w, 2000) for w in what))


def divided(f):
    """An example that runs in every worker, each on the part c.part of c.parts."""
    f.divided = True
    return f


def expect(cond, label, msg=''):
    if not cond:
        raise Fail(label, msg() if callable(msg) else msg)


def raises(fn, exc=Exception):
    """Returns the exception fn raises, None if it returns."""
    try:
        fn()
    except exc as e:
        return e
    return None
