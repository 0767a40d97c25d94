"""Monitor bookkeeping shared by all checks."""
from __future__ import annotations
import collections, hashlib, json, random, traceback, math

class Violation(Exception):
    """Raised by a monitor when an observed execution refutes the property."""
    def __init__(self, kind, detail="", mechanism=None):
        super().__init__(f"{kind}: {detail}")
        self.kind, self.detail, self.mechanism = kind, detail, mechanism

class Skip(Exception):
    """The generated case turned out to lie outside the property's domain."""

class Monitor:
    """Collects what one job observed."""
    def __init__(self):
        self.counts = collections.Counter()
        self.keys = set()
        self.samples = []
        self.violations = []
    def count(self, name, n=1):
        self.counts[name] += int(n)
    def case(self, key, nontrivial=True):
        """One evaluation; `key` identifies it up to what the rule calls equal."""
        self.counts["evaluations"] += 1
        if nontrivial:
            k = key if isinstance(key, str) else repr(key)
            if len(self.samples) < 2 and len(k) > 20: self.samples.append(k[:700])
            self.keys.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])
    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)
    def fail(self, kind, detail="", mechanism=None):
        """Record a violation and continue."""
        if len(self.violations) < 20:
            self.violations.append(dict(kind=kind, detail=str(detail)[:3000], mechanism=mechanism))
    def require(self, cond, kind, detail="", mechanism=None):
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail, mechanism)

def rng_for(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))

def jdump(o):
    def d(x):
        try:
            import numpy as np
            if isinstance(x, np.ndarray): return x.tolist()
            if isinstance(x, np.generic): return x.item()
        except Exception: pass
        return repr(x)
    return json.dumps(o, default=d)
