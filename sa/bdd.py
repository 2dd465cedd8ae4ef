"""Reduced ordered BDDs used as guards of gated values.

A guard is an int (node id).  0 is false, 1 is true.  Variables are created on
demand and keyed by a hashable description of the atomic predicate.
"""

from .num import K

FALSE, TRUE = 0, 1
ALL = (1 << K) - 1
ODD = ("near", "null")


def bits_of(key):
    """Samples at which an atomic predicate holds (None: it is free)."""
    if not isinstance(key, tuple):
        return None
    if key[0] in ("zero", "close"):
        return 0
    if key[0] in ODD:
        return sum(1 << k for k in range(K) if key[1][k] is True)
    if key[0] == "neg":
        return sum(1 << k for k in range(K) if float(key[1][k]) < 0)
    return None


class Manager:
    def __init__(self):
        self.nodes = [None, None]          # id -> (var, lo, hi)
        self.unique = {}
        self.cache = {}
        self.vars = {}                     # key -> var number
        self.names = []                    # var number -> key
        self.bits = []                     # var number -> samples at which it holds (bit mask; None: free)
        self.odd = [False, False]          # node -> depends on a predicate that is there because of special samples only
        self.masks = {FALSE: 0, TRUE: ~0}

    def mk(self, var, lo, hi):
        if lo == hi:
            return lo
        k = (var, lo, hi)
        n = self.unique.get(k)
        if n is None:
            n = len(self.nodes)
            self.nodes.append(k)
            self.odd.append(self.names[var][:1] in ((ODD[0],), (ODD[1],)) or self.odd[lo] or self.odd[hi])
            self.unique[k] = n
        return n

    def var(self, key):
        # predicates about numbers are identified by the value number; the text is only for messages
        short = key[:2] if isinstance(key, tuple) and key[0] in ("neg", "zero", "close", "near", "null") else key
        v = self.vars.get(short)
        if v is None:
            v = len(self.names)
            self.vars[short] = v
            self.names.append(key)
            self.bits.append(bits_of(key))
        return self.mk(v, FALSE, TRUE)

    def ite(self, f, g, h):
        if f == TRUE:
            return g
        if f == FALSE:
            return h
        if g == h:
            return g
        if g == TRUE and h == FALSE:
            return f
        k = (f, g, h)
        r = self.cache.get(k)
        if r is not None:
            return r
        nodes = self.nodes
        top = nodes[f][0]
        if g > 1 and nodes[g][0] < top:
            top = nodes[g][0]
        if h > 1 and nodes[h][0] < top:
            top = nodes[h][0]

        def co(n):
            if n > 1 and nodes[n][0] == top:
                return nodes[n][1], nodes[n][2]
            return n, n

        f0, f1 = co(f)
        g0, g1 = co(g)
        h0, h1 = co(h)
        r = self.mk(top, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.cache[k] = r
        return r

    def neg(self, f):
        return self.ite(f, FALSE, TRUE)

    def conj(self, f, g):
        if f == TRUE:
            return g
        if g == TRUE:
            return f
        if f == FALSE or g == FALSE:
            return FALSE
        if f == g:
            return f
        return self.live(self.ite(f, g, FALSE))

    def disj(self, f, g):
        if f == FALSE:
            return g
        if g == FALSE:
            return f
        if f == TRUE or g == TRUE:
            return TRUE
        if f == g:
            return f
        return self.ite(f, TRUE, g)

    def diff(self, f, g):
        return self.live(self.ite(g, FALSE, f))

    def mask(self, n):
        """Samples at which a guard may hold (free predicates are existential)."""
        r = self.masks.get(n)
        if r is None:
            v, lo, hi = self.nodes[n]
            b = self.bits[v]
            lo, hi = self.mask(lo), self.mask(hi)
            r = self.masks[n] = lo | hi if b is None else (b & hi) | (~b & ALL & lo)
        return r & ALL

    def live(self, n):
        """Combinations of special values that no sample has are not followed."""
        return FALSE if n > 1 and self.odd[n] and not self.mask(n) else n

    def implies(self, f, g):
        return self.ite(f, g, TRUE) == TRUE

    def xnor(self, f, g):
        return self.ite(f, g, self.neg(g))

    def restrict(self, f, assignment):
        """Cofactor by {var number: bool}."""
        memo = {}

        def go(n):
            if n <= 1:
                return n
            r = memo.get(n)
            if r is None:
                v, lo, hi = self.nodes[n]
                if v in assignment:
                    r = go(hi if assignment[v] else lo)
                else:
                    r = self.mk(v, go(lo), go(hi))
                memo[n] = r
            return r

        return go(f)

    def support(self, f):
        seen, out, stack = set(), set(), [f]
        while stack:
            n = stack.pop()
            if n <= 1 or n in seen:
                continue
            seen.add(n)
            v, lo, hi = self.nodes[n]
            out.add(v)
            stack += [lo, hi]
        return sorted(out)

    def one(self, f):
        """One satisfying assignment as {key: bool} (f must not be FALSE)."""
        out = {}
        while f > 1:
            v, lo, hi = self.nodes[f]
            if lo != FALSE:
                out[self.names[v]] = False
                f = lo
            else:
                out[self.names[v]] = True
                f = hi
        return out

    def describe(self, f):
        if f == TRUE:
            return "always"
        if f == FALSE:
            return "never"
        return " and ".join(
            ("" if b else "not ") + show_key(k) for k, b in self.one(f).items()
        )


def show_key(k):
    if isinstance(k, tuple) and len(k) >= 2 and isinstance(k[-1], str):
        return f"{k[0]}[{k[-1]}]"
    return str(k)


M = Manager()
