"""Refutes systems of polynomial equations and disequations over every prime field but finitely many.

A system is eqs (== 0) and neqs (!= 0), polynomials with whole coefficients: dict monomial -> coefficient, a monomial is a
sorted tuple of (unknown, exponent).  refute() answers
  ('refuted', primes)   no solution in any prime field whose prime is not in `primes`
  ('consistent', None)  the ideal is proper: there is a solution over some extension of the rationals
  ('unknown', why)
Steps: replacing an unknown by an equation in which it has coefficient +-1; splitting an equation into its factors;
1 = sum of multiples of the equations (Buchberger with cofactors; the identity is multiplied out again in whole numbers by
separate code before it is believed)."""
import time
from fractions import Fraction
from math import gcd
class OutOfTime(Exception): pass

def mono_mul(a, b):
    d = dict(a)
    for v, e in b: d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))
def add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + k * c
        if x: r[m] = x
        else: r.pop(m, None)
    return r
def mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            q = mono_mul(m, n); x = r.get(q, 0) + c * d
            if x: r[q] = x
            else: r.pop(q, None)
    return r
def power(a, n):
    r = {(): 1}
    for _ in range(n): r = mul(r, a)
    return r
def unknowns(p): return {v for m in p for v, _ in m}
def subst(p, v, q):
    """v replaced by q"""
    r, cache = {}, {}
    for m, c in p.items():
        e = dict(m).get(v, 0)
        if not e: r = add(r, {m: c}); continue
        if e not in cache: cache[e] = power(q, e)
        r = add(r, mul({tuple(x for x in m if x[0] != v): c}, cache[e]))
    return r
def content(p):
    g = 0
    for c in p.values(): g = gcd(g, c)
    return g
def is_const(p): return not p or (len(p) == 1 and () in p)
def value(p, val, mod):
    r = 0
    for m, c in p.items():
        for v, e in m: c = c * pow(val[v], e, mod) % mod
        r += c
    return r % mod

def primes_of(n):
    n, out, d = abs(n), set(), 2
    while d * d <= n:
        while n % d == 0: out.add(d); n //= d
        d += 1
        if d > 2000000: raise OutOfTime('a large number to factor')
    if n > 1: out.add(n)
    return out

# ---------------------------------------------------------------------------------------------- Buchberger with cofactors
def key(m, order):
    """graded reverse lexicographic"""
    d = dict(m)
    return (sum(d.values()), tuple(-d.get(v, 0) for v in reversed(order)))
class Basis:
    def __init__(self, gens, deadline, size=4000):
        self.order = sorted({v for g in gens for v in unknowns(g)}, key=str)
        self.gens, self.deadline, self.size = gens, deadline, size
        self.kc = {}
    def key(self, m):
        k = self.kc.get(m)
        if k is None: k = self.kc[m] = key(m, self.order)
        return k
    def lead(self, p): return max(p, key=self.key)
    def one(self):
        """cofactors q with sum q_i gens_i = 1, or None"""
        G = []                                             # (poly, cofactors, leading monomial), all monic
        pairs = []
        def push(p, cof):
            m = self.lead(p); c = p[m]
            p = {k: x / c for k, x in p.items()}
            cof = {i: {k: x / c for k, x in q.items()} for i, q in cof.items()}
            for i, g in enumerate(G):
                if g is None: continue
                a, b = dict(g[2]), dict(m)
                if not set(a) & set(b): continue           # coprime leading monomials: reduces to zero
                l = {v: max(a.get(v, 0), b.get(v, 0)) for v in set(a) | set(b)}
                pairs.append((sum(l.values()), tuple(sorted(l.items())), i, len(G)))
            G.append((p, cof, m))
            return m == ()
        for i, g in enumerate(sorted(range(len(self.gens)), key=lambda j: (max(sum(e for _, e in m) for m in self.gens[j]), len(self.gens[j])))):
            p, cof = self.reduce({m: Fraction(c) for m, c in self.gens[g].items()}, {g: {(): Fraction(1)}}, G)
            if p and push(p, cof): return G[-1][1]
        while pairs:
            if time.time() > self.deadline: raise OutOfTime('time limit of an algebra obligation')
            pairs.sort(reverse=True)
            _, l, i, j = pairs.pop()
            (p, cp, mp), (q, cq, mq) = G[i], G[j]
            def shift(m):
                d = dict(l)
                for v, e in m: d[v] -= e
                return tuple(sorted((v, e) for v, e in d.items() if e))
            a, b = {shift(mp): Fraction(1)}, {shift(mq): Fraction(1)}
            s = add(mul(a, p), mul(b, q), -1)
            if not s: continue
            cof = {k: mul(a, x) for k, x in cp.items()}
            for k, x in cq.items(): cof[k] = add(cof.get(k, {}), mul(b, x), -1)
            s, cof = self.reduce(s, cof, G)
            if s and push(s, cof): return G[-1][1]
            if sum(len(g[0]) for g in G) > self.size: raise OutOfTime('basis too large')
        return None
    def reduce(self, p, cof, G):
        p, cof = dict(p), {k: dict(x) for k, x in cof.items()}
        rest = {}
        while p:
            if time.time() > self.deadline: raise OutOfTime('time limit of an algebra obligation')
            m = self.lead(p); d = dict(m)
            for q, cq, mq in G:
                if all(d.get(v, 0) >= e for v, e in mq):
                    f = dict(d)
                    for v, e in mq: f[v] -= e
                    t = {tuple(sorted((v, e) for v, e in f.items() if e)): p[m]}
                    p = add(p, mul(t, q), -1)
                    for k, x in cq.items(): cof[k] = add(cof.get(k, {}), mul(t, x), -1)
                    break
            else: rest[m] = p.pop(m)
        return rest, cof

def checked_identity(gens, cof):
    """the identity D = sum (D q_i) gens_i in whole numbers, multiplied out; returns D"""
    D = 1
    for q in cof.values():
        for c in q.values(): D = D * c.denominator // gcd(D, c.denominator)
    tot = {}
    for i, q in cof.items():
        for m, c in q.items():
            k = c * D
            assert k.denominator == 1
            for n, e in gens[i].items():
                x = mono_mul(m, n); y = tot.get(x, 0) + int(k) * e
                if y: tot[x] = y
                else: tot.pop(x, None)
    if tot != {(): D}: raise AssertionError('a certificate does not check')
    return D

# ---------------------------------------------------------------------------------------------- factors
def factors(p):
    """irreducible factors over the whole numbers, or None when not split"""
    if len(p) == 1:
        m = next(iter(p))
        return [{((v, 1),): 1} for v, _ in m] if len(m) > 1 or (m and m[0][1] > 1) else None
    common = None
    for m in p:
        d = dict(m)
        common = d if common is None else {v: min(e, d[v]) for v, e in common.items() if v in d}
    if common:
        q = {tuple(sorted((v, e - common.get(v, 0)) for v, e in m if e > common.get(v, 0))): c for m, c in p.items()}
        return [{((v, 1),): 1} for v in common] + [q]
    us = sorted(unknowns(p), key=str)
    if len(us) > 8 or len(p) > 40 or max(sum(e for _, e in m) for m in p) < 2: return None
    import sympy
    ring = sympy.ring(['z%d' % i for i in range(len(us))], sympy.ZZ)[0]
    ix = {v: i for i, v in enumerate(us)}
    def tup(m):
        t = [0] * len(us)
        for v, e in m: t[ix[v]] = e
        return tuple(t)
    e = ring.from_dict({tup(m): ring.domain(c) for m, c in p.items()})
    c, fs = e.factor_list()
    if len(fs) == 1 and fs[0][1] == 1: return None
    out = [{tuple(sorted((us[i], k) for i, k in enumerate(m) if k)): int(c) for m, c in f.items()} for f, _ in fs]
    tot = {(): int(c)}
    for (f, n), q in zip(fs, out): tot = mul(tot, power(q, n))
    if tot != p: raise AssertionError('a factorisation does not check')
    return out

# ---------------------------------------------------------------------------------------------- refutation
class Refuter:
    def __init__(self, limit=20.0, keep=()):
        self.deadline = time.time() + limit
        self.certificates = self.splits = self.substitutions = 0
        self.fresh = 0
    def run(self, eqs, neqs):
        try: r = self.go([dict(e) for e in eqs], [dict(n) for n in neqs], 0)
        except OutOfTime as e: return 'unknown', str(e)
        return r
    def go(self, eqs, neqs, depth):
        primes = set()
        if time.time() > self.deadline or depth > 60: raise OutOfTime('time limit of an algebra obligation')
        while True:
            new = []
            for e in eqs:
                if not e: continue
                c = content(e)
                if is_const(e): return 'refuted', primes | primes_of(e[()])
                if c > 1: primes |= primes_of(c); e = {m: x // c for m, x in e.items()}
                if e not in new: new.append(e)
            eqs = new
            for n in neqs:
                if not n: return 'refuted', primes
            neqs = [n for n in neqs if not is_const(n)]
            best = None
            for i, e in enumerate(eqs):
                for m, c in e.items():
                    if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                        v = m[0][0]
                        if sum(1 for n in e if any(x == v for x, _ in n)) == 1:
                            k = (len(e), i, str(v))
                            if best is None or k < best[0]: best = (k, i, v, c)
            if not best: break
            _, i, v, c = best
            e = eqs.pop(i)
            q = {m: -x * c for m, x in e.items() if m != ((v, 1),)}
            self.substitutions += 1
            if time.time() > self.deadline: raise OutOfTime('time limit of an algebra obligation')
            eqs = [subst(x, v, q) for x in eqs]; neqs = [subst(x, v, q) for x in neqs]
            if sum(map(len, eqs)) + sum(map(len, neqs)) > 20000: raise OutOfTime('polynomials too large')
        for i, e in sorted(enumerate(eqs), key=lambda x: len(x[1])):
            fs = factors(e)
            if fs:
                self.splits += 1
                out = 'refuted'
                for f in fs:
                    r, x = self.go([f] + eqs[:i] + eqs[i + 1:], neqs, depth + 1)
                    if r == 'refuted': primes |= x
                    else: return r, x
                return 'refuted', primes
        if not eqs and not neqs: return 'consistent', None
        gens = list(eqs)
        for n in neqs:
            self.fresh += 1
            gens.append(add(mul({((1000000 + self.fresh, 1),): 1}, n), {(): 1}, -1))
        if not eqs: return 'consistent', None              # disequations of nonzero polynomials alone
        cof = Basis(gens, self.deadline).one()
        if cof is None: return 'consistent', None
        self.certificates += 1
        return 'refuted', primes | primes_of(checked_identity(gens, cof))

def branches(clauses):
    """the ways of satisfying every clause: lists of (poly, zero?)"""
    out = [[]]
    for c in clauses: out = [b + [l] for b in out for l in c]
    return out
