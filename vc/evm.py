"""Z04, Z05: the EVM arithmetic operations.  The real circuit is built and filled in with unknown words; what its constraints
demand of the cells of an operation, and what is filled in, become obligations over whole numbers."""
import os, json, time, subprocess, traceback, multiprocessing as mp
import z3
import registry

PLACES = (0, 1, 2)
W = 1 << 256

# ---- polynomials with whole coefficients: {(variables in order): coefficient}
def add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        c = r.get(m, 0) + k * c
        if c: r[m] = c
        else: r.pop(m, None)
    return r
def mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n)); r[k] = r.get(k, 0) + c * d
    return {k: c for k, c in r.items() if c}
def const(c): return {(): c} if c else {}
def is_const(p): return not p or (len(p) == 1 and () in p)
def key(p): return tuple(sorted(p.items()))

class World:
    """unknowns with bounds, facts about them, and a solver for linear facts (products count as unknowns of their own)"""
    def __init__(self):
        self.lo, self.hi, self.z, self.side, self.facts = [], [], {}, [], []
        self.time, self.queries = 0.0, 0
    def fresh(self, lo, hi):
        self.lo.append(lo); self.hi.append(hi); return {(len(self.lo) - 1,): 1}
    def span(self, p):
        lo = hi = 0
        for m, c in p.items():
            a = b = 1
            for v in m:
                if self.lo[v] is None: return None, None
                x = (a * self.lo[v], a * self.hi[v], b * self.lo[v], b * self.hi[v]); a, b = min(x), max(x)
            lo += min(a * c, b * c); hi += max(a * c, b * c)
        return lo, hi
    def term(self, p):
        s = []
        for m, c in p.items():
            if m == (): s.append(z3.IntVal(c)); continue
            if m not in self.z:
                v = self.z[m] = z3.Int('x' + '_'.join(map(str, m)))
                a, b = self.span({m: 1})
                if a is not None: self.side += [v >= a, v <= b]
            s.append(c * self.z[m] if c != 1 else self.z[m])
        return z3.Sum(s) if s else z3.IntVal(0)
    def ask(self, extra, limit=20000):
        """is it possible: 'no', 'yes' with a model, or 'unknown'"""
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', limit)
        for f in self.facts + extra: s.add(f)
        for f in self.side: s.add(f)
        r = s.check()
        self.queries += 1; self.time += time.time() - t0
        return ('no', None) if r == z3.unsat else ('yes', s.model()) if r == z3.sat else ('unknown', None)
    def zero(self, p): return self.term(p) == 0
    def parted(self, p):
        """the equation p = 0 with what is divisible by each power of 2^16 named: more facts of the same meaning"""
        out = [self.zero(p)]
        for k in range(16, 257, 16):
            high = {m: c >> k for m, c in p.items() if c % (1 << k) == 0}
            low = {m: c for m, c in p.items() if c % (1 << k)}
            if high and low:
                v = z3.FreshInt('k')
                out += [v == self.term(high), self.term(low) == -(1 << k) * v]
        return out

class Entry:
    def __init__(self, e):
        self.e, self.p = e, int(e['prime'], 16)
        self.cols, self.first, self.height, self.rows = set(e['cols']), e['first'], e['height'], e['rows']
        self.mine = [(r, c) for r in range(self.first, self.first + self.height) for c in e['cols']]
        self.samples = [(int(a, 16), int(b, 16), int(m, 16), {(t, c, r): int(v, 16) for t, c, r, v in cells}) for a, b, m, cells in e['samples']]
    def centre(self, p):
        out = {}
        for m, c in p.items():
            c %= self.p
            if c > self.p // 2: c -= self.p
            if c: out[m] = c
        return out
    def value(self, t, row, cell):
        """the tree of a constraint at a row, cells given by cell(type, column, row) as polynomials"""
        k = t[0]
        if k == 't':
            r = const(int(t[1], 16) % self.p)
            for ty, i, rot, rel in t[2:]:
                if not r: break
                r = self.centre(mul(r, cell(ty, i, (row + rot) % self.rows if rel else rot)))
            return self.centre(r)
        if k == 'p':
            b, r = self.value(t[2], row, cell), const(1)
            for _ in range(t[1]): r = self.centre(mul(r, b))
            return r
        a = self.value(t[1], row, cell)
        if k == '*' and not a: return {}
        b = self.value(t[2], row, cell)
        return self.centre(mul(a, b) if k == '*' else add(a, b, 1 if k == '+' else -1))
    def factors(self, t, row, cell):
        if t[0] == '*': return self.factors(t[1], row, cell) + self.factors(t[2], row, cell)
        if t[0] == 'p' and t[1] > 0: return self.factors(t[2], row, cell)
        return [self.value(t, row, cell)]
    def active(self, cells, rows):
        for g, (sel, cons) in enumerate(self.e['gates']):
            for r in rows:
                s = cells.get((3, sel, r), 0)
                if s == 0: continue
                for i, t in enumerate(cons): yield (sel, i, r), t
    def find(self, what):
        """where the sixteen parts of a word are, judged by the samples"""
        out = []
        for i in range(16):
            at = [(r, c) for r, c in self.mine if all(s[3].get((0, c, r), 0) == what(s) >> (16 * i) & 65535 for s in self.samples)]
            out.append(at[0] if at else None)
        return out

def result_place(E, op, a):
    r = E.find(lambda s: s[2])
    if op == 'ISZERO' and r[0] and all(a):                 # the other parts are zero: where they are follows from the layout of the operand
        r = [r[0]] + [(r[0][0] + a[i][0] - a[0][0], r[0][1] + a[i][1] - a[0][1]) for i in range(1, 16)]
    return r
def small_factors(p):
    """the factors of a polynomial in few unknowns"""
    if len(p) < 2 or len(p) > 12: return [p]
    import sympy
    vs = sorted({v for m in p for v in m})
    if len(vs) > 3: return [p]
    X = {v: sympy.Symbol('x%d' % v) for v in vs}
    e = sum(c * sympy.prod([X[v] for v in m]) for m, c in p.items())
    _, fs = sympy.factor_list(sympy.expand(e), *X.values())
    out = []
    for f, _ in fs:
        q = sympy.Poly(f, *X.values())
        out.append({tuple(v for v, n in zip(vs, ex) for _ in range(n)): int(c) for ex, c in q.terms()})
    return out or [p]

def sound(E, op, where, obls):
    """whatever the cells of the operation hold, what passes is the right result"""
    e, w = E.e, World()
    place = '%s, %s' % (op, ('alone', 'between others', 'after others')[where])
    state = E.samples[0][3]
    same = all({k: v for k, v in s[3].items() if k[0] != 0 or k[1] not in E.cols} == {k: v for k, v in state.items() if k[0] != 0 or k[1] not in E.cols} for s in E.samples)
    obls.append(dict(name='[%s] what tells the operation and its rows apart does not depend on the words' % place, status='proved' if same else 'unknown'))
    a, b, r = E.find(lambda s: s[0]), E.find(lambda s: s[1]), None
    r = result_place(E, op, a)
    if op == 'ISZERO': b = None
    if not all(a) or not all(r) or (b is not None and not all(b)): return 'the cells of the words of %s were not found' % op, w
    vs, wide = {}, set()
    for (rr, c) in E.mine:
        big = any(s[3].get((0, c, rr), 0) >= 65536 for s in E.samples)
        vs[rr, c] = w.fresh(*((None, None) if big else (0, 65535)))
        if big: wide.add(next(iter(vs[rr, c]))[0])
    def cell(t, i, row):
        if t == 0 and i in E.cols:
            if (row, i) not in vs: vs[row, i] = w.fresh(0, 65535)
            return vs[row, i]
        return const(state.get((t, i, row), 0))
    used = dropped = 0
    seen = set()
    for name, t in E.active(state, range(E.first, E.first + E.height)):
        fs = E.factors(t, name[2], cell)
        if any(not f for f in fs): continue
        fs = [f for f in fs if not is_const(f)]
        k = tuple(sorted(map(key, fs)))
        if not fs or k in seen: continue
        seen.add(k)
        alts = []
        for f in fs:
            field = {v for m in f for v in m if v in wide}
            if field:
                v = next(iter(field))
                if len(fs) == 1 and len(field) == 1 and all(m.count(v) <= 1 for m in f):
                    D = {tuple(x for x in m if x != v): c for m, c in f.items() if v in m}
                    R = {m: c for m, c in f.items() if v not in m}
                    if all(max(map(abs, w.span(q))) < E.p for q in (D, R)): alts.append(z3.Implies(w.zero(D), w.zero(R)))
                    else: alts = None; break
                else: alts = None; break
            else:
                for q in small_factors(f):
                    lo, hi = w.span(q)
                    if max(abs(lo), abs(hi)) >= E.p: alts = None; break
                    alts.append(w.parted(q) if len(fs) == 1 and len(small_factors(f)) == 1 else [w.zero(q)])
                if alts is None: break
        if not alts: dropped += 1; continue
        used += 1
        if len(alts) == 1: w.facts += alts[0] if isinstance(alts[0], list) else [alts[0]]
        else: w.facts.append(z3.Or([z3.And(x) if isinstance(x, list) else x for x in alts]))
    word = lambda at: {next(iter(vs[p])): 1 << (16 * i) for i, p in enumerate(at)}
    A, R = word(a), word(r)
    pos = lambda at: ','.join('%d.%d' % p for p in at)
    def case(m):
        vals = {p: m.eval(w.z[next(iter(v))], model_completion=True).as_long() if next(iter(v)) in w.z else 0 for p, v in vs.items()}
        # unknowns of the whole field: found from the constraint they occur in
        asg = {next(iter(v))[0]: vals[p] for p, v in vs.items()}
        for name, t in E.active(state, range(E.first, E.first + E.height)):
            f = E.value(t, name[2], cell)
            for v in {x for mm in f for x in mm if x in wide}:
                D = R0 = 0
                for mm, c in f.items():
                    x = c
                    for y in mm:
                        if y != v: x *= asg[y]
                    if v in mm: D += x
                    else: R0 += x
                if D % E.p: asg[v] = -R0 * pow(D, -1, E.p) % E.p
        txt = ','.join('%d.%d=%x' % (p[0], p[1], asg[next(iter(v))[0]]) for p, v in sorted(vs.items()) if asg[next(iter(v))[0]] or p in E.mine)
        return ['sound:%s:%d:%s:%s:%s:%s' % (op, where, txt, pos(a), pos(b) if b else '-', pos(r))]
    def settle(name, wrong, tries=()):
        ans, m = w.ask(wrong, 60000)
        o = dict(name='[%s] %s' % (place, name), status='proved' if ans == 'no' else 'unknown')
        if ans == 'yes':
            o['status'], o['goal'] = 'failed', name
            o['case'] = case(m)
        for more in tries if ans != 'no' else ():
            ans, m = w.ask(wrong + more, 20000)
            if ans == 'yes': o['status'], o['case'] = 'failed', case(m); break
        obls.append(o)
    # the constraints can be met at all
    ans, _ = w.ask([], 30000)
    obls.append(dict(name='[%s] some cells meet the constraints' % place, status='proved' if ans == 'yes' else 'unknown'))
    if op == 'ISZERO':
        z = z3.And([w.zero(vs[p]) for p in a])
        settle('a zero word gives one', [z, w.term(R) != 1])
        settle('any other word gives zero', [z3.Not(z), w.term(R) != 0])
        return None, w
    B = word(b)
    D = add(add(A, B) if op == 'ADD' else add(A, B, -1) if op == 'SUB' else mul(A, B), R, -1)
    q, m = z3.FreshInt('q'), z3.FreshInt('m')
    low, high = {k: c for k, c in D.items() if c % W}, {k: c // W for k, c in D.items() if c % W == 0}
    # the difference from the right result leaves a remainder by 2^256
    wrong = [w.term(low) == W * q + m, m > 0, m < W]
    tries = []
    for x in (0, 1, 65535, 65536, 1 << 64, 1 << 128, W - 1, (1 << 255) + 3, 0x1234567890abcdef):
        for y in (1, W - 1, 3, 1 << 128, 0xffffffff00000001):
            fix = [w.term(vs[p]) == (x >> 16 * i & 65535) for i, p in enumerate(a)] + [w.term(vs[p]) == (y >> 16 * i & 65535) for i, p in enumerate(b)]
            tries.append(fix + [w.z[mm] == prod([x >> 16 * i0 & 65535 if s == 0 else y >> 16 * i0 & 65535 for s, i0 in [where_is(v, vs, a, b) for v in mm]]) for mm in list(w.z) if len(mm) > 1 and all(where_is(v, vs, a, b) for v in mm)] if op == 'MUL' else fix)
    settle('what passes is the right result', wrong, tries)
    return None, w
def prod(l):
    r = 1
    for x in l: r *= x
    return r
def where_is(v, vs, a, b):
    for s, at in ((0, a), (1, b)):
        for i, p in enumerate(at):
            if next(iter(vs[p])) == (v,): return s, i
    return None

# ---- division: constraints over the whole field (inverses) next to those over whole numbers
def divided(C, L):
    """C / L where it goes without a rest, else None"""
    lead = max(L)
    q, C = {}, dict(C)
    while C:
        m = max((x for x in C if all(x.count(v) >= lead.count(v) for v in set(lead))), default=None)
        if m is None or C[m] % L[lead] or len(q) > 200: return None
        rest = list(m)
        for v in lead: rest.remove(v)
        k = {tuple(rest): C[m] // L[lead]}
        q = add(q, k); C = add(C, mul(k, L), -1)
    return q
def by(f, v):
    """f = rest + v * coefficient, for f linear in v"""
    C = {}
    for m, c in f.items():
        if v in m: x = list(m); x.remove(v); C[tuple(x)] = c
    return {m: c for m, c in f.items() if v not in m}, C

class Division:
    """the constraints of the rows of a division under a hypothesis about the divisor"""
    def __init__(self, E, hyp):
        self.E, self.w = E, World()
        self.state = E.samples[0][3]
        self.vs, self.wide = {}, set()
        for (r, c) in E.mine:
            big = any(s[3].get((0, c, r), 0) >= 65536 for s in E.samples)
            self.vs[r, c] = self.w.fresh(*((None, None) if big else (0, 65535)))
            if big: self.wide.add(next(iter(self.vs[r, c]))[0])
        self.known = {}                                    # v: L with v * L = 1 if L is not zero
        self.guess = {}
        seen, self.cons = set(), []
        for name, t in E.active(self.state, range(E.first, E.first + E.height)):
            fs = E.factors(t, name[2], self.cell)
            if any(not f for f in fs): continue
            fs = [f for f in fs if not is_const(f)]
            k = tuple(sorted(map(key, fs)))
            if fs and k not in seen: seen.add(k); self.cons.append(fs)
        for fs in self.cons:
            for g in fs:
                for h in fs: self.inverse(g, h, self.guess)
        self.w.facts += hyp(self)
        whole, again = list(self.cons), True
        while again:                                       # factors that cannot be zero, and what is an inverse of what
            again = False
            for i, fs in enumerate(whole):
                left = [f for f in fs if not self.nonzero(f)]
                if len(left) < len(self.cons[i]): self.cons[i] = left; again = True
                for g in fs:
                    for h in fs:
                        if g is not h and all(f is g or f is h for f in left): again |= self.inverse(g, h, self.known)
        self.half = {}                                     # v: (L, choice) with v = 0 or v * L = 1
        for fs in self.cons:
            if len(fs) != 2: continue
            for g, h in (fs, fs[::-1]):
                if len(g) == 1 and self.fields(g) == self.fields(h) and len(next(iter(g))) == 1:
                    v = next(iter(g))[0]
                    R, C = by(h, v)
                    if v in self.known or v in self.half or any(m.count(v) > 1 for m in h) or not R or not is_const(R) or any(c % R[()] for c in C.values()): continue
                    L = {m: -c // R[()] for m, c in C.items()}
                    if self.small(L): self.half[v] = L, z3.FreshBool('h'); self.w.facts.append(z3.Implies(self.half[v][1], z3.Not(self.w.zero(L))))
        self.dropped = 0
        for fs in self.cons:
            alts = [self.holds(f, len(fs) == 1) for f in fs]
            if None in alts: self.dropped += 1; continue
            if len(alts) == 1: self.w.facts += alts[0]
            else: self.w.facts.append(z3.Or([z3.And(x) for x in alts]))
    def cell(self, t, i, row):
        if t == 0 and i in self.E.cols:
            if (row, i) not in self.vs: self.vs[row, i] = self.w.fresh(0, 65535)
            return self.vs[row, i]
        return const(self.state.get((t, i, row), 0))
    def fields(self, f): return {v for m in f for v in m if v in self.wide}
    def small(self, f):
        a, b = self.w.span(f)
        return a is not None and max(abs(a), abs(b)) < self.E.p
    def inverse(self, g, h, into):
        """g * h = 0 with h = c * (1 - v * g)"""
        hv = self.fields(h)
        if len(hv) != 1 or self.fields(g): return False
        v = next(iter(hv))
        if v in into or any(m.count(v) > 1 for m in h): return False
        R, C = by(h, v)
        if not R or not is_const(R) or not self.small(g): return False
        if add(C, g, R[()]): return False
        into[v] = g
        return True
    memo = None
    def nonzero(self, f):
        self.memo = self.memo if self.memo is not None else {}
        k = key(f)
        if k in self.memo: return self.memo[k]
        fv = self.fields(f)
        if not fv: r = self.small(f) and len(f) < 40 and self.w.ask([self.w.zero(f)], 5000)[0] == 'no'
        elif len(fv) == 1 and next(iter(fv)) in self.known:
            v = next(iter(fv)); L = self.known[v]
            if any(m.count(v) > 1 for m in f) or not self.nonzero(L): return False
            R, C = by(f, v); q = divided(C, L)
            # f = R + v C; times L it is L R + C
            g = add(R, q) if q is not None else add(mul(L, R), C)
            r = self.small(g) and (bool(g) if is_const(g) else len(g) < 40 and self.w.ask([self.w.zero(g)], 5000)[0] == 'no')
        else: return False                                 # may be found out later
        self.memo[k] = r
        return r
    def holds(self, f, alone):
        w, fv = self.w, self.fields(f)
        if not fv: return (w.parted(f) if alone else [w.zero(f)]) if self.small(f) else None
        if len(fv) != 1: return None
        v = next(iter(fv))
        if any(m.count(v) > 1 for m in f):
            # v * (something): one of the two is zero
            if all(v in m for m in f):
                g = self.holds(by(f, v)[1], False) if all(m.count(v) <= 2 for m in f) else None
                z = self.holds({(v,): 1}, False)
                return [z3.Or(z3.And(g), z3.And(z))] if g and z else None
            return None
        R, C = by(f, v)
        if not (self.small(R) and self.small(C)): return None
        weak = z3.Implies(w.zero(C), w.zero(R))
        L = self.known.get(v)
        if v in self.half:
            L, yes = self.half[v]
            q = divided(C, L)
            g = add(R, q) if q is not None else add(mul(L, R), C)
            return [z3.Implies(yes, w.zero(g)), z3.Implies(z3.Not(yes), w.zero(R))] if self.small(g) else [weak]
        if L is None: return [weak]
        q = divided(C, L)
        g = add(R, q) if q is not None else add(mul(L, R), C)
        if not self.small(g): return [weak]
        return [weak if q is None else z3.Implies(w.zero(L), w.zero(R)), z3.Or(w.zero(L), w.zero(g))]
    def word(self, at): return {next(iter(self.vs[p])): 1 << (16 * i) for i, p in enumerate(at)}
    def values(self, m):
        asg = {}
        for p, x in self.vs.items():
            x = next(iter(x))
            asg[x[0]] = m.eval(self.w.z[x], model_completion=True).as_long() if x in self.w.z else 0
        at = lambda f: sum(c * prod([asg[y] for y in mm]) for mm, c in f.items()) % self.E.p
        for v in sorted(self.wide, key=lambda v: v not in self.known):
            L = self.known.get(v) or (self.half[v][0] if v in self.half else self.guess.get(v))
            one = [by(fs[0], v) for fs in self.cons if len(fs) == 1 and self.fields(fs[0]) == {v} and all(m.count(v) <= 1 for m in fs[0])]
            one = [(R, C) for R, C in one if at(C)] if v not in self.known and v not in self.half else []
            if one: asg[v] = -at(one[0][0]) * pow(at(one[0][1]), -1, self.E.p) % self.E.p
            elif v in self.half and not z3.is_true(m.eval(self.half[v][1], model_completion=True)): asg[v] = 0
            elif L is not None: asg[v] = pow(at(L), -1, self.E.p) if at(L) else 0
        return ','.join('%d.%d=%x' % (p[0], p[1], asg[next(iter(x))[0]]) for p, x in sorted(self.vs.items()) if p in self.E.mine)

def sound_div(E, where, obls):
    place = 'DIV, %s' % ('alone', 'between others', 'after others')[where]
    other = lambda s: {k: v for k, v in s[3].items() if k[0] != 0 or k[1] not in E.cols}
    obls.append(dict(name='[%s] what tells the operation and its rows apart does not depend on the words' % place, status='proved' if all(other(s) == other(E.samples[0]) for s in E.samples) else 'unknown'))
    a, b, r = E.find(lambda s: s[0]), E.find(lambda s: s[1]), E.find(lambda s: s[2])
    q = E.find(lambda s: s[0] - s[1] * s[2])
    if not all(a + b + r + q): return 'the cells of the words of DIV were not found', 0, 0
    pos = lambda at: ','.join('%d.%d' % p for p in at)
    tm, qs = [0.0], [0]
    def case(d, m): return ['sound:DIV:%d:%s:%s:%s:%s' % (where, d.values(m), pos(a), pos(b), pos(r))]
    def fixed(d, at, x): return [d.w.term(d.vs[p]) == (x >> 16 * i & 65535) for i, p in enumerate(at)]
    def products(d, x, y):
        """quotient and divisor fixed: their products are numbers"""
        l = {next(iter(d.vs[p]))[0]: v >> 16 * i & 65535 for at, v in ((r, x), (b, y)) for i, p in enumerate(at)}
        return fixed(d, r, x) + fixed(d, b, y) + [d.w.z[m] == prod([l[v] for v in m]) for m in list(d.w.z) if len(m) > 1 and all(v in l for v in m)]
    def settle(d, name, wrong, tries):
        ans, m = d.w.ask([], 30000)
        obls.append(dict(name='[%s] some cells meet the constraints: %s' % (place, name), status='proved' if ans == 'yes' else 'unknown'))
        ans, m = d.w.ask(wrong, 60000)
        o = dict(name='[%s] %s' % (place, name), status='proved' if ans == 'no' else 'unknown')
        if ans != 'no':
            o['goal'], o['case'] = name, []
            if ans == 'yes': o['status'] = 'failed'; o['case'] += case(d, m)
            for more in tries:
                if len(o['case']) >= 6: break
                a2, m = d.w.ask(wrong + more, 10000)
                if a2 == 'yes': o['status'] = 'failed'; o['case'] += case(d, m)
            if not o['case']: del o['case']
            else: o['case'].reverse()
        obls.append(o)
        tm[0] += d.w.time; qs[0] += d.w.queries
    PAIRS = [(x, y) for x in (0, 1, 5, 65536, 1 << 64, (1 << 128) - 1, 1 << 192, 1 << 255, W - 1) for y in (2, 1, 65535, 1 << 64, (1 << 64) + 1, 1 << 128, 1 << 192, 1 << 240, W - 1, 1 << 16, 1 << 32, 1 << 48)]
    # any divisor: the products are those of the dividend, not only modulo 2^256
    d = Division(E, lambda d: [])
    D = add(add(d.word(a), d.word(q), -1), mul(d.word(r), d.word(b)), -1)
    wrong = [d.w.term(D) != 0]
    tries = []
    for x, y in PAIRS:
        A, k = d.w.term(d.word(a)), d.w.term(d.word(q))
        tries.append(products(d, x, y) + [z3.Or(A < x * y, A >= x * y + y), k < y])
    for x, y in PAIRS: tries.append(products(d, x, y) + [z3.Or(A < x * y, A >= x * y + y)])
    settle(d, 'quotient times divisor plus remainder is the dividend', wrong, tries)
    d = Division(E, lambda d: [d.w.zero(d.vs[p]) for p in b])
    settle(d, 'division by zero gives zero', [z3.Or([d.w.term(d.vs[p]) != 0 for p in r])], [products(d, x, 0) for x in (1, 65536, 1 << 255)])
    d = Division(E, lambda d: [z3.Or([d.w.term(d.vs[p]) != 0 for p in b])])
    flags = {next(iter(d.vs[p]))[0] for p in b + q}
    for m in [m for m in d.w.z if len(m) == 2]:            # products with what is 0 or 1
        for u, v in (m, m[::-1]):
            if v in flags and u not in flags: u, v = d.w.term({(u,): 1}), d.w.term({(v,): 1}); d.w.facts += [z3.Implies(u == 0, d.w.z[m] == 0), z3.Implies(u == 1, d.w.z[m] == v)]
    over = [d.w.term(add(d.word(q), d.word(b), -1)) >= 0]
    some = [products(d, x, y) for x, y in PAIRS if 0 < y and x * y + y < W]
    same = [d.w.term(add(d.vs[x], d.vs[y], -1)) == 0 for x, y in zip(q, b)]
    settle(d, 'the remainder is below the divisor', over, some + [s + same for s in some[:6]])
    return None, tm[0], qs[0]

# ---- what is filled in
class Filled:
    def __init__(self, E, path):
        self.E, self.w, self.path = E, World(), path
        self.vals, self.relations, self.memo, self.words, self.need, self.hyp = {}, [], {}, {}, [], []
    def within(self, p, lo, hi):
        a, b = self.w.span(p)
        if a is not None and a >= lo and b <= hi: return True
        if a is None: return False
        goal = []
        if a < lo: goal.append(self.w.term(p) < lo)
        if b > hi: goal.append(self.w.term(p) > hi)
        return all(self.w.ask([g], 10000)[0] == 'no' for g in goal)
    def force(self, v):
        p, m = v
        if m is None or self.within(p, 0, m - 1): return p
        return self.divmod(p, m)[1]
    def divmod(self, p, m):
        k = (key(p), m)
        if k in self.memo: return self.memo[k]
        high, low = {x: c // m for x, c in p.items() if c % m == 0}, {x: c for x, c in p.items() if c % m}
        a, b = self.w.span(low)
        if a is None: raise ValueError('remainder of a field element')
        if a >= 0 and b < m: r = high, low
        else:
            a, b = self.w.span(p)
            q, rem = self.w.fresh(a // m, b // m), self.w.fresh(0, m - 1)
            eq = add(add(p, q, -m), rem, -1)
            self.w.facts += self.w.parted(eq)
            self.eqs.append(eq)
            r = q, rem
        self.memo[k] = r
        return r
    def field(self, i):
        """a number that stands for what the node is in the field"""
        x = self.node(i)
        return x[0] if x[1] in (None, self.E.p) else self.force(x)
    def alike(self, a, b):
        """both are the same number, or None if that is not a question about the field"""
        if self.node(a)[1] != self.E.p and self.node(b)[1] != self.E.p: return None
        d = add(self.field(a), self.field(b), -1)
        lo, hi = self.w.span(d)
        return self.w.zero(d) if lo is not None and max(-lo, hi) < self.E.p else None
    def quotient(self, a, b):
        """quotient and remainder by an unknown, which the questions asked have shown not to be zero"""
        A, B = self.force(self.node(a)), self.force(self.node(b))
        k = (key(A), key(B))
        if k not in self.memo:
            if not (self.within(A, 0, W - 1) and self.within(B, 0, W - 1)): raise ValueError('division of something other than words')
            if self.w.ask([self.w.zero(B)] + self.answers())[0] != 'no': raise ValueError('division by what may be zero')
            q, r = ({next(iter(self.w.fresh(0, 65535))): 1 << 16 * j for j in range(16)} for _ in range(2))
            self.w.facts += self.w.parted(add(add(A, mul(q, B), -1), r, -1)) + [self.w.term(add(r, B, -1)) < 0]
            self.memo[k] = q, r
        return self.memo[k]
    def answers(self):
        """what the answers that need no quotient say"""
        out = []
        for rel, a, b, yes in self.path['asked']:
            if rel == '=' and all(x in self.vals or self.path['nodes'][x][0] in 'xc' for x in (a, b)):
                f = self.w.zero(add(self.force(self.node(a)), self.force(self.node(b)), -1)); out.append(f if yes else z3.Not(f))
        return out
    eqs = None
    def node(self, i):
        if i in self.vals: return self.vals[i]
        op, a, b, v = self.path['nodes'][i]
        v = int(v, 16)
        if op == 'c': r = const(v), None
        elif op == 'x':
            parts = [self.w.fresh(0, 65535) for _ in range(16)]
            self.words[a] = parts
            r = {next(iter(x)): 1 << 16 * k for k, x in enumerate(parts)}, None
        elif op == 'i':
            p = self.field(a); x = self.w.fresh(None, None)
            self.relations.append(add(mul(p, x), const(1), -1)); self.need.append(p)
            r = x, None
        elif op == '%':
            x, m = self.node(a), self.node(b)
            if not is_const(m[0]): self.vals[i] = self.quotient(a, b)[1], None; return self.vals[i]
            m = m[0].get((), 0)
            p = x[0] if x[1] in (None, m) else self.force(x)
            r = p, m
        elif op == '/':
            m = self.node(b)[0]
            if not is_const(m): self.vals[i] = self.quotient(a, b)[0], None; return self.vals[i]
            r = self.divmod(self.force(self.node(a)), m.get((), 0))[0], None
        else:
            x, y = self.node(a), self.node(b)
            # operations that a remainder by the same number follows may use what comes before the remainder
            m = self.then.get(i)
            px, py = (x[0] if x[1] in (None, m) and m else self.force(x)), (y[0] if y[1] in (None, m) and m else self.force(y))
            r = mul(px, py) if op == '*' else add(px, py, 1 if op == '+' else -1), None
            if m == self.E.p: r = self.E.centre(r[0]), None
        self.vals[i] = r
        return r
    def run(self, obls, place, case):
        self.eqs = []
        nodes = self.path['nodes']
        self.then = {}
        users = {}
        for i, (op, a, b, v) in enumerate(nodes):
            if op in '+-*/%':
                for x in (a, b): users.setdefault(x, []).append(i)
            elif op == 'i': users.setdefault(a, []).append(i)
        for i, (op, a, b, v) in enumerate(nodes):
            if op in '+-*':
                ms = {int(nodes[nodes[u][2]][3], 16) if nodes[u][0] == '%' and nodes[u][1] == i and nodes[nodes[u][2]][0] == 'c' else None for u in users.get(i, [])}
                if len(ms) == 1 and None not in ms: self.then[i] = ms.pop()
        for rel, a, b, yes in self.path['asked']:
            f = self.alike(a, b) if rel == '=' else None
            if f is None:
                x, y = self.force(self.node(a)), self.force(self.node(b))
                d = self.w.term(add(x, y, -1))
                f = d == 0 if rel == '=' else d < 0
            self.w.facts.append(f if yes else z3.Not(f))
        feasible = self.w.ask([], 10000)[0]
        if feasible == 'no': return False
        for p in self.need:
            ok = self.w.ask([self.w.zero(p)])[0] == 'no' and self.within(p, -self.E.p + 1, self.E.p - 1)
            obls.append(dict(name='[%s] what is inverted is not zero' % place, status='proved' if ok else 'unknown'))
        cells = {}
        for t, c, r, v in self.path['cells']:
            if v[0] == 'n' and v != 'n':
                x = self.node(int(v[1:]))
                cells[t, c, r] = x[0] if x[1] in (None, self.E.p) else self.force(x)
            else: cells[t, c, r] = const(int(v, 16))
        sel = {k: (v.get((), 0) if is_const(v) else 1) for k, v in cells.items() if k[0] == 3}
        cell = lambda t, i, r: cells.get((t, i, r), {})
        plain = 0
        for name, t in self.E.active(sel, range(self.E.rows)):
            f = self.E.value(t, name[2], cell)
            if not f: plain += 1; continue
            if sum(o['status'] != 'proved' for o in obls) >= 4: break
            o = dict(name='[%s] constraint %d of gate %d holds in row %d' % (place, name[1], name[0], name[2]), status='proved')
            obls.append(o)
            gs = [g for g in self.E.factors(t, name[2], cell) if not is_const(g)]
            if any(not self.E.centre(add(g, R, k)) for g in gs + [f] for R in self.relations for k in (1, -1)): continue
            fs = [q for g in gs for q in small_factors(g)]
            fs = [q for q in fs if self.w.span(q)[0] is not None and self.within(q, -self.E.p + 1, self.E.p - 1)]
            ans, m = self.w.ask([self.w.term(q) != 0 for q in fs], 90000) if fs else ('unknown', None)
            if ans == 'no': self.w.facts += self.w.parted(fs[0]) if len(fs) == 1 else [z3.Or([self.w.zero(q) for q in fs])]
            else:
                o['status'] = 'failed' if ans == 'yes' else 'unknown'
                if m is None: _, m = self.w.ask([], 10000)
                if m is not None: o['goal'], o['case'] = o['name'], case(self, m)
        obls.append(dict(name='[%s] every other constraint of every row vanishes identically' % place, status='proved' if plain else 'unknown'))
        return True

def filled(E, op, where, obls, reached, only=None):
    place = '%s, %s' % (op, ('alone', 'between others', 'after others')[where])
    t = q = 0.0
    if 'unsupported' in E.e: return 'filling in is outside the supported fragment: %s' % E.e['unsupported'], 0, 0
    def case(f, m):
        v = lambda k: sum((m.eval(f.w.z[next(iter(x))], model_completion=True).as_long() if next(iter(x)) in f.w.z else 0) << 16 * i for i, x in enumerate(f.words.get(k, [])))
        return ['fill:%s:%d:%x:%x' % (op, where, v(0), v(1))]
    live = 0
    for i, p in enumerate(E.e['paths']):
        if only not in (None, i): continue
        if sum(o['status'] != 'proved' for o in obls) >= 4:
            obls.append(dict(name='[%s] the cases from %d on' % (place, i), status='unknown')); break      # failed already
        f = Filled(E, p)
        live += bool(f.run(obls, '%s, case %d' % (place, i), case))
        t += f.w.time; q += f.w.queries
    reached['filling in %s%s' % (place, '' if only is None else ', case %d' % only)] = live > 0
    return None, t, q

def result(prop, op, where, err, obls, reached, qs, tm, t0):
    return dict(job='%s/%d' % (op, where), err=err, obls=obls, reached=reached, visited=registry.PROPS[prop]['functions'], cut=[], unrolled=[], assumptions=[], used=[], queries=qs, time=tm, unknown=0, by={'z3': qs}, lemmas=0, wall=time.time() - t0)
def run_entry(a):
    exe, op, where, part = a
    import run as R
    t0, obls, reached, err, qs, tm = time.time(), [], {}, None, 0, 0.0
    try:
        c, out = R.oracle(exe, ['dump', op, str(where)], 200)
        if c != 0: raise RuntimeError('dump ended with %s: %s' % (c, out[-300:]))
        E = Entry(json.loads(out))
        if op == 'DIV':
            if part is not None:
                # the same answers to every question: the same case
                if any(E.e['paths'][k]['asked'] == E.e['paths'][part]['asked'] for k in range(part)): return result('Z05', op, where, None, obls, reached, 0, 0, t0)
                err, tm, qs = filled(E, op, where, obls, reached, part)
                return result('Z05', op, where, err, obls, reached, int(qs), tm, t0)
            err, tm, qs = sound_div(E, where, obls)
            reached['constraints of DIV, place %d' % where] = any('some cells meet' in o['name'] and o['status'] == 'proved' for o in obls)
            return result('Z05', op, where, err, obls, reached, qs, tm, t0)
        err, w = sound(E, op, where, obls)
        qs += w.queries; tm += w.time
        reached['constraints of %s, place %d' % (op, where)] = any(o['name'].endswith('some cells meet the constraints') and o['status'] == 'proved' for o in obls)
        e2, t, q = filled(E, op, where, obls, reached)
        qs += int(q); tm += t
        err = err or e2
    except Exception: err = 'generator error: %s' % traceback.format_exc()[-1500:]
    return result('Z04', op, where, err, obls, reached, qs, tm, t0)

def main(prop):
    import run as R
    P = registry.PROPS[prop]
    t0 = time.time()
    exe, builderr = R.build_oracle(P['oracle'])
    if not exe: return R.verdict(prop, P, t0, 'the circuit does not compile with the stand-in numbers', [], None, builderr, None, '')
    search = subprocess.Popen([exe, 'search', prop, str(R.SEED), R.TIER], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    results = []
    pool = mp.get_context('fork').Pool(min(7, max(1, os.cpu_count() or 1)), maxtasksperchild=1)
    todo = [(op, k, None) for op in P['ops'] for k in PLACES]
    if 'DIV' in P['ops']: todo += [('DIV', k, i) for k in PLACES for i in (range(16) if k == 0 else (0, 2, 9, 14))]
    hs = [((op, k), pool.apply_async(run_entry, ((exe, op, k, i),))) for op, k, i in todo]
    end = time.time() + (420 if R.TIER == 'quick' else 3000)
    for (op, k), h in hs:
        try: results.append(h.get(max(1, end - time.time())))
        except Exception as x: results.append(dict(job='%s/%d' % (op, k), err='worker failed: %r' % x, obls=[], reached={}, visited=[], cut=[], unrolled=[], assumptions=[], used=[], queries=0, time=0, unknown=0, by={}, lemmas=0, wall=0))
    pool.terminate()
    try: out, _ = search.communicate(timeout=300 if R.TIER == 'quick' else 3000); code = search.returncode
    except subprocess.TimeoutExpired: search.kill(); out, code = search.communicate()[0] or '', 'timeout'
    try: return R.verdict(prop, P, t0, None, results, exe, builderr, code, out)
    finally:
        if os.path.exists(exe): os.remove(exe)
