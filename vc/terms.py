"""Terms, lemma instantiation and the solver interface of the verification-condition generator.

Integers are mathematical; divisibility is an uninterpreted predicate D(s, t) ("s divides t") used through
instances of lemmas that are proved once in lean/ (see LEMMAS below).  Quantified facts are Python closures that
are instantiated over the terms of a query, so every query sent to a solver is quantifier free.
"""
import time, itertools, z3

I = z3.IntSort()
D = z3.Function('D', I, I, z3.BoolSort())
REM = z3.Function('REM', I, I, I)        # REM(s, a): remainder in [0, s) of a >= 0 by s > 0
QUO = z3.Function('QUO', I, I, I)
RES = z3.Function('RES', I, I, I)       # v mod s of an unknown v
U32 = 2 ** 32
END = U32                                # end mark of a set iterator

LEMMAS = [
    "D(s,0)", "D(s,a) & D(s,b) -> D(s,a-b), D(s,a+b)", "D(s,a) & s>0 -> a=0 | a>=s | a<=-s",
    "0 <= REM(s,a) < s & D(s, a-REM(s,a)) for s>0", "a = s*QUO(s,a) + REM(s,a)", "D(g,s) & D(s,t) -> D(g,t)",
]

class Unsupported(Exception):
    """The code left the fragment the generator understands (not a verdict about the code)."""

def is_num(t): return isinstance(t, int) or z3.is_int_value(t)
def num(t): return t if isinstance(t, int) else t.as_long()
def tz(t): return z3.IntVal(t) if isinstance(t, int) else t

# ---- linear normal form ---------------------------------------------------------------------------------
_lin_cache = {}
def lin(t):
    """z3 Int term -> (dict atom_id -> (atom, coef), const)"""
    if isinstance(t, int): return {}, t
    k = t.get_id()
    r = _lin_cache.get(k)
    if r is not None and r[0].eq(t): return r[1]
    out = _lin(t)
    _lin_cache[k] = (t, out)
    return out

def _lin(t):
    if z3.is_int_value(t): return {}, t.as_long()
    if z3.is_app(t):
        dk = t.decl().kind()
        if dk == z3.Z3_OP_ADD or dk == z3.Z3_OP_SUB:
            m, c = {}, 0
            for i, a in enumerate(t.children()):
                s = -1 if (dk == z3.Z3_OP_SUB and i) else 1
                am, ac = lin(a)
                c += s * ac
                for k, (x, q) in am.items():
                    n = m.get(k, (x, 0))[1] + s * q
                    m[k] = (x, n)
            return {k: v for k, v in m.items() if v[1]}, c
        if dk == z3.Z3_OP_UMINUS:
            am, ac = lin(t.children()[0])
            return {k: (x, -q) for k, (x, q) in am.items()}, -ac
        if dk == z3.Z3_OP_MUL:
            k0, rest = 1, []
            for a in t.children():
                m, c = lin(a)
                if not m: k0 *= c
                else: rest.append((m, c))
            if not rest: return {}, k0
            if len(rest) == 1:
                m, c = rest[0]
                return {k: (x, q * k0) for k, (x, q) in m.items() if q * k0}, c * k0
    return {t.get_id(): (t, 1)}, 0

def unlin(m, c):
    parts = [x if q == 1 else q * x for _, (x, q) in sorted(m.items())]
    if c or not parts: parts.append(z3.IntVal(c))
    return parts[0] if len(parts) == 1 else z3.Sum(parts)

def norm(t):
    if isinstance(t, int): return t
    m, c = lin(t)
    if not m: return c
    return unlin(m, c)

def same(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    m, c = lin(tz(a) - tz(b))
    return not m and c == 0

# ---- products: every monomial of two or more unknowns is one constant, with its factors on record
MONO = {}                                # factor ids -> constant
FACTORS = {}                             # constant id -> (constant, factors)
def factors(a):
    r = FACTORS.get(a.get_id())
    return list(r[1]) if r is not None and r[0].eq(a) else [a]
def mono(fs):
    fs = sorted(fs, key=lambda x: x.get_id())
    if len(fs) == 1: return fs[0]
    k = tuple(x.get_id() for x in fs)
    if k not in MONO:
        c = z3.Int('mono!%d' % len(MONO))
        MONO[k] = (c, fs); FACTORS[c.get_id()] = (c, fs)
    return MONO[k][0]
def pmul(a, b):
    """the product as a linear combination of monomials"""
    (m1, c1), (m2, c2) = lin(a), lin(b)
    out = z3.IntVal(c1 * c2)
    for x, q in m1.values():
        if q * c2: out = out + (q * c2) * x
        for y, r in m2.values(): out = out + (q * r) * mono(factors(x) + factors(y))
    for y, r in m2.values():
        if r * c1: out = out + (r * c1) * y
    return norm(out)

def mkD(s, t):
    """s divides t, in a canonical form"""
    if is_num(s):
        s = num(s)
        if s in (1, -1): return z3.BoolVal(True)
    m, c = lin(t)
    m = dict(m)
    if isinstance(s, int):
        if s == 0: return tz(t) == 0
        c %= s
        m = {k: (x, q % s) for k, (x, q) in m.items() if q % s}
        if not m: return z3.BoolVal(c == 0)
        return tz(unlin(m, c)) % s == 0
    sm, sc = lin(s)
    if sc == 0 and len(sm) == 1:           # drop multiples of s
        (k, (x, q)), = sm.items()
        if k in m and m[k][1] % q == 0: del m[k]
        if q == 1:
            for kk in [kk for kk, (y, _) in m.items() if kk in FACTORS and any(z.eq(x) for z in factors(y))]: del m[kk]
    if not m and c == 0: return z3.BoolVal(True)
    first = min(m) if m else None
    neg = m[first][1] < 0 if m else c < 0
    if neg:
        m = {k: (x, -q) for k, (x, q) in m.items()}; c = -c
    return D(s, tz(unlin(m, c)))

# ---- finite sets ----------------------------------------------------------------------------------------
class SetV:
    """An immutable finite set of numbers in [0, 2^32).  mem: membership as a formula."""
    n = 0
    registry = {}
    def __init__(self, mem=None, base=None, name='S'):
        SetV.n += 1
        self.id = SetV.n
        self.name = '%s%d' % (name, self.id)
        self.base = base                     # True for a fresh symbol
        if mem is None:
            f = z3.Function('MEM_' + self.name, I, z3.BoolSort())
            self.mem = lambda t: f(tz(t))
            self.base = True
            self.f = f
        else:
            self.mem = mem
        self._lb = self._ub = self._idx = self._card = self._wsum = self._pmax = None
        SetV.registry[self.name] = self
    def lb(self, v):
        if self._lb is None: self._lb = z3.Function('LB_' + self.name, I, I)
        return self._lb(tz(norm(v)))
    def ub(self, v):
        if self._ub is None: self._ub = z3.Function('UB_' + self.name, I, I)
        return self._ub(tz(norm(v)))
    def idx(self, v):
        if self._idx is None: self._idx = z3.Function('IDX_' + self.name, I, I)
        return self._idx(tz(norm(v)))
    def wsum(self, v):
        """sum of the weights (function W) of the elements below v"""
        if self._wsum is None: self._wsum = z3.Function('WSUM_' + self.name, I, I)
        return self._wsum(tz(norm(v)))
    def pmax(self, v):
        """largest weight (or 0) of the elements below v"""
        if self._pmax is None: self._pmax = z3.Function('PMAX_' + self.name, I, I)
        return self._pmax(tz(norm(v)))
    def card(self): return self.idx(END)

W = z3.Function('WEIGHT', I, I)
TKEY, TID = z3.Function('TKEY', I, I), z3.Function('TID', I, I)      # key of an item and the item of a key

class MapV:
    """An immutable finite map from numbers to numbers."""
    n, registry, kind = 0, {}, 'map'
    def __init__(self, has=None, val=None, put=None):
        MapV.n += 1
        self.id = MapV.n
        MapV.registry[self.id] = self
        self.put = put
        if has is None:
            h, v = z3.Function('HAS_%d' % self.id, I, z3.BoolSort()), z3.Function('VAL_%d' % self.id, I, I)
            has, val = lambda k: h(tz(k)), lambda k: v(tz(k))
        self.has, self.val = has, val
    def havoc(self, ex, st): return MapV()
    def store(self, k, v):
        k, v = tz(k), tz(v)
        return MapV(lambda x: z3.Or(tz(x) == k, self.has(x)), lambda x: z3.If(tz(x) == k, v, self.val(x)), (self, k, v))
NOMAP = MapV(lambda k: z3.BoolVal(False), lambda k: z3.IntVal(0))
EMPTY = SetV(mem=lambda t: z3.BoolVal(False), name='EMPTY')

def subterms(fs):
    seen, stack, out = set(), list(fs), []
    while stack:
        t = stack.pop()
        k = t.get_id()
        if k in seen: continue
        seen.add(k)
        out.append(t)
        if z3.is_app(t): stack.extend(t.children())
    return out

PREFIX = ('LB_', 'UB_', 'MEM_', 'IDX_', 'WSUM_', 'PMAX_')
_marks = {}
def marks(f):
    """the subterms of a formula that lemmas are instantiated at, as (kind, term) pairs (cached)"""
    k = f.get_id()
    r = _marks.get(k)
    if r is not None: return r[1]
    out = []
    for t in subterms([f]):
        if not z3.is_app(t): continue
        d = t.decl()
        if d.kind() != z3.Z3_OP_UNINTERPRETED: continue
        n = d.name()
        if t.num_args() == 0:
            if t.sort() == I: out.append(('const', t))
        elif n in ('D', 'REM', 'QUO'): out.append((n, t))
        elif n.startswith(PREFIX): out.append((n.split('_', 1)[0], t))
        else: out.append(('uf', t))
    _marks[k] = (f, out)
    return out

_cmps = {}
def comparisons(f):
    k = f.get_id()
    r = _cmps.get(k)
    if r is not None: return r[1]
    out = [t for t in subterms([f]) if (z3.is_eq(t) or z3.is_le(t) or z3.is_lt(t) or z3.is_ge(t) or z3.is_gt(t)) and t.children()[0].sort() == I]
    _cmps[k] = (f, out)
    return out

_eqs = {}
def equations(f):
    """the equations between integer terms that occur in a formula (cached)"""
    k = f.get_id()
    r = _eqs.get(k)
    if r is not None: return r[1]
    out = [t for t in subterms([f]) if z3.is_eq(t) and t.children()[0].sort() == I]
    _eqs[k] = (f, out)
    return out

class Prover:
    def __init__(self, timeout_ms=20000, log=None, cross=False):
        self.cross, self.nlemmas, self.coarse = cross, 0, False
        self.timeout = timeout_ms
        self.queries = 0
        self.time = 0.0
        self.unknown = 0
        self.extra = []           # extra lemma generators: f(list of (kind, term)) -> list of formulas
        self.cache = {}
        self.by = {'z3': 0, 'cvc5': 0}
        self.gcds, self.exact = [], []
        self.extra = [self.gcd_lemmas]

    def memo(self, key, keep, make):
        r = self.cache.get(key)
        if r is None:
            r = (keep, make())
            self.cache[key] = r
        return r[1]

    # -- instantiation
    def bound_facts(self, t, pool):
        kind, nm = t.decl().name().split('_', 1)
        s = SetV.registry[nm]
        v = t.children()[0]
        def head():
            if kind == 'LB':
                return [z3.And(t >= 0, t <= END), z3.Implies(v <= END, z3.And(t >= v, z3.Or(t == END, s.mem(t))))]
            return [z3.And(t >= -1, t < END, z3.Or(t == -1, s.mem(t)), z3.Or(t == -1, t <= v))]
        out = list(self.memo(('h', t.get_id()), t, head))
        for x in pool:
            out.append(self.memo(('b', t.get_id(), x.get_id()), (t, x), lambda:
                       z3.Implies(z3.And(s.mem(x), x >= v), x >= t) if kind == 'LB' else z3.Implies(z3.And(s.mem(x), x <= v), x <= t)))
        return out

    def expand(self, pc, foralls, extra, points=()):
        base = list(pc) + list(extra)
        pool, ids = [], set()
        def addp(t):
            t = tz(t)
            if t.get_id() not in ids:
                ids.add(t.get_id()); pool.append(t)
        bounds, counts = {}, {}
        def scan(fs):
            for f in fs:
                for kind, t in marks(f):
                    if kind == 'const': addp(t)
                    elif kind in ('LB', 'UB'): addp(t); bounds.setdefault(t.get_id(), t)
                    elif kind == 'MEM': addp(t.children()[0])
                    elif kind in ('IDX', 'WSUM', 'PMAX'): counts.setdefault(t.get_id(), t)
        scan(base)
        for p in points: addp(p)
        out = []
        groups = {}
        for t in counts.values():
            kind, nm = t.decl().name().split('_', 1)
            groups.setdefault((kind, nm), []).append(t.children()[0])
        for (kind, nm), vs in groups.items():
            s = SetV.registry[nm]
            pts = list({v.get_id(): v for v in vs + [z3.IntVal(END), z3.IntVal(0)]}.values())
            out += self.memo(('cnt', kind, nm, tuple(v.get_id() for v in pts)), pts, lambda: self.count_facts(kind, s, pts))
        scan(out)
        for (kind, nm) in groups:
            if kind != 'IDX': continue
            s = SetV.registry[nm]
            for x in pool:
                out.append(self.memo(('c2', nm, x.get_id()), (s, x), lambda: z3.Implies(s.mem(x), z3.And(s.card() >= 1, z3.Or(x == s.lb(0), s.card() >= 2)))))
        for (kind, nm) in groups:
            if kind == 'IDX': continue
            s = SetV.registry[nm]
            for x in pool:
                out.append(self.memo(('w2', kind, nm, x.get_id()), (s, x), lambda: z3.And(W(x) >= 0, z3.Implies(s.mem(x), (s.wsum if kind == 'WSUM' else s.pmax)(END) >= W(x)))))
            if kind == 'PMAX':
                for v in groups[(kind, nm)]:
                    for x in pool: out.append(self.memo(('w3', nm, v.get_id(), x.get_id()), (s, x, v), lambda: z3.Implies(z3.And(s.mem(x), x < v), s.pmax(v) >= W(x))))
        for t in list(bounds.values()): out += self.bound_facts(t, pool)
        for f in foralls:
            for x in pool:
                r = self.memo(('q', id(f), x.get_id()), (f, x), lambda: f(x))
                if r is not None: out.append(r)
        allf = base + out
        ms = {}
        def collect(fs):
            for f in fs:
                for kind, t in marks(f): ms.setdefault(t.get_id(), (kind, t))
        collect(allf)
        lem = []
        # members of symbolic sets are 32-bit numbers
        for kind, t in list(ms.values()):
            if kind == 'MEM':
                lem.append(self.memo(('m', t.get_id()), t, lambda: z3.Implies(t, z3.And(t.children()[0] >= 0, t.children()[0] < U32))))
        self.pts = [t for k, t in ms.values() if k == 'const' and t.decl().name().startswith('sk!')]
        for g in self.extra: lem.extend(g(list(ms.values())))
        collect(lem)
        self.eqs = {}
        for f in base:
            for e in equations(f): self.eqs[e.get_id()] = e
        self.cmps = {}
        for f in base:
            for e in comparisons(f): self.cmps[e.get_id()] = e
        lem.extend(self.div_lemmas(list(ms.values())))
        return allf + lem

    def count_facts(self, kind, s, pts):
        out, lb0 = [], s.lb(0)
        if kind == 'IDX':
            f = s.idx
            for v in pts:
                out.append(z3.Implies(v >= 0, z3.And(f(v) >= 0, f(v) <= v)))
                out.append(z3.Implies(v <= 0, f(v) == 0))
                out.append(z3.Implies(v <= END, f(v) <= f(END)))
            for a, b in itertools.permutations(pts, 2):
                out.append(z3.Implies(a <= b, z3.And(f(a) <= f(b), f(b) - f(a) <= b - a)))
                out.append(z3.Implies(z3.And(a < b, s.mem(a)), f(a) < f(b)))
                out.append(z3.Implies(z3.And(s.mem(a), b == s.lb(a + 1)), f(b) == f(a) + 1))
                out.append(z3.Implies(z3.And(a <= b, b <= s.lb(a)), f(b) == f(a)))
                # a - 1 is a member and b - 1 the one before it (or nothing)
                out.append(z3.Implies(z3.And(a >= 1, s.mem(a - 1), b == s.ub(a - 2) + 1), f(a) == f(b) + 1))
                out.append(z3.Implies(z3.And(a >= 1, b <= a, b == s.ub(a - 1) + 1), f(a) == f(b)))
            out.append((f(END) == 0) == (lb0 == END))
        elif kind == 'PMAX':
            f = s.pmax
            for v in pts: out.append(z3.And(f(v) >= 0, z3.Implies(v <= lb0, f(v) == 0)))
            for a, b in itertools.permutations(pts, 2):
                out.append(z3.Implies(z3.And(s.mem(a), b == s.lb(a + 1)), f(b) == z3.If(f(a) >= W(a), f(a), W(a))))
                out.append(z3.Implies(z3.And(a <= b, b <= s.lb(a)), f(b) == f(a)))
                out.append(z3.Implies(a <= b, f(a) <= f(b)))
        else:
            f = s.wsum
            for v in pts: out.append(z3.Implies(v <= lb0, f(v) == 0))
            if s is EMPTY: out.append(f(END) == 0)
            if hasattr(s, 'ins'):
                o, v = s.ins
                if o is EMPTY: out.append(o.wsum(END) == 0)
                out.append(f(END) == o.wsum(END) + z3.If(o.mem(v), z3.IntVal(0), W(v)))
            if hasattr(s, 'era'):
                o, v = s.era
                out.append(f(END) == o.wsum(END) - z3.If(o.mem(v), W(v), z3.IntVal(0)))
            out.append(f(END) >= 0)
            for v in pts: out.append(z3.And(f(v) >= 0, z3.Implies(v <= END, f(v) <= f(END))))
            for a, b in itertools.permutations(pts, 2):
                out.append(z3.Implies(z3.And(s.mem(a), b == s.lb(a + 1)), f(b) == f(a) + W(a)))
                out.append(z3.Implies(z3.And(s.mem(a), a < b), f(b) >= f(a) + W(a)))
                out.append(z3.Implies(z3.And(a <= b, b <= s.lb(a)), f(b) == f(a)))
        return out

    def div_lemmas(self, ms):
        out, groups = [], {}
        def reg(a):
            if z3.is_app(a) and a.decl().name() == 'D':
                groups.setdefault(a.children()[0].get_id(), (a.children()[0], {}))[1].setdefault(a.children()[1].get_id(), a)
        for kind, t in ms:
            if kind == 'D': reg(t)
            elif kind in ('REM', 'QUO'):
                def mk(kind=kind, t=t):
                    s, a = t.children()
                    r = t if kind == 'REM' else REM(s, a)
                    d = mkD(s, a - r)
                    l = [z3.Implies(s > 0, z3.And(r >= 0, r < s, d))]
                    if kind == 'QUO':
                        l.append(z3.Implies(s > 0, a == tz(pmul(s, t)) + r))
                        l.append(z3.Implies(z3.And(s > 0, a >= 0), z3.And(t >= 0, t <= a)))
                    else:
                        l.append(z3.Implies(z3.And(s > 0, a >= 0), t <= a))
                    return d, l
                d, l = self.memo((kind, t.get_id()), t, mk)
                reg(d); out += l
        # D(g, s) and D(s, t) give D(g, t)
        svals = {sid: s for sid, (s, _) in groups.items()}
        for gid, (g, atoms) in list(groups.items()):
            for a in list(atoms.values()):
                arg = a.children()[1]
                if arg.get_id() in svals and arg.get_id() != gid:
                    for b in list(groups[arg.get_id()][1].values()):
                        d = self.memo(('tr', g.get_id(), b.get_id()), (g, b), lambda: mkD(g, b.children()[1]))
                        reg(d)
                        out.append(z3.Implies(z3.And(a, b), d))
        for sid, (s, atoms) in list(groups.items()):
            if sid in FACTORS:
                for f in factors(s):
                    if f.get_id() not in groups: continue
                    for b in list(atoms.values()):
                        d = self.memo(('tr', f.get_id(), b.get_id()), (f, b), lambda: mkD(f, b.children()[1]))
                        reg(d)
                        out.append(z3.Implies(b, d))
        # a compared sum with a remainder modulo s in it, and the amounts under consideration, may differ by a multiple of s
        for sid, (s, atoms) in list(groups.items()):
            known = {sid}
            for a in atoms.values(): known |= set(lin(a.children()[1])[0])
            seen = {}
            for e in self.cmps.values():
                l, r = e.children()
                m = self.memo(('le', e.get_id()), e, lambda: lin(l - r)[0])
                R = [q for x, q in m.values() if x.decl().name() == 'REM' and x.children()[0].get_id() == sid]
                if len(R) != 1 or abs(R[0]) != 1: continue
                t = z3.IntVal(0)
                for k, (x, q) in m.items():
                    if k in known and not any(x.eq(p) for p in self.pts): t = t + (q * R[0]) * x
                t = norm(t)
                if t.get_id() in seen or len(lin(t)[0]) > 4: continue
                seen[t.get_id()] = t
                for p in self.pts:
                    if p.get_id() in known or sid in FACTORS: reg(mkD(s, t - p))
        # an equation between unknowns holds modulo s as well
        for sid, (s, atoms) in list(groups.items()):
            known = set()
            for a in atoms.values(): known |= set(lin(a.children()[1])[0])
            for e in self.eqs.values():
                l, r = e.children()
                m = self.memo(('le', e.get_id()), e, lambda: lin(l - r)[0])
                if len(m) < 2 or len(m) > 4 or not all(k in known or k == sid for k in m): continue
                d = self.memo(('ed', sid, e.get_id()), (s, e), lambda: mkD(s, l - r))
                reg(d)
                out.append(z3.Implies(e, d))
        self.groups = groups
        for sid, (s, atoms) in groups.items():
            vs = {}
            for a in atoms.values():
                l, used = self.memo(('d1', a.get_id()), a, lambda: (self.d1(s, a) + self.residues(s, a)[0], self.residues(s, a)[1]))
                out += l
                for v in used: vs[v.get_id()] = v
            vl = list(vs.values())
            for v in vl: out += self.memo(('rv', sid, v.get_id()), (s, v), lambda: self.residue_of(s, v))
            if len(vl) <= 12:
                for u, v in itertools.combinations(vl, 2):
                    out += self.memo(('rp', sid, u.get_id(), v.get_id()), (s, u, v), lambda: [
                        z3.Implies(z3.And(s > 0, RES(s, u) == RES(s, v)), z3.Or(u == v, u - v >= s, v - u >= s))])
        return out

    def residues(self, s, a):
        """D(s, t) as an equation between the residues of the unknowns of t: the sum of the residues is one of a few multiples of s"""
        m, c = lin(a.children()[1])
        used = [x for x, _ in m.values()]
        tot, lo, hi = z3.IntVal(0), 0, 0
        for x, q in m.values():
            tot = tot + q * RES(s, x)
            if q > 0: hi += q
            else: lo += q
        if c:
            one = z3.If(s == 1, z3.IntVal(0), z3.IntVal(1))
            if abs(c) <= 4:
                tot = tot + c * one
                if c > 0: hi += c
                else: lo += c
            else:
                tot = tot + (RES(s, z3.IntVal(abs(c))) if c > 0 else -RES(s, z3.IntVal(abs(c))))
                used.append(z3.IntVal(abs(c)))
                if c > 0: hi += 1
                else: lo -= 1
        if hi - lo > 40: return [], []
        ks = [k for k in range(lo, hi + 1) if lo < k < hi or k == 0]      # every residue lies in [0, s)
        return [z3.Implies(s > 0, a == z3.Or(*[tot == k * s for k in ks]))], used

    def residue_of(self, s, v):
        r = RES(s, v)
        out = [z3.Implies(s > 0, z3.And(r >= 0, r < s, z3.Implies(z3.And(v >= 0, v < s), r == v),
                                        z3.Implies(z3.And(v >= s, v < 2 * s), r == v - s), z3.Implies(z3.And(v < 0, v >= -s), z3.Or(r == v + s, z3.And(v == -s, r == 0))),
                                        z3.Implies(v >= 0, r <= v)))]
        if z3.is_app(v) and v.decl().name() == 'REM' and v.children()[0].eq(s): out.append(z3.Implies(s > 0, r == v))
        return out

    def d1(self, s, a):
        t = a.children()[1]
        return [z3.Implies(z3.And(a, s > 0), z3.Or(t == 0, t >= s, -t >= s)), z3.Implies(z3.Or(t == 0, t == s, -t == s), a)]

    def div_on_demand(self, m, groups):
        """instances of the closure of divisibility under +, - that the model m violates"""
        out = []
        for sid, (s, atoms) in groups.items():
            sv = m.eval(s, model_completion=True).as_long()
            if sv <= 0: continue
            T, F = [], []
            for a in atoms.values():
                t = a.children()[1]
                tv = m.eval(t, model_completion=True).as_long()
                (T if z3.is_true(m.eval(a, model_completion=True)) else F).append((a, t, tv))
            n0 = len(out)
            for a, t, v in F:                      # a multiple of s that is not recognised
                if v % sv == 0 and abs(v) <= 2 * sv: out.append(z3.Implies(t == (v // sv) * s, a))
            near = {}
            for i in range(len(T)):
                a, t, v = T[i]
                for j in range(i):
                    b, u, w = T[j]
                    for sg in (1, -1):
                        d = v + sg * w
                        if 0 < abs(d) < sv:
                            tt = t + sg * u
                            out.append(z3.Implies(z3.And(a, b), z3.Or(tt == 0, tt >= s, -tt >= s)))
                            break
                    if len(out) - n0 > 40: break
                if len(out) - n0 > 40: break
            for c, x, xv in F:                      # one true atom and an equation
                for a, t, v in T:
                    hit = False
                    for sg in (1, -1):
                        if (xv + sg * v) % sv == 0 and abs(xv + sg * v) <= 2 * sv:
                            out.append(z3.Implies(z3.And(a, x + sg * t == ((xv + sg * v) // sv) * s), c)); hit = True; break
                    if hit: break
        if not out and getattr(self, 'kbudget', 0) > 0:
            for sid, (s, atoms) in groups.items():
                sv = m.eval(s, model_completion=True).as_long()
                if sv <= 0: continue
                for a in atoms.values():
                    t = a.children()[1]
                    v = m.eval(t, model_completion=True).as_long()
                    if v % sv == 0 and not z3.is_true(m.eval(a, model_completion=True)):
                        out.append(z3.Implies(t == (v // sv) * s, a)); self.kbudget -= 1
        return out

    # -- products of the Euclidean branch: Bezout scaled, remainder theorem, least common multiple (lean/)
    def gcd_lemmas(self, ms):
        out = []
        ids = {t.get_id() for k, t in ms if k == 'const'}
        dargs = {}
        for k, t in ms:
            if k == 'D': dargs.setdefault(t.children()[0].get_id(), []).append(t.children()[1])
        for g, x, y, s, o in self.gcds:
            if g.get_id() not in ids: continue
            vs, eqs, mods = {}, [(g, tz(pmul(s, x)) + tz(pmul(o, y)))], [g, s, o]
            for k, t in ms:
                if k != 'const' or t.get_id() not in FACTORS: continue
                fs = factors(t)
                for b, c in ((s, x), (o, y)):
                    rest = list(fs)
                    for z in (b, c):
                        for i, w in enumerate(rest):
                            if w.eq(z): del rest[i]; break
                    if len(rest) == 1 and len(fs) == 3 and not rest[0].eq(s) and not rest[0].eq(o): vs[rest[0].get_id()] = rest[0]
            for v in vs.values():
                eqs.append((tz(pmul(v, g)), tz(pmul(pmul(v, s), x)) + tz(pmul(pmul(v, o), y))))
                out.append(eqs[-1][0] == eqs[-1][1])
            es = {}
            for u in list(vs.values()):
                for v in list(vs.values()):
                    if u.get_id() < v.get_id(): es.setdefault((u - v).get_id(), u - v)
            for e in list(es.values())[:12]:
                for b, c in ((s, x), (o, y)):
                    out.append(z3.Implies(mkD(g, e), mkD(g, pmul(pmul(e, b), c))))
            for gg, N, X in self.exact:
                if not gg.eq(g): continue
                eqs.append((tz(pmul(g, N)), X))
                if N.get_id() in ids:
                    for e in list(es.values())[:12]:
                        for b, k in ((o, y), (s, x)):
                            for c in vs.values():
                                for sg in (1, -1):
                                    out.append(z3.Implies(z3.And(mkD(g, e), tz(pmul(g, N)) == tz(pmul(g, c)) + sg * tz(pmul(pmul(b, k), e))), mkD(b, N - c)))
                # g*N is s or o: the least common multiple
                for p, q in ((s, o), (o, s)):
                    if same(X, q):
                        L = tz(pmul(p, N))
                        out += [mkD(p, L), z3.Implies(mkD(g, p), mkD(q, L)), z3.Implies(z3.And(p >= 1, N >= 1), z3.And(L >= p, L >= N))]
                        ts = list(dargs.get(L.get_id(), []))
                        for p_ in self.pts:
                            for _, N2, _ in self.exact:
                                if N2.get_id() in ids and not N2.eq(N): ts.append(p_ - N2)
                        for t in ts:
                            out.append(z3.Implies(z3.And(mkD(p, t), mkD(q, t)), mkD(L, t)))
            for l, r in eqs:
                for b in mods: out.append(z3.Implies(l == r, mkD(b, l - r)))
        return out

    # -- queries
    def solve(self, formulas, timeout=None, rounds=10**6):
        """decides the formulas together with the closure lemmas of divisibility, which are added as models violate them"""
        t0 = time.time()
        limit = (timeout or self.timeout) / 1000.0
        groups = self.groups
        s = z3.Solver()
        s.add(*formulas)
        self.queries += 1
        self.kbudget = 12
        while True:
            left = limit - (time.time() - t0)
            if left <= 0: r = z3.unknown; break
            s.set('timeout', int(left * 1000) + 1)
            r = s.check()
            if r != z3.sat: break
            m = s.model()
            new = self.div_on_demand(m, groups)
            if not new or rounds <= 0: break
            rounds -= 1
            s.add(*new)
        self.time += time.time() - t0
        if r == z3.unknown: self.unknown += 1
        self.last = s
        return r, (m if r == z3.sat else None)

    def valid(self, st, goal, timeout=None, rounds=10**6):
        """('unsat'|'sat'|'unknown', model) for  st |- goal"""
        if z3.is_true(goal): return z3.unsat, None
        fs = self.expand(st.pc, st.foralls, [z3.Not(goal)], st.points)
        return self.solve(fs, timeout, rounds)

    def cross_check(self):
        """the query just proved, once more, by an independent solver"""
        try:
            import cvc5
            tm = cvc5.TermManager()
            sv = cvc5.Solver(tm)
            sv.setOption('tlimit-per', '10000')
            ip = cvc5.InputParser(sv)
            ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + self.last.to_smt2(), 'q')
            sm = ip.getSymbolManager()
            res = ''
            while True:
                c = ip.nextCommand()
                if c.isNull(): break
                res += str(c.invoke(sv, sm))
            if 'unsat' in res: self.by['cvc5'] += 1
            elif 'sat' in res: self.by['cvc5 disagrees'] = self.by.get('cvc5 disagrees', 0) + 1
        except Exception as e: self.by['cvc5 error'] = self.by.get('cvc5 error', 0) + 1

    def feasible(self, st, cond):
        if self.coarse:                        # an infeasible path more does no harm: what it claims still has to be proved
            q = z3.Solver()
            q.set('timeout', 500)
            q.add(*st.pc, cond)
            self.queries += 1
            return q.check() != z3.unsat
        r, _ = self.solve(self.expand(st.pc, st.foralls, [cond], st.points), 5000, 3)
        return r != z3.unsat

class MonV:
    """An element of the free monoid over one generator, known by its length: what is proved for it holds in every monoid."""
    kind = 'mon'
    def __init__(self, t): self.t = norm(t)
    def havoc(self, ex, st): return MonV(z3.Int('mon!%d' % ex.fresh('mn').t.get_id()))
    def same(self, o): return same(self.t, o.t)

class BiV:
    """boost::bimap with the pairs known"""
    kind = 'bimap'
    def __init__(self, pairs=()): self.pairs = tuple(pairs); self.d = (dict(self.pairs), {r: l for l, r in self.pairs})
    def same(self, o): return self.pairs == o.pairs

class StrV:
    """a text that is known"""
    kind = 'str'
    def __init__(self, s=''): self.s = s
    def same(self, o): return type(o) is StrV and self.s == o.s
    def havoc(self, ex, st): return LineV(ex.fresh('text').t)
    def __repr__(self): return 'str(%r)' % self.s[:40]

class LineV:
    """a text known only by a number"""
    kind = 'str'
    def __init__(self, t): self.t = t
    def same(self, o): return type(o) is LineV and same(self.t, o.t)
    def havoc(self, ex, st): return LineV(ex.fresh('text').t)

class IdealV:
    """a whole number without bound"""
    kind = 'ideal'
    def __init__(self, t): self.t = norm(t)
    def havoc(self, ex, st): return IdealV(ex.fresh('ideal').t)
    def same(self, o): return same(self.t, o.t)
    def __repr__(self): return 'ideal(%s)' % (self.t,)

class ArrV:
    """An immutable array of n elements; val: index -> Int term; wrap: 'ideal', 'bool' or a number of bits."""
    kind, n_ = 'array', 0
    def __init__(self, elem, n, wrap, val=None):
        ArrV.n_ += 1
        self.id, self.elem, self.n, self.wrap = ArrV.n_, elem, n, wrap
        if val is None:
            f = z3.Function('ARR_%d' % self.id, I, I)
            val = lambda i: f(tz(norm(i)))
        self.val = val
    def havoc(self, ex, st): return ArrV(self.elem, self.n, self.wrap)
    def same(self, o): return self is o
    def put(self, i, t):
        r = ArrV(self.elem, self.n, self.wrap, lambda x, i=i, t=t, v=self.val: t if same(x, i) else z3.If(tz(x) == tz(i), tz(t), tz(v(x))))
        r.puts = getattr(self, 'puts', [])[-7:] + [i]          # places written, for the loop templates
        return r

class GrowV(ArrV):
    """An array that is appended to: in a loop its length is arbitrary too."""
    def havoc(self, ex, st):
        n = ex.fresh('len', 0, 2 ** 62, 64, st).t
        return GrowV(self.elem, n, self.wrap)
    def append(self, t):
        n, v = self.n, self.val
        if isinstance(n, int):                     # a list of known length
            l = getattr(self, 'list', None)
            if n == 0: l = ()
            if l is not None:
                l = l + (t,)
                r = GrowV(self.elem, n + 1, self.wrap, lambda x, l=l: tz(l[norm(x)]) if isinstance(norm(x), int) and 0 <= norm(x) < len(l) else chain(l, x))
                r.list = l
                return r
        return GrowV(self.elem, norm(tz(n) + 1), self.wrap, lambda x: t if same(x, n) else z3.If(tz(x) == tz(n), tz(t), tz(v(x))))
    def put(self, i, t):
        a = ArrV.put(self, i, t)
        r = GrowV(self.elem, self.n, self.wrap, a.val); r.puts = a.puts
        return r
def chain(l, x):
    t = z3.IntVal(0)
    for k, v in enumerate(l): t = z3.If(tz(x) == k, tz(v), t)
    return t

TIMES = z3.Function('TIMES', I, I, I)        # product of whole numbers, used only through the instances of its lemmas
IDIV, IMOD = z3.Function('IDIV', I, I, I), z3.Function('IMOD', I, I, I)
POW = z3.Function('POW', I, I, I)

class PairMapV:
    """A finite map from pairs of numbers to whole numbers."""
    kind, n_, registry = 'pairmap', 0, {}
    def __init__(self, has=None, val=None):
        PairMapV.n_ += 1
        self.id = PairMapV.n_
        if has is None:
            h, v = z3.Function('PHAS_%d' % self.id, I, I, z3.BoolSort()), z3.Function('PVAL_%d' % self.id, I, I, I)
            has, val = lambda a, b: h(tz(a), tz(b)), lambda a, b: v(tz(a), tz(b))
        self.has, self.val = has, val
        self.ok = z3.Bool('POWERS_%d' % self.id)               # every entry (a, b) holds a to the power b
        PairMapV.registry[self.id] = self
    def havoc(self, ex, st): return PairMapV()
    def same(self, o): return self is o
    def put(self, a, b, t):
        a, b, t = tz(a), tz(b), tz(t)
        r = PairMapV(lambda x, y: z3.Or(z3.And(tz(x) == a, tz(y) == b), self.has(x, y)), lambda x, y: z3.If(z3.And(tz(x) == a, tz(y) == b), t, self.val(x, y)))
        r.ok = z3.And(self.ok, t == POW(a, b))
        return r
NOPAIRS = PairMapV(lambda a, b: z3.BoolVal(False), lambda a, b: z3.IntVal(0))
NOPAIRS.ok = z3.BoolVal(True)

class GridV:
    """An immutable vector of vectors of whole numbers: n columns, len: column -> length, val: column, row -> Int term.
    Column j has its record {pointer, length} at 16 j and its elements at FAR + j STRIDE + 8 i."""
    kind, n_ = 'grid', 0
    FAR, STRIDE = 1 << 100, 1 << 60
    def __init__(self, n, length=None, val=None):
        GridV.n_ += 1
        self.id, self.n, self.puts = GridV.n_, n, []
        if length is None:
            f = z3.Function('LEN_%d' % self.id, I, I)
            length = lambda j: f(tz(norm(j)))
        if val is None:
            g = z3.Function('GRID_%d' % self.id, I, I, I)
            val = lambda j, i: g(tz(norm(j)), tz(norm(i)))
        self.len, self.val = length, val
    def havoc(self, ex, st): return GridV(self.n)
    def same(self, o): return self is o
    def with_len(self, j, t):
        r = GridV(self.n, lambda x: z3.If(tz(x) == tz(j), tz(t), tz(self.len(x))), self.val)
        r.puts = self.puts
        return r
    def with_column(self, j, f):
        r = GridV(self.n, self.len, lambda x, i: z3.If(tz(x) == tz(j), tz(f(i)), tz(self.val(x, i))))
        r.puts = self.puts
        return r
    def put(self, j, i, t):
        r = GridV(self.n, self.len, lambda x, y: z3.If(z3.And(tz(x) == tz(j), tz(y) == tz(i)), tz(t), tz(self.val(x, y))))
        r.puts = self.puts[-7:] + [(j, i)]
        return r
    def place(self, o):
        """address -> ('rec', column, field) or ('el', column, row)"""
        m, c = lin(o)
        if c >= GridV.FAR // 2:
            c -= GridV.FAR
            j, i = {}, {}
            for k, (x, q) in m.items():
                a = (q + GridV.STRIDE // 2) // GridV.STRIDE
                b = q - a * GridV.STRIDE
                if b % 8: raise Unsupported('access across array elements')
                if a: j[k] = (x, a)
                if b: i[k] = (x, b // 8)
            a = (c + GridV.STRIDE // 2) // GridV.STRIDE
            if (c - a * GridV.STRIDE) % 8: raise Unsupported('access across array elements')
            return 'el', norm(unlin(j, a)), norm(unlin(i, (c - a * GridV.STRIDE) // 8))
        if any(q % 16 for _, q in m.values()) or c % 16 not in (0, 8): raise Unsupported('access across array elements')
        return 'rec', norm(unlin({k: (x, q // 16) for k, (x, q) in m.items()}, c // 16)), c % 16
    def start(self, j): return norm(GridV.FAR + GridV.STRIDE * tz(j))
