"""Path-wise symbolic execution of the extracted functions; every side condition becomes an obligation.

Loops are cut at their header with an invariant that is found by Houdini over the templates in loops.py, or, when
every iteration is decided by constants, unrolled completely.  Nothing is bounded."""
import math, z3
from terms import *

class IntV:
    __slots__ = ('t', 'w', 'lo', 'hi', 'b', 'parts')
    def __init__(self, t, w, lo=None, hi=None, b=None, parts=None):
        self.w, self.b, self.parts = w, b, parts
        if t is not None:
            t = norm(t)
            if isinstance(t, int): lo = hi = t
        self.t, self.lo, self.hi = t, lo, hi
    def __repr__(self): return 'i%d(%s)' % (self.w, self.t)

class PtrV:
    __slots__ = ('r', 'o')
    def __init__(self, r, o=0): self.r, self.o = r, o
    def __repr__(self): return '&%s+%s' % (self.r, self.o)
    def __eq__(self, x): return isinstance(x, PtrV) and self.r == x.r and same(self.o, x.o)
    def __hash__(self): return hash((self.r, self.o))
NULL = PtrV(None, 0)

class FnV:
    def __init__(self, n): self.n = n
    def __eq__(self, x): return isinstance(x, FnV) and self.n == x.n
    def __hash__(self): return hash(self.n)

class AggV:
    def __init__(self, d=None): self.d = dict(d or {})

BIG = 1 << 62            # size of the cell that holds a whole array

class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()

def is_bool(v): return isinstance(v, bool) or z3.is_bool(v) if not isinstance(v, (IntV, PtrV, FnV, AggV, Undef, SetV, MapV)) else False
def bz(v): return z3.BoolVal(v) if isinstance(v, bool) else v

class State:
    def __init__(self):
        self.pc, self.foralls, self.mem, self.points, self.trace, self.ghost = [], [], {}, [], [], {}
        self.havoc = False        # a loop was summarised on this path
        self.tags = {}            # region -> tag
    def fork(self):
        s = State()
        s.pc, s.foralls, s.points, s.trace = list(self.pc), list(self.foralls), list(self.points), list(self.trace)
        s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.ghost = dict(self.ghost); s.havoc = self.havoc; s.tags = dict(self.tags)
        return s
    def assume(self, f):
        f = bz(f)
        if not z3.is_true(f): self.pc.append(f)

class Obligation:
    def __init__(self, name, status, model=None, st=None, goal=None):
        self.name, self.status, self.model, self.st, self.goal = name, status, model, st, goal

class Executor:
    MAXPATHS = 4000
    def __init__(self, mod, prover):
        self.m, self.p = mod, prover
        self.obls, self.recording, self.ctx = [], True, ''
        self.nreg = 0
        self.contracts = {}
        self.visited = set()           # functions whose real body was executed
        self.assumptions, self.used = set(), set()      # used: assumed contracts of the standard library
        self.reached = {}              # context -> some path through it was shown satisfiable
        self.wrapped, self.keep = {}, []      # wrapped term -> the term it wraps (same bits)
        self.assume_mul = False
        self.assume_sum = False
        self.oblige_sum = False
        self.nfresh = 0
        self.initial_globals = False       # global variables have their initial values on entry
        self.lc, self.footprint = {'prev': None, 'cur': {}}, 0
        self.fast_footprint, self.feet, self.reuse = False, {}, True
        self.log, self.unsigned64 = [], False       # comparisons and map entries, for the loop templates that ask for them
        self.depth = 0
        self.fnstack = []
        self.ntrivial = 0
        self.loops_cut, self.loops_unrolled = set(), set()
        import builtins_vf, loops
        self.builtins = builtins_vf.TABLE
        self.loops = loops
        self.early_stop = True

    # ---- helpers
    def fresh(self, name, lo=None, hi=None, w=32, st=None):
        self.nfresh += 1
        v = z3.Int('%s!%d' % (name, self.nfresh))
        if st is not None:
            if lo is not None: st.assume(v >= lo)
            if hi is not None: st.assume(v <= hi)
        return IntV(v, w, lo, hi)
    def fresh_bool(self, name):
        self.nfresh += 1
        return z3.Bool('%s!%d' % (name, self.nfresh))
    def new_region(self, st, kind):
        self.nreg += 1
        r = '%s%d' % (kind, self.nreg)
        st.mem[r] = {}
        return r
    def oblige(self, st, goal, label):
        """prove goal in st, record the outcome, and continue under it"""
        goal = bz(goal)
        if z3.is_true(goal):
            if self.recording:
                self.ntrivial += 1
                self.p.by['simplification'] = self.p.by.get('simplification', 0) + 1
                self.obls.append(Obligation(self.ctx + label, 'proved'))
            return True
        if not self.recording:
            st.assume(goal); return True
        r, m = self.p.valid(st, goal)
        status = 'proved' if r == z3.unsat else 'failed' if r == z3.sat else 'unknown'
        if status == 'proved':
            self.p.by['z3'] += 1
            if self.p.cross: self.p.cross_check()
        self.reach(st)
        self.obls.append(Obligation(self.ctx + label, status, m, st.fork() if status != 'proved' else None, goal))
        st.assume(goal)
        return status == 'proved'
    def reach(self, st):
        """vacuity guard: 'false' must not follow from the path condition (asked once per context)"""
        if not self.reached.get(self.ctx): self.reached[self.ctx] = self.p.valid(st, z3.BoolVal(False), 10000)[0] == z3.sat
    def where(self, inst):
        f = self.fnstack[-1] if self.fnstack else None
        nm = f.dem.split('(')[0].replace('nil::blueprint::', '') if f else '?'
        return '%s' % nm

    # ---- integers
    def proves(self, st, g):
        g = z3.simplify(g) if not isinstance(g, bool) else z3.BoolVal(g)
        if z3.is_true(g): return True
        if z3.is_false(g): return False
        q = z3.Solver()                        # the path condition alone often settles it
        q.set('timeout', 200)
        q.add(*[c for c in st.pc[-60:]], z3.Not(g))
        if q.check() == z3.unsat: return True
        return self.p.valid(st, g, 3000, 5)[0] == z3.unsat
    def const_s(self, v):
        m = v.t % (1 << v.w)
        return m - (1 << v.w) if m >= 1 << (v.w - 1) else m
    def need(self, v):
        if v is UNDEF: raise Unsupported('use of an undefined value')
        if not isinstance(v, IntV): raise Unsupported('integer expected, got %r' % (v,))
        if v.t is None:
            if v.parts and all(isinstance(p, IntV) and p.t is not None for p in v.parts):
                t, sh, hi = 0, 0, 0
                for p in v.parts:
                    u = self.U_static(p)
                    if u is None: raise Unsupported('composite integer')
                    t = t + tz(u) * (1 << sh) if not isinstance(u, int) or not isinstance(t, int) else t + u * (1 << sh)
                    sh += p.w
                return IntV(t, v.w, 0, (1 << v.w) - 1)
            raise Unsupported('composite integer')
        return v
    def U_static(self, v):
        M = 1 << v.w
        if isinstance(v.t, int): return v.t % M
        if v.lo is not None and v.hi is not None and v.lo >= 0 and v.hi < M: return v.t
        return None
    def wrap_of(self, w, t, r):
        self.wrapped[(w, r.get_id())] = t; self.keep.append(r)
        return r
    def U(self, st, v):
        v = self.need(v)
        M = 1 << v.w
        if isinstance(v.t, int): return v.t % M
        if v.lo is not None and v.hi is not None and v.lo >= 0 and v.hi < M: return v.t
        t = tz(v.t)
        o = self.wrapped.get((v.w, t.get_id()))
        if o is not None: return self.U(st, IntV(o, v.w))
        if self.proves(st, z3.And(t >= 0, t < M)): return v.t
        if self.proves(st, z3.And(t < 0, t >= -M)): return norm(t + M)
        if self.proves(st, z3.And(t >= M, t < 2 * M)): return norm(t - M)
        if self.proves(st, z3.And(t >= -M, t < 2 * M)): return self.wrap_of(v.w, t, z3.If(t < 0, t + M, z3.If(t >= M, t - M, t)))
        return t % M
    def S(self, st, v):
        v = self.need(v)
        M = 1 << v.w; H = M >> 1
        if isinstance(v.t, int): return self.const_s(v)
        if v.lo is not None and v.hi is not None and v.lo >= -H and v.hi < H: return v.t
        t = tz(v.t)
        o = self.wrapped.get((v.w, t.get_id()))
        if o is not None: return self.S(st, IntV(o, v.w))
        if self.proves(st, z3.And(t >= -H, t < H)): return v.t
        if self.proves(st, z3.And(t >= H, t < M + H)): return norm(t - M)
        if self.proves(st, z3.And(t >= -H - M, t < -H)): return norm(t + M)
        if self.proves(st, z3.And(t >= -H - M, t < M + H)): return self.wrap_of(v.w, t, z3.If(t < -H, t + M, z3.If(t >= H, t - M, t)))
        return (t + H) % M - H
    def UV(self, st, v):
        t = self.U(st, v); return IntV(t, v.w, 0, (1 << v.w) - 1)
    def SV(self, st, v):
        t = self.S(st, v); return IntV(t, v.w, -(1 << (v.w - 1)), (1 << (v.w - 1)) - 1)
    @staticmethod
    def iv(f, a, b):
        if None in (a.lo, a.hi, b.lo, b.hi): return None, None
        c = [f(x, y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
        return min(c), max(c)
    def rem(self, s, a):
        if isinstance(s, int):
            return a % s if isinstance(a, int) else tz(a) % s
        return REM(s, tz(a))
    def quo(self, s, a):
        if isinstance(s, int):
            return a // s if isinstance(a, int) else tz(a) / s
        return QUO(s, tz(a))

    def binop(self, st, inst, a, b):
        op, w = inst['op'], inst['ty']
        if w == 1:
            if op in ('xor', 'and', 'or', 'add', 'sub', 'mul'):
                x, y = self.as_bool(a), self.as_bool(b)
                if isinstance(x, bool) and isinstance(y, bool):
                    return {'xor': x != y, 'and': x and y, 'or': x or y, 'add': x != y, 'sub': x != y, 'mul': x and y}[op]
                x, y = bz(x), bz(y)
                return {'xor': z3.Xor(x, y), 'and': z3.And(x, y), 'or': z3.Or(x, y), 'add': z3.Xor(x, y), 'sub': z3.Xor(x, y), 'mul': z3.And(x, y)}[op]
            raise Unsupported('i1 ' + op)
        # values packed into halves by the calling convention
        if op in ('and', 'or') and w in (64, 32, 16):
            r = self.packed(op, w, a, b)
            if r is not None: return r
        if op == 'or' and isinstance(a, IntV) and isinstance(b, IntV) and a.parts and b.parts and len(a.parts) == len(b.parts):
            ps = []
            for x, y in zip(a.parts, b.parts):
                if isinstance(x, IntV) and x.t == 0: ps.append(y)
                elif isinstance(y, IntV) and y.t == 0: ps.append(x)
                else: break
            else: return IntV(None, w, parts=ps)
        if op == 'shl' and isinstance(a, IntV) and a.parts and isinstance(b, IntV) and b.t == a.parts[0].w if isinstance(a, IntV) and a.parts and isinstance(a.parts[0], IntV) else False:
            return IntV(None, w, parts=[IntV(0, a.parts[0].w)] + a.parts[:-1])
        if op == 'lshr' and isinstance(a, IntV) and a.parts and isinstance(b, IntV) and isinstance(b.t, int):
            pw = w // len(a.parts)
            if b.t == pw: return IntV(None, w, parts=a.parts[1:] + [IntV(0, pw)])
        if op == 'and' and (a is UNDEF or b is UNDEF):
            o = b if a is UNDEF else a
            if isinstance(o, IntV) and o.t == 0: return IntV(0, w)
            return UNDEF
        if a is UNDEF or b is UNDEF: return UNDEF
        a, b = self.need(a), self.need(b)
        if isinstance(a.t, int) and isinstance(b.t, int):
            r = self.fold(op, w, a, b, inst, st)
            if r is not None: return r
        nsw, nuw = inst.get('nsw'), inst.get('nuw')
        H, M = 1 << (w - 1), 1 << w
        if op in ('add', 'sub', 'mul'):
            f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[op]
            nonlin = op == 'mul' and not isinstance(a.t, int) and not isinstance(b.t, int)
            if nsw: a, b = self.SV(st, a), self.SV(st, b)
            elif nonlin: a, b = self.UV(st, a), self.UV(st, b)
            else:
                if isinstance(a.t, int): a = IntV(self.const_s(a), w)
                if isinstance(b.t, int): b = IntV(self.const_s(b), w)
                big = 1 << (w + 4)
                if a.lo is None or a.lo < -big or a.hi > big: a = self.UV(st, a)
                if b.lo is None or b.lo < -big or b.hi > big: b = self.UV(st, b)
            t = pmul(a.t, b.t) if nonlin else norm(f(a.t, b.t))
            lo, hi = self.iv(f, a, b)
            if nonlin and self.assume_mul:
                self.assumptions.add('products of amounts and steps stay below 2^31 (as the quantifier says)')
                t = tz(t)
                if nsw: st.assume(z3.And(t >= -H, t < H)); return IntV(t, w, -H, H - 1)
                st.assume(z3.And(t >= 0, t < H)); return IntV(t, w, 0, H - 1)
            if self.assume_sum and op == 'add' and 'WEIGHT' in str(t):
                self.assumptions.add('the total number of gates fits its 32-bit type (as the quantifier says)')
                st.assume(z3.And(tz(t) >= 0, tz(t) < M)); return IntV(t, w, 0, M - 1)
            if self.oblige_sum and op == 'add' and w == 64 and not isinstance(t, int) and any(z3.is_app(x) and (x.decl().name() == 'WEIGHT' or x.decl().name().startswith('WSUM_')) for x in subterms([t])):
                self.oblige(st, z3.And(tz(t) >= 0, tz(t) < M), 'sums of sizes fit their type in ' + self.where(inst))
                return IntV(t, w, 0, M - 1)
            if nsw:
                if lo is None or lo < -H or hi >= H:
                    if self.assume_mul and st.ghost.get('gcd'):
                        self.assumptions.add('the sums of such products stay within the integer type as well')
                        st.assume(z3.And(tz(t) >= -H, tz(t) < H))
                    else: self.oblige(st, z3.And(tz(t) >= -H, tz(t) < H), 'no signed overflow in ' + self.where(inst))
                    lo, hi = -H, H - 1
            return IntV(t, w, lo, hi)
        if op in ('urem', 'udiv'):
            x, y = self.U(st, a), self.U(st, b)
            self.oblige(st, tz(y) != 0 if not isinstance(y, int) else y != 0, 'no division by zero in ' + self.where(inst))
            if op == 'urem': return IntV(self.rem(y, x), w, 0, M - 1)
            if not isinstance(y, int) and self.proves(st, mkD(y, x)): return self.exact(st, x, y, w)
            return IntV(self.quo(y, x), w, 0, M - 1)
        if op in ('srem', 'sdiv'):
            x, y = self.S(st, a), self.S(st, b)
            self.oblige(st, tz(y) != 0 if not isinstance(y, int) else y != 0, 'no division by zero in ' + self.where(inst))
            if not self.proves(st, tz(y) > 0): raise Unsupported('signed division by a divisor of unknown sign')
            if not isinstance(y, int):
                if op == 'sdiv' and self.proves(st, mkD(y, x)): return self.exact(st, x, y, w)
                if op == 'srem' and not self.proves(st, tz(x) >= 0):
                    r = self.fresh('rem', -H, H - 1, w, st)
                    st.assume(z3.And(mkD(y, tz(x) - r.t), r.t < y, r.t > -y, z3.Implies(tz(x) >= 0, r.t >= 0), z3.Implies(tz(x) <= 0, r.t <= 0)))
                    return r
            f = self.rem if op == 'srem' else self.quo
            if self.proves(st, tz(x) >= 0): return IntV(f(y, x), w, 0, H - 1)
            n = f(y, norm(-tz(x)) if not isinstance(x, int) else -x)
            if self.proves(st, tz(x) <= 0): return IntV(norm(-tz(n)), w, -H, 0)
            return IntV(z3.If(tz(x) >= 0, tz(f(y, x)), -tz(n)), w, -H, H - 1)
        if op in ('shl', 'lshr', 'ashr') and isinstance(b.t, int):
            k = b.t % M
            if k >= w: raise Unsupported('shift out of range')
            if op == 'shl':
                x = self.U(st, a); t = tz(x) * (1 << k)
                r = IntV(t, w, 0, (M - 1) << k)
                return self.UV(st, r) if not nuw else IntV(norm(t), w, 0, M - 1)
            if op == 'lshr': return IntV(tz(self.U(st, a)) / (1 << k), w, 0, (M - 1) >> k)
            return IntV(tz(self.S(st, a)) / (1 << k), w, -H >> k, (H - 1) >> k)
        if op == 'and':
            if isinstance(a.t, int): a, b = b, a
            if isinstance(b.t, int):
                k = b.t % M
                if k & (k + 1) == 0: return IntV(tz(self.U(st, a)) % (k + 1), w, 0, k)
                if k == M - 1: return a
        if op == 'xor':
            if isinstance(a.t, int): a, b = b, a
            if isinstance(b.t, int) and b.t % M == M - 1:
                return IntV(norm(M - 1 - tz(self.U(st, a))), w, 0, M - 1)
        raise Unsupported('%s on symbolic operands in %s' % (op, self.where(inst)))

    def exact(self, st, x, y, w):
        """x / y when y divides x"""
        H = 1 << (w - 1)
        n = self.fresh('exq', -H, 2 * H - 1, w, st)
        st.assume(tz(pmul(y, n.t)) == tz(x))
        st.assume(z3.And(z3.Implies(z3.And(tz(x) >= 1, tz(y) >= 1), z3.And(n.t >= 1, n.t <= tz(x))), z3.Implies(z3.And(tz(x) <= 0, tz(y) >= 1), z3.And(n.t <= 0, n.t >= tz(x)))))
        self.p.exact.append((tz(y), n.t, tz(x)))
        n.lo, n.hi = (0, 2 * H - 1) if self.proves(st, tz(x) >= 0) else (-H, H - 1)
        return n

    def packed(self, op, w, a, b):
        g = None
        for v in (a, b):
            if isinstance(v, IntV) and v.parts: g = w // len(v.parts)
        if g is None:
            if a is UNDEF or b is UNDEF: g = w // 2
            else: return None
        def parts(v):
            if v is UNDEF: return [UNDEF] * (w // g)
            if isinstance(v, IntV) and v.parts and len(v.parts) == w // g: return v.parts
            if isinstance(v, IntV) and isinstance(v.t, int): return [IntV((v.t >> (g * i)) % (1 << g), g) for i in range(w // g)]
            return None
        pa, pb = parts(a), parts(b)
        if pa is None or pb is None: return None
        out = []
        for x, y in zip(pa, pb):
            cx = x.t if isinstance(x, IntV) and isinstance(x.t, int) else None
            cy = y.t if isinstance(y, IntV) and isinstance(y.t, int) else None
            ones = (1 << g) - 1
            if op == 'and':
                if cx == 0 or cy == 0: out.append(IntV(0, g))
                elif cx == ones: out.append(y)
                elif cy == ones: out.append(x)
                else: return None
            else:
                if cx == 0: out.append(y)
                elif cy == 0: out.append(x)
                else: return None
        if all(isinstance(x, IntV) and isinstance(x.t, int) for x in out):
            return IntV(sum((x.t % (1 << g)) << (g * i) for i, x in enumerate(out)), w)
        return IntV(None, w, parts=out)

    def fold(self, op, w, a, b, inst, st):
        M = 1 << w
        x, y = a.t % M, b.t % M
        sx, sy = self.const_s(a), self.const_s(b)
        if op in ('add', 'sub', 'mul'):
            r = {'add': sx + sy, 'sub': sx - sy, 'mul': sx * sy}[op]
            if inst.get('nsw') and not -(M >> 1) <= r < M >> 1:
                self.oblige(st, False, 'no signed overflow in ' + self.where(inst))
            return IntV(r % M, w)
        if op in ('urem', 'udiv', 'srem', 'sdiv'):
            if y == 0:
                self.oblige(st, False, 'no division by zero in ' + self.where(inst)); return IntV(0, w)
            if op == 'urem': return IntV(x % y, w)
            if op == 'udiv': return IntV(x // y, w)
            q = abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1)
            return IntV((q if op == 'sdiv' else sx - q * sy) % M, w)
        if op in ('shl', 'lshr', 'ashr'):
            if y >= w: raise Unsupported('shift out of range')
            return IntV({'shl': (x << y) % M, 'lshr': x >> y, 'ashr': (sx >> y) % M}[op], w)
        return IntV({'and': x & y, 'or': x | y, 'xor': x ^ y}[op], w)

    def as_bool(self, v):
        if isinstance(v, bool) or (not isinstance(v, (IntV, PtrV, FnV, AggV, Undef, SetV, MapV)) and z3.is_bool(v)):
            if not isinstance(v, bool):
                if z3.is_true(v): return True
                if z3.is_false(v): return False
            return v
        if isinstance(v, IntV):
            if v.b is not None: return v.b
            if isinstance(v.t, int): return v.t % 2 == 1
            if v.lo is not None and v.lo >= 0 and v.hi <= 1: return v.t == 1
        raise Unsupported('boolean expected, got %r' % (v,))

    def icmp(self, st, inst, a, b):
        pred = inst['pred']
        if isinstance(a, (PtrV, FnV)) or isinstance(b, (PtrV, FnV)):
            if isinstance(a, IntV) or isinstance(b, IntV): raise Unsupported('pointer compared with integer')
            if isinstance(a, PtrV) and isinstance(b, PtrV) and a.r == b.r and a.r is not None and not (isinstance(a.o, int) and isinstance(b.o, int)):
                m, c = lin(norm(tz(a.o) - tz(b.o)))
                g = 0
                for q in [q for _, q in m.values()] + [c]: g = math.gcd(g, q)
                X, Y = tz(unlin({k: (x, q // (g or 1)) for k, (x, q) in m.items()}, c // (g or 1))), z3.IntVal(0)
                return {'eq': X == Y, 'ne': X != Y, 'ult': X < Y, 'ule': X <= Y, 'ugt': X > Y, 'uge': X >= Y}[pred]
            if pred == 'eq': return a == b
            if pred == 'ne': return not (a == b)
            if isinstance(a, PtrV) and isinstance(b, PtrV) and a.r == b.r and isinstance(a.o, int) and isinstance(b.o, int):
                return {'ult': a.o < b.o, 'ule': a.o <= b.o, 'ugt': a.o > b.o, 'uge': a.o >= b.o}[pred]
            raise Unsupported('pointer order')
        if a is UNDEF or b is UNDEF: raise Unsupported('comparison of an undefined value')
        if inst['oty'] == 1:
            x, y = self.as_bool(a), self.as_bool(b)
            if isinstance(x, bool) and isinstance(y, bool): return (x == y) if pred == 'eq' else (x != y)
            return (bz(x) == bz(y)) if pred == 'eq' else (bz(x) != bz(y))
        f = self.S if pred[0] == 's' else self.U
        if pred in ('eq', 'ne') and isinstance(a, IntV) and isinstance(b, IntV):
            # a common signed or unsigned reading keeps terms simple
            H, M = 1 << (a.w - 1), 1 << a.w
            def within(v, l, h): return v.t is not None and v.lo is not None and v.lo >= l and v.hi <= h
            if not (within(a, 0, M - 1) and within(b, 0, M - 1)):
                A = IntV(self.const_s(a), a.w) if isinstance(a.t, int) else a
                B = IntV(self.const_s(b), b.w) if isinstance(b.t, int) else b
                if within(A, -H, H - 1) and within(B, -H, H - 1): f = self.S
        x, y = f(st, a), f(st, b)
        if isinstance(x, int) and isinstance(y, int):
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred if pred in ('eq', 'ne') else pred[1:]]
        X, Y = tz(x), tz(y)
        if self.footprint or self.unsigned64: self.log.append(('cmp', X - Y))
        if pred in ('eq', 'ne'):
            g = None
            for p, q in ((X, y), (Y, x)):
                if isinstance(q, int) and q == 0 and z3.is_app(p) and p.decl().name() == 'REM':
                    g = mkD(p.children()[0], p.children()[1])
            if g is None: g = True if same(x, y) else X == Y
            if pred == 'eq': return g
            return not g if isinstance(g, bool) else z3.Not(g)
        return {'lt': X < Y, 'le': X <= Y, 'gt': X > Y, 'ge': X >= Y}[pred[1:]]

    # ---- memory
    def deref(self, st, p):
        if not isinstance(p, PtrV): raise Unsupported('access through %r' % (p,))
        if p.r is None: raise Unsupported('null')
        if not isinstance(p.o, int): raise Unsupported('symbolic offset')
        return p
    def gload(self, p, size, ty):
        g = self.m.globals.get(p.r[1])
        if g is None or 'init' not in g: raise Unsupported('load from external global %s' % p.r[1])
        for off, sz, v in g['init']:
            if off == p.o and sz == size and v[0] != 'bytes': return self.const(v) if v[0] != 'zero' else self.zero(ty)
            if off <= p.o and p.o + size <= off + sz:
                if v[0] == 'bytes':
                    d = bytes.fromhex(v[1])[p.o - off:p.o - off + size]
                    return IntV(int.from_bytes(d, 'little'), size * 8)
                if v[0] == 'zero': return self.zero(ty)
                if v[0] == 'i':
                    return IntV((int(v[2]) >> (8 * (p.o - off))) % (1 << (8 * size)), size * 8)
        raise Unsupported('load from global %s+%d' % (p.r[1], p.o))
    def zero(self, ty):
        if ty == 'ptr': return NULL
        if isinstance(ty, int): return False if ty == 1 else IntV(0, ty)
        raise Unsupported('zero of type %r' % (ty,))
    # arrays: a region with one array value, addressed by index
    def array(self, st, p):
        if not isinstance(p, PtrV) or p.r is None: return None
        c = st.mem.get(p.r, {}).get(0)
        return c[1] if c is not None and isinstance(c[1], ArrV) else None
    def index(self, st, A, p, size):
        m, c = lin(p.o)
        if size != A.elem or c % A.elem or any(q % A.elem for _, q in m.values()): raise Unsupported('access across array elements')
        i = norm(unlin({k: (x, q // A.elem) for k, (x, q) in m.items()}, c // A.elem))
        k = norm(A.n)
        self.oblige(st, True if isinstance(i, int) and isinstance(k, int) and 0 <= i < k else z3.And(tz(i) >= 0, tz(i) < tz(A.n)), 'access inside the array in ' + self.where(None))
        if not any(x.eq(tz(i)) for x in st.points[-40:]): st.points.append(tz(i))
        return i
    def element(self, A, t):
        if A.wrap == 'ideal': return IdealV(t)
        if A.wrap == 'bool':
            b = t == 1
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and same(t.children()[1], 1) and same(t.children()[2], 0): b = t.children()[0]
            return IntV(t, 8, 0, 1, b=b)
        return IntV(t, A.wrap, 0, (1 << A.wrap) - 1)
    def unelement(self, st, A, v):
        if A.wrap == 'ideal':
            if not isinstance(v, IdealV): raise Unsupported('array of whole numbers holds something else')
            return v.t
        return self.U(st, v)
    def pick(self, st, p, size, ty):
        """load at an unknown place of a block of cells of one size"""
        if isinstance(p.r, tuple) and p.r not in st.mem:
            g = self.m.globals.get(p.r[1])
            if g is None or not g.get('const') or not g.get('size'): raise Unsupported('symbolic offset')
            cells = [(o, self.gload(PtrV(p.r, o), size, ty)) for o in range(0, g['size'] - size + 1, size)]
        else: cells = [(o, v) for o, (sz, v) in sorted(st.mem[p.r].items()) if sz == size]
        if not cells or len(cells) > 4096 or not all(isinstance(v, IntV) and v.t is not None for _, v in cells): raise Unsupported('symbolic offset')
        self.oblige(st, z3.Or([tz(p.o) == o for o, _ in cells]), 'access inside the array in ' + self.where(None))
        t = tz(self.U(st, cells[-1][1]))
        for o, v in reversed(cells[:-1]): t = z3.If(tz(p.o) == o, tz(self.U(st, v)), t)
        return IntV(t, size * 8, 0, (1 << (size * 8)) - 1)
    def grid(self, st, p):
        if not isinstance(p, PtrV) or p.r is None: return None
        c = st.mem.get(p.r, {}).get(0)
        return c[1] if c is not None and isinstance(c[1], GridV) else None
    def grid_place(self, st, G, p):
        k, j, i = G.place(p.o)
        self.oblige(st, z3.And(tz(j) >= 0, tz(j) < tz(G.n)), 'the column exists in ' + self.where(None))
        st.points.append(tz(j))
        if k == 'el':
            self.oblige(st, z3.And(tz(i) >= 0, tz(i) < tz(G.len(j))), 'the row exists in ' + self.where(None))
            st.points.append(tz(i))
        return k, j, i
    def load(self, st, p, size, ty):
        G = self.grid(st, p)
        if G is not None:
            k, j, i = self.grid_place(st, G, p)
            if size != 8: raise Unsupported('access across array elements')
            if k == 'el': return IdealV(G.val(j, i))
            if i == 0: return PtrV(p.r, G.start(j))
            st.assume(z3.And(tz(G.len(j)) >= 0, tz(G.len(j)) < 2 ** 64))
            return IntV(G.len(j), 64, 0, 2 ** 64 - 1)
        A = self.array(st, p)
        if A is not None: return self.element(A, A.val(self.index(st, A, p, size)))
        if isinstance(p, PtrV) and p.r is not None and not isinstance(p.o, int): return self.pick(st, p, size, ty)
        p = self.deref(st, p)
        if isinstance(p.r, tuple):
            if p.r in st.mem: return self.mload(st, p, size, ty)
            if not self.m.globals.get(p.r[1], {}).get('const') and not self.initial_globals:
                if not st.ghost.get(('globals', p.r[1])): raise Unsupported('load from mutable global %s' % p.r[1])
            return self.gload(p, size, ty)
        return self.mload(st, p, size, ty)
    def mload(self, st, p, size, ty):
        reg = st.mem[p.r]
        c = reg.get(p.o)
        if c is not None and c[0] == size:
            v = c[1]
            if ty == 'ptr' and isinstance(v, IntV) and v.t == 0: return NULL
            return v
        if c is None:
            for o, (sz, v) in reg.items():
                if o < p.o and p.o + size <= o + sz: return self.piece(v, sz, p.o - o, size)
            ov = [o for o, (sz, v) in reg.items() if o < p.o + size and p.o < o + sz]
            if not ov: return UNDEF
            raise Unsupported('overlapping load')
        if c[0] > size: return self.piece(c[1], c[0], 0, size)
        # several cells make one integer
        parts, o = [], p.o
        while o < p.o + size:
            c = reg.get(o)
            if c is None: parts.append((4, UNDEF)); o += 4; continue
            parts.append(c); o += c[0]
        if o != p.o + size: raise Unsupported('ragged load')
        if len({x[0] for x in parts}) == 1:
            return IntV(None, size * 8, parts=[x[1] for x in parts])
        if all(x[0] >= 4 for x in parts): raise Unsupported('ragged load')
        # bools next to each other and the like
        q = size // 2
        lo = self.load(st, PtrV(p.r, p.o), q, q * 8); hi = self.load(st, PtrV(p.r, p.o + q), q, q * 8)
        return IntV(None, size * 8, parts=[lo, hi])
    def piece(self, v, sz, off, size):
        if isinstance(v, IntV):
            if isinstance(v.t, int): return IntV((v.t >> (8 * off)) % (1 << (8 * size)), 8 * size)
            if v.parts:
                n = sz // len(v.parts)
                if off % n == 0 and size == n: return v.parts[off // n]
        if v is NULL or v == NULL: return IntV(0, 8 * size)
        if v is UNDEF: return UNDEF
        if isinstance(v, IntV) and v.t is not None:
            t = tz(self.U_static(v) if self.U_static(v) is not None else v.t % (1 << v.w))
            if off: t = t / (1 << (8 * off))
            return IntV(t % (1 << (8 * size)), 8 * size, 0, (1 << (8 * size)) - 1)
        raise Unsupported('partial load')
    def materialise(self, st, r):
        """a global variable of the program in its initial state becomes memory"""
        g = self.m.globals.get(r[1])
        if not self.initial_globals or g is None or g.get('const') or 'init' not in g: raise Unsupported('store to global %s' % r[1])
        st.mem[r] = {}
        for off, sz, v in g['init']:
            if v[0] == 'zero': self.fill(st, PtrV(r, off), sz)
            elif v[0] == 'bytes':
                for i, bt in enumerate(bytes.fromhex(v[1])): self.store(st, PtrV(r, off + i), 1, IntV(bt, 8))
            else: self.store(st, PtrV(r, off), sz, self.const(v))
    def store(self, st, p, size, v):
        G = self.grid(st, p)
        if G is not None and not isinstance(v, GridV):
            k, j, i = self.grid_place(st, G, p)
            if size != 8: raise Unsupported('access across array elements')
            if k == 'el':
                if not isinstance(v, IdealV): raise Unsupported('array of whole numbers holds something else')
                G = G.put(j, i, v.t)
            elif i == 8: G = G.with_len(j, self.U(st, v))
            else:
                if not isinstance(v, PtrV): raise Unsupported('a column is a pointer')
                A = self.array(st, v)
                if A is not None and same(v.o, 0): G = G.with_column(j, A.val)
                elif v.r == p.r and same(v.o, G.start(j)): pass
                elif v.r is not None: raise Unsupported('columns share their elements')
            st.mem[p.r][0] = (BIG, G)
            return
        A = self.array(st, p)
        if A is not None and not isinstance(v, ArrV):
            i = self.index(st, A, p, size)
            st.mem[p.r][0] = (BIG, A.put(i, self.unelement(st, A, v)))
            return
        p = self.deref(st, p)
        if isinstance(p.r, tuple) and p.r not in st.mem: self.materialise(st, p.r)
        reg = st.mem[p.r]
        for o in [o for o, (sz, _) in reg.items() if o < p.o + size and p.o < o + sz and (o != p.o or sz != size)]:
            sz, old = reg.pop(o)
            # keep what is not overwritten
            for a, b in ((o, p.o), (p.o + size, o + sz)):
                if a < b and o <= a and b <= o + sz:
                    try: reg[a] = (b - a, self.piece(old, sz, a - o, b - a))
                    except Unsupported: pass
        if isinstance(v, IntV) and v.t is None and v.parts:
            n = size // len(v.parts)
            reg.pop(p.o, None)
            for i, x in enumerate(v.parts): reg[p.o + i * n] = (n, x)
            return
        if isinstance(v, AggV): raise Unsupported('store of an aggregate')
        reg[p.o] = (size, v)
    def copy(self, st, d, s, n):
        if n == 0: return
        if any(f(st, x) is not None for f in (self.array, self.grid) for x in (s, d)):
            self.store(st, d, n, self.load(st, s, n, 8 * n)); return
        s = self.deref(st, s); d = self.deref(st, d)
        if isinstance(s.r, tuple) and s.r not in st.mem:
            g = self.m.globals.get(s.r[1])
            if g is None or 'init' not in g: raise Unsupported('copy from external global')
            for off, sz, v in g['init']:
                if s.o <= off and off + sz <= s.o + n:
                    if v[0] == 'zero': self.fill(st, PtrV(d.r, d.o + off - s.o), sz)
                    elif v[0] == 'bytes':
                        for i, bt in enumerate(bytes.fromhex(v[1])): self.store(st, PtrV(d.r, d.o + off - s.o + i), 1, IntV(bt, 8))
                    else: self.store(st, PtrV(d.r, d.o + off - s.o), sz, self.const(v))
            return
        if s == d: return
        cells = {o: c for o, c in st.mem[s.r].items() if s.o <= o and o + c[0] <= s.o + n}
        for o, c in st.mem[s.r].items():
            if o not in cells and o < s.o + n and s.o < o + c[0]: raise Unsupported('copy cuts a cell')
        reg = st.mem[d.r]
        for o in [o for o, (sz, _) in reg.items() if o < d.o + n and d.o < o + sz]:
            if not (d.o <= o and o + reg[o][0] <= d.o + n): raise Unsupported('copy cuts a cell')
            reg.pop(o)
        for o, c in cells.items(): reg[o - s.o + d.o] = c
    def fill(self, st, d, n):
        o = 0
        while o < n:
            k = 8 if n - o >= 8 else (4 if n - o >= 4 else 1)
            self.store(st, PtrV(d.r, d.o + o), k, IntV(0, 8 * k)); o += k

    # ---- operands
    def const(self, o):
        k = o[0]
        if k == 'i': return (int(o[2]) == 1) if o[1] == 1 else IntV(int(o[2]), o[1])
        if k == 'null': return NULL
        if k == 'undef': return UNDEF if not isinstance(o[1], dict) else AggV()
        if k == 'f': return FnV(o[1])
        if k == 'g': return PtrV(('g', o[1]), o[2])
        if k == 'zero':
            if len(o) > 1 and not isinstance(o[1], dict): return self.zero(o[1])
            if len(o) > 1 and 'struct' in o[1]: return AggV({i: self.zero(t) for i, (_, t) in enumerate(o[1]['struct'])})
            return AggV()
        if k == 'agg': return AggV({i: self.const(x) for i, x in enumerate(o[1:])})
        if k == 'md': return UNDEF
        raise Unsupported('operand %r' % (o[:2],))
    def val(self, env, o):
        if o[0] == 'l':
            if o[1] not in env: raise Unsupported('value not computed')
            return env[o[1]]
        return self.const(o)

    # ---- control
    def call(self, st, name, args):
        """run function `name`; list of (state, result)"""
        if name in self.contracts: return self.contracts[name](self, st, args)
        f = self.m.fns.get(name)
        if name in self.builtins: self.used.add(name); return self.builtins[name](self, st, args)
        if f is None: raise Unsupported('call of unknown function ' + name)
        for pre, h in self.builtins.items():
            if pre.startswith('~') and f.dem.startswith(pre[1:]): self.used.add(pre); return h(self, st, args)
        if f.decl or not f.blocks: raise Unsupported('call of external function ' + f.dem)
        if self.depth > 60: raise Unsupported('recursion')
        self.visited.add(name)
        self.depth += 1
        self.fnstack.append(f)
        try:
            env = {i: a for i, a in enumerate(args)}
            outs = self.explore(f, [(st, env, 0, None, True)], None)
        finally:
            self.depth -= 1
            self.fnstack.pop()
        return [(o[1], o[2]) for o in outs if o[0] == 'ret']

    def explore(self, f, work, loop):
        """outs: ('ret', st, val) | ('exit', st, env, block, prev) | ('back', st, env, prev)"""
        outs, n = [], 0
        L = f.loops()
        while work:
            st, env, b, prev, initial = work.pop()
            n += 1
            if n > self.MAXPATHS: raise Unsupported('too many paths')
            if loop is not None and not initial:
                if b == loop.header: outs.append(('back', st, env, prev)); continue
                if b not in loop.blocks: outs.append(('exit', st, env, b, prev)); continue
            if b in L and not (loop is not None and b == loop.header):
                for o in self.loops.run(self, f, L[b], st, env, prev):
                    if o[0] == 'ret': outs.append(o)
                    else: work.append((o[1], o[2], o[3], o[4], False))
                continue
            for o in self.block(f, st, env, b, prev, skip_phis=(loop is not None and initial and b == loop.header)):
                if o[0] == 'ret': outs.append(o)
                else: work.append((o[1], o[2], o[3], b, False))
        return outs

    def phis(self, f, b, prev, env):
        new = {}
        for i in f.blocks[b]:
            if i['op'] != 'phi': break
            for pb, o in i['in']:
                if pb == prev: new[i['id']] = self.val(env, o); break
        return new

    def block(self, f, st, env, b, prev, skip_phis=False):
        """runs one block; outs ('ret', st, v) | ('jump', st, env, next)"""
        insts = f.blocks[b]
        if not skip_phis:
            new = self.phis(f, b, prev, env)
            if new:
                env = dict(env); env.update(new)
        outs, work = [], [(st, dict(env), 0)]
        while work:
            st, env, k = work.pop()
            while True:
                inst = insts[k]
                op = inst['op']
                if op == 'phi': k += 1; continue
                if op == 'br':
                    if 'cond' not in inst: outs.append(('jump', st, env, inst['t'])); break
                    c = self.as_bool(self.val(env, inst['cond']))
                    if isinstance(c, bool):
                        outs.append(('jump', st, env, inst['t'] if c else inst['f'])); break
                    c = z3.simplify(c) if z3.is_app(c) and c.num_args() == 0 else c
                    s2 = st.fork()
                    ok1, ok2 = self.p.feasible(st, c), None
                    ok2 = self.p.feasible(s2, z3.Not(c)) if ok1 else True
                    if ok1:
                        st.assume(c); st.trace.append((f.name, b, True))
                        outs.append(('jump', st, env, inst['t']))
                    if ok2:
                        s2.assume(z3.Not(c)); s2.trace.append((f.name, b, False))
                        outs.append(('jump', s2, dict(env), inst['f']))
                    break
                if op == 'switch':
                    v = self.val(env, inst['cond'])
                    u = self.U(st, v)
                    if isinstance(u, int):
                        tgt = inst['def']
                        for cv, t in inst['cases']:
                            if int(cv[2]) == u: tgt = t; break
                        outs.append(('jump', st, env, tgt)); break
                    neg = []
                    for cv, t in inst['cases']:
                        g = u == int(cv[2]); neg.append(z3.Not(g))
                        if self.p.feasible(st, g):
                            s2 = st.fork(); s2.assume(g); outs.append(('jump', s2, dict(env), t))
                    if self.p.feasible(st, z3.And(neg)):
                        st.assume(z3.And(neg)); outs.append(('jump', st, env, inst['def']))
                    break
                if op == 'ret':
                    outs.append(('ret', st, self.val(env, inst['ops'][0]) if inst.get('ops') else None)); break
                if op == 'unreachable': break
                rs = self.step(f, st, env, inst)
                if len(rs) == 0: break
                for s2, v in rs[1:]:
                    e2 = dict(env); e2[inst['id']] = v
                    if op == 'call' and 't' in inst: outs.append(('jump', s2, e2, inst['t']))
                    else: work.append((s2, e2, k + 1))
                st, v = rs[0]
                env[inst['id']] = v
                if op == 'call' and 't' in inst: outs.append(('jump', st, env, inst['t'])); break
                k += 1
        return outs

    def step(self, f, st, env, inst):
        op = inst['op']
        V = lambda o: self.val(env, o)
        if op in ('add', 'sub', 'mul', 'urem', 'srem', 'udiv', 'sdiv', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return [(st, self.binop(st, inst, V(inst['ops'][0]), V(inst['ops'][1])))]
        if op == 'icmp': return [(st, self.icmp(st, inst, V(inst['a']), V(inst['b'])))]
        if op == 'alloca':
            if 'count' in inst: raise Unsupported('variable-length array')
            return [(st, PtrV(self.new_region(st, 'L')))]
        if op == 'load':
            p = V(inst['ops'][0])
            if isinstance(p, PtrV) and p.r is None:
                self.oblige(st, False, 'no access through a null pointer in ' + self.where(inst)); return []
            return [(st, self.loaded(st, p, inst['size'], inst['ty']))]
        if op == 'store':
            p = V(inst['ops'][1])
            if isinstance(p, PtrV) and p.r is None:
                self.oblige(st, False, 'no access through a null pointer in ' + self.where(inst)); return []
            v = V(inst['ops'][0])
            if isinstance(v, AggV): self.store_typed(st, p, v, inst['vty'])
            else: self.store(st, p, inst['size'], v)
            return [(st, None)]
        if op == 'getelementptr':
            if inst.get('bad'): raise Unsupported('address computation')
            p = V(inst['base'])
            if not isinstance(p, PtrV): raise Unsupported('address of %r' % (p,))
            o = p.o + inst['off']
            for x, sc in inst['var']:
                v = self.need(V(x))
                o += self.const_s(v) * sc if isinstance(v.t, int) else tz(self.S(st, v)) * sc
            return [(st, PtrV(p.r, norm(o)))]
        if op == 'zext':
            v = V(inst['ops'][0])
            if inst['from'] == 1:
                b = self.as_bool(v) if v is not UNDEF else None
                if b is None: return [(st, UNDEF)]
                if isinstance(b, bool): return [(st, IntV(int(b), inst['ty'], b=b))]
                return [(st, IntV(z3.If(b, z3.IntVal(1), z3.IntVal(0)), inst['ty'], 0, 1, b=b))]
            n = inst['ty'] // inst['from']
            if v is UNDEF: return [(st, IntV(None, inst['ty'], parts=[UNDEF] + [IntV(0, inst['from'])] * (n - 1)))]
            if v.t is None: raise Unsupported('widening a composite')
            u = self.U(st, v)
            return [(st, IntV(u, inst['ty'], 0, (1 << inst['from']) - 1, b=v.b, parts=None if isinstance(u, int) else [IntV(u, inst['from'], 0, (1 << inst['from']) - 1)] + [IntV(0, inst['from'])] * (n - 1)))]
        if op == 'sext':
            v = V(inst['ops'][0])
            if inst['from'] == 1:
                b = self.as_bool(v)
                return [(st, IntV(-int(b) if isinstance(b, bool) else z3.If(b, z3.IntVal(-1), z3.IntVal(0)), inst['ty'], -1, 0))]
            return [(st, IntV(self.S(st, v), inst['ty'], -(1 << (inst['from'] - 1)), (1 << (inst['from'] - 1)) - 1))]
        if op == 'trunc':
            v = V(inst['ops'][0])
            if v is UNDEF: return [(st, UNDEF)]
            if inst['ty'] == 1: return [(st, self.as_bool(v) if v.b is not None or isinstance(v.t, int) or (v.lo is not None and v.lo >= 0 and v.hi <= 1) else (tz(self.U(st, v)) % 2 == 1))]
            if v.parts and isinstance(v.parts[0], IntV) and v.parts[0].w == inst['ty']: return [(st, v.parts[0])]
            if v.parts and v.parts[0] is UNDEF: return [(st, UNDEF)]
            v = self.need(v)
            return [(st, IntV(v.t, inst['ty'], v.lo, v.hi, b=v.b))]
        if op in ('bitcast', 'freeze', 'addrspacecast'): return [(st, V(inst['ops'][0]))]
        if op == 'extractvalue':
            v = V(inst['a'])
            for i in inst['idx']:
                v = v.d.get(i, UNDEF) if isinstance(v, AggV) else UNDEF
            return [(st, v)]
        if op == 'insertvalue':
            def put(a, idx, x):
                a = AggV(a.d if isinstance(a, AggV) else {})
                a.d[idx[0]] = x if len(idx) == 1 else put(a.d.get(idx[0]), idx[1:], x)
                return a
            return [(st, put(V(inst['a']), inst['idx'], V(inst['b'])))]
        if op == 'select':
            c = self.as_bool(V(inst['ops'][0]))
            a, b = inst['ops'][1], inst['ops'][2]
            if isinstance(c, bool): return [(st, V(a) if c else V(b))]
            outs = []
            s2 = st.fork()
            if self.p.feasible(st, c): st.assume(c); outs.append((st, V(a)))
            if self.p.feasible(s2, z3.Not(c)): s2.assume(z3.Not(c)); outs.append((s2, V(b)))
            return outs
        if op == 'call':
            cal = inst['callee']
            if cal[0] == 'f': name = cal[1]
            elif cal[0] == 'l':
                v = V(cal)
                if isinstance(v, PtrV) and v.r is None:
                    self.oblige(st, False, 'no call through a null pointer in ' + self.where(inst)); return []
                if not isinstance(v, FnV): raise Unsupported('indirect call of %r' % (v,))
                name = v.n
            else: raise Unsupported('call of ' + str(cal[0]))
            args = []
            for o, bv in zip(inst['args'], inst['byval']):
                v = V(o)
                if bv:
                    r = self.new_region(st, 'B')
                    self.copy(st, PtrV(r), v, bv); v = PtrV(r)
                args.append(v)
            return self.call(st, name, args)
        if op == 'landingpad' or op == 'resume': raise Unsupported('exceptions')
        raise Unsupported('instruction ' + op)

    @staticmethod
    def tysize(ty):
        if ty == 'ptr': return 8
        if isinstance(ty, int): return (ty + 7) // 8
        if isinstance(ty, dict): return ty['size']
        raise Unsupported('type %r' % (ty,))
    def store_typed(self, st, p, v, ty):
        if isinstance(v, AggV) and isinstance(ty, dict) and 'struct' in ty:
            for i, (o, t) in enumerate(ty['struct']):
                self.store_typed(st, PtrV(p.r, p.o + o), v.d.get(i, UNDEF), t)
            return
        if isinstance(v, AggV) and isinstance(ty, dict) and 'array' in ty:
            n = self.tysize(ty['elem'])
            for i in range(ty['array']): self.store_typed(st, PtrV(p.r, p.o + i * n), v.d.get(i, UNDEF), ty['elem'])
            return
        self.store(st, p, self.tysize(ty), v)
    def loaded(self, st, p, size, ty):
        if isinstance(ty, dict):
            if 'struct' in ty: return AggV({i: self.loaded(st, PtrV(p.r, p.o + o), self.tysize(t), t) for i, (o, t) in enumerate(ty['struct'])})
            if 'array' in ty:
                n = self.tysize(ty['elem'])
                return AggV({i: self.loaded(st, PtrV(p.r, p.o + i * n), n, ty['elem']) for i in range(ty['array'])})
        v = self.load(st, p, size, ty)
        if ty == 1 and isinstance(v, IntV): return self.as_bool(v)
        return v
