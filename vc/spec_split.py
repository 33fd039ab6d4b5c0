"""Contracts of the splitting functions (S01, S02)."""
import z3
from terms import *
from exec import *

SZ, OFF = z3.Function('SZ', I, I), z3.Function('OFF', I, I)              # size of a chunk; digits in front of it
DG, TAIL = z3.Function('DG', I, I), z3.Function('TAIL', I, I)            # digit of the input; value of the digits from a place on
VALD, VALS = z3.Function('VALD', I, I, I), z3.Function('VALS', I, I, I)  # (from, count): value of those digits, read densely and in the base

class Split:
    """One arbitrary partition of M digits into n chunks and one arbitrary digit string."""
    def __init__(self, ex, bitof, digits):
        self.ex, self.bitof = ex, bitof
        st = self.st = State()
        self.n = ex.fresh('n', 0, 2 ** 31 - 1, 64, st)
        self.M = ex.fresh('M', 0, 2 ** 31 - 1, 64, st).t
        self.base = ex.fresh('base', 2, 2 ** 64 - 1, 64, st)
        self.digits = digits
        ex.p.extra.append(self.lemmas)
        ex.loop_templates = [self.templates]
        ex.unsigned64 = False
        ex.reuse = False
        self.sizes = self.vector(ArrV(8, self.n.t, 64, lambda i: SZ(tz(i))))
        st.assume(OFF(tz(norm(self.n.t - 1))) == 0); st.assume(OFF(z3.IntVal(-1)) == self.M)
        self.out = PtrV(ex.new_region(st, 'A'))
    def vector(self, A):
        ex, st = self.ex, self.st
        v, d = PtrV(ex.new_region(st, 'A')), PtrV(ex.new_region(st, 'V'))
        st.mem[d.r][0] = (BIG, A)
        ex.store(st, v, 8, d); ex.store(st, PtrV(v.r, 8), 8, IntV(A.n, 64, 0, 2 ** 63))
        return v
    # definitions and lemmas, instantiated at the terms of a query
    def lemmas(self, ms):
        n, M, b = self.n.t, self.M, self.base.t
        out, seen = [], set()
        todo = [(t, 0) for k, t in ms if k == 'uf']
        tails, divs = {}, {}
        while todo:
            t, depth = todo.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            nm, a = t.decl().name(), t.children()
            new = []
            def emit(f):
                out.append(f); new.append(f)
            if nm == 'SZ':
                x = a[0]
                emit(z3.Implies(z3.And(x >= 0, x < n), z3.And(t >= 1, OFF(tz(norm(x - 1))) == OFF(x) + t)))
            elif nm == 'OFF':
                x = a[0]
                emit(z3.Implies(z3.And(x >= -1, x < n), z3.And(t >= 0, t <= M)))
                emit(z3.Implies(x == n - 1, t == 0)); emit(z3.Implies(x == -1, t == M))
                if depth < 1: emit(z3.Implies(z3.And(x >= 0, x < n), z3.And(SZ(x) >= 1, OFF(tz(norm(x - 1))) == t + SZ(x))))
            elif nm in ('VALD', 'VALS'):
                F, (s, m) = t.decl(), a
                if depth < 2:
                    p, d = F(s, tz(norm(m - 1))), tz(norm(s + m - 1))
                    d = self.bitof(DG(d)) if nm == 'VALD' else DG(d)
                    step = 2 * p if nm == 'VALD' else tz(norm(times(p, b)))
                    emit(z3.Implies(m <= 0, t == 0)); emit(z3.Implies(m >= 1, t == step + d))
            elif nm == 'DG':
                emit(z3.And(t >= 0, t < b, *([t < self.digits] if self.digits else [])))
            elif nm == 'TAIL':
                tails[t.get_id()] = t
                emit(t >= 0)
            elif nm == 'POW': emit(t >= 1)
            elif nm == 'IDIV' or nm == 'IMOD': divs[(a[0].get_id(), a[1].get_id())] = a
            elif nm == 'TIMES':
                if not a[0].eq(a[1]): out.append(t == TIMES(a[1], a[0]))
                for x, y in ((a[0], a[1]), (a[1], a[0])): emit(z3.Implies(x == 0, t == 0)); emit(z3.Implies(x == 1, t == y))
            elif nm.startswith(('PVAL_', 'PHAS_')):
                m = PairMapV.registry[int(nm.split('_')[1])]
                emit(z3.Implies(z3.And(m.ok, m.has(*a)), m.val(*a) == POW(*a)))
            for f in new:
                for x in subterms([f]):
                    if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and depth < 4: todo.append((x, depth + 1))
        # the digit string from place t on is digit t times the power of the base, plus less than that power
        for x, y in divs.values():
            for T in tails.values():
                t = T.children()[0]
                out.append(z3.Implies(z3.And(t >= 0, t < M, x == T, y == POW(b, tz(norm(M - 1 - t)))),
                                      z3.And(IDIV(x, y) == DG(t), IMOD(x, y) == TAIL(tz(norm(t + 1))), DG(t) >= 0, DG(t) < b, *([DG(t) < self.digits] if self.digits else []))))
        return out
    def templates(self, ex, f, L, st0, V, iv, backs, info, add, pc0, env, log, outs):
        n, M = self.n.t, self.M
        arrs = [k for k, d in V.items() if d['kind'] == 'array']
        ints = [k for k, d in V.items() if d['kind'] == 'int' and iv[k] is not None]
        ideals = [k for k, d in V.items() if d['kind'] == 'ideal']
        for k, d in V.items():
            if d['kind'] == 'pairmap': add('powers%s' % (k,), 'atom', lambda v, k=k: v[k].ok, k)
        mod = {d['cur'].get_id() for d in V.values() if d['kind'] in ('int', 'bool')}
        def fixed(t): return isinstance(t, int) or not any(x.get_id() in mod or (z3.is_app(x) and x.decl().name().startswith('ARR_') and x.decl().name() in arrnames) for x in subterms([tz(t)]))
        arrnames = {'ARR_%d' % V[k]['cur'].id for k in arrs}
        # places the body works at
        spots = {}
        for o in outs:
            for x in subterms([c for c in o[1].pc[pc0:]]):
                if z3.is_app(x) and x.decl().name() == 'SZ' and fixed(x.children()[0]): spots[x.children()[0].get_id()] = x.children()[0]
        for o, bv in backs:
            for k in arrs:
                for i in getattr(bv[k], 'puts', []):
                    if fixed(i): spots[tz(i).get_id()] = tz(i)
        spots = list(spots.values())[:4]
        idx = [(str(k), lambda v, k=k: tz(v[k]), k) for k in ints]
        kinds = (('d', VALD), ('s', VALS))
        # counters that move with the offset of the chunk reached
        for k in ints:
            for s, c in (('p', 1), ('m', -1)):
                for nx, x, kx in idx:
                    if kx == k: continue
                    for sh, e in (('', lambda z: z), ('n', lambda z: n - 1 - z), ('1', lambda z: z - 1)):
                        c0 = norm(tz(iv[k]) - c * OFF(tz(norm(e(tz(iv[kx]))))))
                        add('off%s%s%s%s' % (k, s, nx, sh), 'atom', lambda v, k=k, x=x, c=c, c0=c0, e=e: tz(v[k]) - c * OFF(tz(norm(e(x(v))))) == tz(c0), k, kx)
        for T in ideals:
            for nx, x, kx in idx:
                for sh, e in (('k', lambda z: M - 1 - z), ('t', lambda z: z), ('o', lambda z: OFF(tz(norm(z)))), ('q', lambda z: OFF(tz(norm(n - 1 - z))))):
                    add('tail%s%s%s' % (T, nx, sh), 'atom', lambda v, T=T, x=x, e=e: tz(v[T].t) == TAIL(tz(norm(e(x(v))))), T, kx)
        for i, t in enumerate(spots):
            for nx, x, kx in idx:
                add('in%s%d' % (nx, i), 'atom', lambda v, x=x, t=t: z3.And(x(v) >= 0, x(v) <= SZ(t)), kx)
                add('in1%s%d' % (nx, i), 'atom', lambda v, x=x, t=t: z3.And(x(v) >= -1, x(v) < SZ(t)), kx)
                add('ino%s%d' % (nx, i), 'atom', lambda v, x=x, t=t: z3.And(x(v) >= OFF(t), x(v) <= OFF(t) + SZ(t)), kx)
        def counts(t):
            out = []
            for nx, x, kx in idx:
                j0 = iv[kx]
                for nm, c in (('j', lambda z: z), ('j1', lambda z: z + 1), ('sj', lambda z: SZ(t) - z), ('sj1', lambda z: SZ(t) - 1 - z), ('jo', lambda z: z - OFF(t)), ('k', lambda z: M - 1 - z - OFF(t)),
                              ('ju', lambda z, j0=j0: z - tz(j0)), ('jd', lambda z, j0=j0: tz(j0) - z)):
                    out.append((nx + nm, lambda v, x=x, c=c: tz(norm(c(x(v)))), kx))
            return out
        for A in arrs:
            A0 = V[A]['init']
            for q, F in kinds:
                for nx, x, kx in idx:
                    for nm, rng in (('gt', lambda y, z: y > z), ('ge', lambda y, z: y >= z), ('gn', lambda y, z: y > n - 1 - z), ('lt', lambda y, z: y < z)):
                        add('done%s%s%s%s' % (A, q, nx, nm), 'all', lambda v, y, A=A, F=F, x=x, rng=rng: z3.Implies(z3.And(y < n, rng(y, x(v))), tz(v[A].val(y)) == F(OFF(y), SZ(y))), A, kx)
                for i, t in enumerate(spots):
                    for nm, c, kx in counts(t):
                        add('part%s%s%d%s' % (A, q, i, nm), 'atom', lambda v, A=A, F=F, t=t, c=c: tz(v[A].val(t)) == F(OFF(t), c(v)), A, kx)
            for i, t in enumerate(spots):
                add('frame%s%d' % (A, i), 'all', lambda v, y, A=A, A0=A0, t=t: z3.Implies(y != t, tz(v[A].val(y)) == tz(A0.val(y))), A)
        for T in ideals:
            for i, t in enumerate(spots):
                for q, F in kinds:
                    for nm, c, kx in counts(t): add('acc%s%s%d%s' % (T, q, i, nm), 'atom', lambda v, T=T, F=F, t=t, c=c: tz(v[T].t) == F(OFF(t), c(v)), T, kx)
    def check(self, s, out):
        ex, n = self.ex, self.n.t
        for c, (F, what) in enumerate(((VALD, 'dense'), (VALS, 'spread'))):
            p, size = ex.load(s, PtrV(out.r, 16 * c), 8, 'ptr'), ex.load(s, PtrV(out.r, 16 * c + 8), 8, 64)
            ex.oblige(s, tz(ex.U(s, size)) == n, 'as many %s values as chunks' % what)
            A = ex.array(s, p)
            if A is None: raise Unsupported('result is no array')
            y = ex.fresh('chunk', None, None, 64).t
            s2 = s.fork(); s2.points.append(y)
            s2.assume(y >= 0); s2.assume(y < n)
            ex.oblige(s2, tz(A.val(y)) == F(OFF(y), SZ(y)), 'each %s value is that of its own digits' % what)

def times(x, y):
    from builtins_vf import times as t
    return t(x, y)

def S01(ex):
    S = Split(ex, lambda d: d, 2)
    ex.ctx = 'split_and_sparse: '
    nb = ex.fresh('bits', 0, 2 ** 63, 64, S.st)
    S.st.assume(nb.t >= S.M)
    bits = S.vector(ArrV(1, nb.t, 'bool', lambda i: z3.If(DG(tz(norm(i))) == 1, z3.IntVal(1), z3.IntVal(0))))
    for s, _ in ex.call(S.st, 'vf_split', [bits, S.sizes, S.base, S.out]): S.check(s, S.out)

MAPS = {'vf_rev': ('reversed_sparse_and_split', lambda d: d % 2, None),
        'vf_rev_maj': ('reversed_sparse_and_split_maj', lambda d: z3.If(d >= 2, z3.IntVal(1), z3.IntVal(0)), 4),
        'vf_rev_ch': ('reversed_sparse_and_split_ch', lambda d: z3.If(z3.Or(d == 3, d == 5, d == 6), z3.IntVal(1), z3.IntVal(0)), 7)}

def S02(ex, fn):
    name, bitof, digits = MAPS[fn]
    S = Split(ex, bitof, digits)
    ex.initial_globals = True
    ex.pow_limit = lambda b, k: z3.And(b == S.base.t, k >= 0, k < S.M)
    st = S.st
    v = PtrV(ex.new_region(st, 'A'))
    ex.store(st, v, 8, IdealV(TAIL(z3.IntVal(0))))
    st.assume(TAIL(S.M) == 0)
    def run(st, when, before):
        """one call; afterwards the function's tables hold powers and everything else it keeps is as before"""
        ex.ctx = '%s, %s: ' % (name, when)
        kept = []
        for s, _ in ex.call(st, fn, [v, S.sizes, S.base, S.out]):
            S.check(s, S.out)
            g = {r: dict(c) for r, c in s.mem.items() if isinstance(r, tuple)}
            for r, cells in g.items():
                for o, (sz, c) in cells.items():
                    if isinstance(c, PairMapV): ex.oblige(s, c.ok, 'the table of powers holds only powers')
                    elif before is not None: ex.oblige(s, before.get(r, {}).get(o) is not None and same_value(before[r][o][1], c), 'what the function keeps between calls is as before')
            kept.append(g)
        return kept
    kept = run(st.fork(), 'first call', None)
    st.mem.update({r: dict(c) for r, c in kept[0].items()})
    for g in kept[1:]:
        for r in set(g) | set(kept[0]):
            for o in set(g.get(r, {})) | set(kept[0].get(r, {})):
                a, b = g.get(r, {}).get(o), kept[0].get(r, {}).get(o)
                if a is None or b is None or not (isinstance(a[1], PairMapV) and isinstance(b[1], PairMapV) or same_value(a[1], b[1])): raise Unsupported('state kept between calls')
    for r in kept[0]:
        for o, (sz, c) in list(st.mem[r].items()):
            if isinstance(c, PairMapV):
                m = PairMapV(); st.assume(m.ok); st.mem[r][o] = (sz, m)
    run(st, 'after any other calls', {r: dict(st.mem[r]) for r in kept[0]})

def same_value(a, b):
    import loops
    return loops.eqv(a, b)

def case_of(prop, o):
    m = o.model
    g = {d.name().split('!')[0]: m[d] for d in m.decls() if d.arity() == 0 and d.name().split('!')[0] in ('n', 'base')}
    n, base = g['n'].as_long() if 'n' in g else 1, g['base'].as_long() if 'base' in g else 4
    if not 0 <= n <= 64: return None
    ev = lambda t: m.eval(t, model_completion=True).as_long()
    sizes = [min(200, max(1, ev(SZ(z3.IntVal(i))))) for i in range(n)]
    fn = 'split' if prop == 'S01' else {'reversed_sparse_and_split': 'rev', 'reversed_sparse_and_split_maj': 'maj', 'reversed_sparse_and_split_ch': 'ch'}[o.name.split(',')[0]]
    top = min(base, {'split': 2, 'maj': 4, 'ch': 7}.get(fn, base))
    dig = [min(top - 1, max(0, ev(DG(z3.IntVal(i))))) for i in range(sum(sizes))]
    return ['%s:%d:%s:%s' % (fn, base, ','.join(map(str, sizes)), ','.join(map(str, dig)))]
