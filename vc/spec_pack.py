"""Contracts of the packing function (H01, H02)."""
import z3
from terms import *
from exec import *
import loops

LOAD = z3.Function('LOAD', I, I, I)          # (map, list): total size of the items outside the list that the map gives to the chosen agent

class Pack:
    """One arbitrary instance: a list of items with distinct keys, a number of agents, and a chosen agent."""
    def __init__(self, ex):
        self.ex = ex
        st = self.st = State()
        self.B = SetV(name='ITEMS')
        self.m = ex.fresh('agents', 1, 2 ** 64 - 1, 64, st)
        self.alpha = ex.fresh('agent', 0, 2 ** 64 - 1, 64, st).t
        st.assume(self.alpha < self.m.t)
        self.SM, self.MX = self.B.wsum(END), self.B.pmax(END)
        self.avg = QUO(self.m.t, self.SM + self.m.t - 1)
        self.LB = ex.fresh('LB', 0, 2 ** 63 - 1, 64, st).t
        st.assume(self.LB == z3.If(self.avg >= self.MX, self.avg, self.MX))
        self.UP = ex.fresh('UP', 1, 2 ** 64 - 1, 64, st).t
        st.assume(self.UP == z3.If(self.LB >= 1, 2 * self.LB, z3.IntVal(1)))
        st.assume(self.SM + self.m.t <= 2 ** 64 - 1)          # quantifier: the sums involved fit the size type
        self.prods, self.pids = [], set()
        self.prod(self.m.t, self.LB); self.prod(self.m.t, self.avg); self.prod(self.m.t, 2 * self.LB - 1)
        ex.p.extra.append(self.lemmas)
        ex.loop_templates = [self.templates]
        ex.oblige_sum = ex.p.coarse = True
        ex.fast_footprint = ex.unsigned64 = True
    def prod(self, a, x, base=True):
        k = (tz(a).get_id(), tz(norm(x)).get_id())
        if k not in self.pids:
            self.pids.add(k); self.prods.append((tz(a), tz(norm(x)), tz(pmul(norm(a), norm(x))), base))
        return tz(pmul(norm(a), norm(x)))
    def load(self, M, R): return LOAD(z3.IntVal(M.id), z3.IntVal(R.id))
    def lemmas(self, ms):
        out, seen, todo = [], set(), [t for k, t in ms if k == 'uf' and t.decl().name() == 'LOAD']
        byid = {s.id: s for s in SetV.registry.values()} if todo else {}
        while todo:
            t = todo.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            M, R = MapV.registry[t.children()[0].as_long()], byid[t.children()[1].as_long()]
            out.append(t >= 0)
            if R is self.B: out.append(t == 0)                         # no item lies outside the full list
            else:
                e = self.load(M, EMPTY); 
                if R is not EMPTY: todo.append(e); out.append(z3.Implies(R.lb(0) == END, t == e)); out.append(t <= e)
            if hasattr(R, 'era'):
                o, x = R.era
                p = self.load(M, o); todo.append(p)
                mine = z3.And(M.has(TKEY(x)), M.val(TKEY(x)) == self.alpha)
                out.append(z3.Implies(z3.And(o.mem(x), self.B.mem(x)), t == p + z3.If(mine, W(x), z3.IntVal(0))))
            if M.put:
                o, k, v = M.put
                p = self.load(o, R); todo.append(p)
                x = TID(k)
                # the entry written belongs to an item still in the list, or to none: nothing outside the list changes
                out.append(z3.Implies(z3.Or(R.mem(x), z3.Not(z3.And(self.B.mem(x), TKEY(x) == k))), t == p))
        tk = {t.get_id(): t for k, t in ms if k == 'uf' and t.decl().name() == 'TKEY'}
        for f in out:
            for t in subterms([f]):
                if z3.is_app(t) and t.decl().name() == 'TKEY': tk[t.get_id()] = t
        for t in tk.values(): out.append(z3.Implies(self.B.mem(t.children()[0]), TID(t) == t.children()[0]))
        live = {t.get_id() for k, t in ms}
        def lives(p):
            cs = [t for t in subterms([p[0], p[1]]) if z3.is_const(t) and not z3.is_int_value(t)]
            return all(t.get_id() in live for t in cs) and (p[3] or p[1].get_id() in live)
        ps = [p for p in self.prods if lives(p)]
        for a, x, ax, base in ps:
            for b, y, by, base2 in ps:
                if a.eq(b) and x.eq(y) or not (base or base2): continue
                if a.eq(b): out.append(z3.Implies(z3.And(a >= 0, x <= y), ax <= by))
                elif x.eq(y): out.append(z3.Implies(z3.And(x >= 0, a <= b), ax <= by))
        for a, x, ax, base in ps:
            out.append(z3.Implies(z3.And(a >= 1, x >= 0), ax >= x))
            out.append(z3.Implies(z3.And(a >= 0, x >= 0), ax >= 0))
            out.append(z3.Implies(z3.Or(a == 0, x == 0), ax == 0))
            if not base:
                for b, y, by, base2 in ps:
                    if x.eq(y) and not a.eq(b): out.append(z3.Implies(a == b, ax == by))
        return out
    # -------------------------------------------------------------------------------------------- loop templates
    def templates(self, ex, f, L, st0, V, iv, backs, info, add, pc0, env, log, outs):
        B, m, al = self.B, self.m.t, self.alpha
        maps, lists, ints = [], [], []
        for k, d in V.items():
            if d['kind'] == 'map': maps.append((str(k), lambda v, k=k: v[k], (k,)))
            elif d['kind'] == 'set': lists.append((str(k), lambda v, k=k: v[k], (k,), d['init']))
            elif d['kind'] == 'int' and d.get('w') == 64: ints.append((str(k), lambda v, k=k: tz(v[k]), (k,), iv[k]))
        mod = {(k[1], k[2]) for k in V if k[0] == 'm'}
        for r, cells in st0.mem.items():
            for off, (sz, c) in cells.items():
                if (r, off) in mod: continue
                if isinstance(c, MapV) and c is not NOMAP: maps.append(('f%s%s' % (r, off), lambda v, c=c: c, ()))
        used = set()
        for o in outs:
            for c in o[1].pc[pc0:]: used |= {x.get_id() for x in subterms([c])}
        for o, bv in backs:
            for k, t in bv.items():
                if z3.is_expr(t): used |= {x.get_id() for x in subterms([t])}
        for _, t in log: used |= {x.get_id() for x in subterms([tz(t)])}
        ints = [x for x in ints if V[x[2][0]]['cur'].get_id() in used]
        fixed, seen = [], set()
        for x in env.values():
            if isinstance(x, IntV) and x.w == 64 and x.t is not None and not isinstance(x.t, int) and x.t.get_id() not in seen:
                seen.add(x.t.get_id())
                if not any(d['kind'] == 'int' and any(y.eq(d['cur']) for y in subterms([x.t])) for d in V.values()): fixed.append(x.t)
        for r, cells in st0.mem.items():
            for off, (sz, c) in cells.items():
                if (r, off) not in mod and isinstance(c, IntV) and c.w == 64 and c.t is not None and not isinstance(c.t, int) and c.t.get_id() not in seen:
                    seen.add(c.t.get_id()); fixed.append(c.t)
        def within(t, u):
            (a, _), (b, _) = lin(t), lin(u)
            return bool(a) and any(all(k in b and b[k][1] == sg * q for k, (x, q) in a.items()) for sg in (1, -1))
        weighty = [t for kind, t in log if kind == 'cmp' and any(z3.is_app(x) and x.decl().name() == 'WEIGHT' for x in subterms([t]))]
        puts = [tz(t) for kind, t in log if kind == 'put']
        caps = []
        for u in weighty:
            c = [t for t in fixed if not any(z3.is_app(x) and x.decl().name() in ('TKEY', 'WEIGHT') for x in subterms([t])) and within(t, u)]
            caps += [t for t in c if not any(t is not s and within(t, s) and not within(s, t) for s in c)]
        caps = list({t.get_id(): t for t in caps}.values())
        givers = [t for t in fixed if any(same(t, p) for p in puts)]
        def named(pre, l): return [('%s%d' % (pre, i), lambda v, t=t: tz(t), ()) for i, t in enumerate(l)]
        caps, gfix = named('C', caps), named('G', givers)
        cur = [(n, g, k) for n, g, k, _ in ints if info[k[0]]['iters']]
        cnt = [(n, g, k, i0) for n, g, k, i0 in ints if not info[k[0]]['iters']]
        gmod = [(n, g, k) for n, g, k, _ in cnt if any(same(V[k[0]]['cur'], p) for p in puts)]
        who = gfix + gmod
        fx = caps
        limits = [('m', lambda v: m, ())] + who
        nums = [(n, g, k) for n, g, k, _ in cnt] + caps
        for n, g, k, i0 in cnt:
            for t, nm in ((self.LB, 'LB'), (self.UP, 'UP'), (self.UP - 1, 'UP1')):
                add('ge%s%s' % (nm, n), 'atom', lambda v, g=g, t=t: g(v) >= t, *k)
                add('le%s%s' % (nm, n), 'atom', lambda v, g=g, t=t: g(v) <= t, *k)
            for n2, g2, k2 in nums:
                if n2 != n: add('le%s%s' % (n, n2), 'atom', lambda v, g=g, g2=g2: g(v) <= g2(v), *(k + k2))
        # the largest size seen
        for n, g, k, i0 in cnt:
            if not any(bv[k[0]] is not None and not isinstance(bv[k[0]], int) and any(z3.is_app(x) and x.decl().name() == 'WEIGHT' for x in subterms([bv[k[0]]])) for o, bv in backs): continue
            for n2, g2, k2 in cur:
                for sn, dirn in info[k2[0]]['iters']:
                    s = SetV.registry[sn]
                    if dirn == 'LB': add('max%s%s' % (n, n2), 'atom', lambda v, g=g, g2=g2, s=s, i0=i0: g(v) == z3.If(tz(i0) >= s.pmax(g2(v)), tz(i0), s.pmax(g2(v))), *(k + k2))
        for n, g, k in maps:
            add('own' + n, 'allk', lambda v, x, g=g: z3.Implies(g(v).has(x), z3.And(B.mem(TID(x)), TKEY(TID(x)) == x)), *k)
            for n2, g2, k2, i0 in cnt:
                full = lambda v, x, g=g: z3.Implies(B.mem(x), z3.And(g(v).has(TKEY(x)), g(v).val(TKEY(x)) < m))
                add('done%s%s' % (n, n2), 'all', lambda v, x, g2=g2, i0=i0, full=full: z3.Or(g2(v) == tz(i0), full(v, x)), *(k + k2))
                add('load%s%s' % (n, n2), 'atom', lambda v, g=g, g2=g2, i0=i0: z3.Or(g2(v) == tz(i0), self.load(g(v), EMPTY) <= g2(v)), *(k + k2))
        for n, g, k, s0 in lists:
            if not isinstance(s0, SetV): continue
            add('sub0' + n, 'all', lambda v, x, g=g, s0=s0: z3.Implies(g(v).mem(x), s0.mem(x)), *k)
            add('subB' + n, 'all', lambda v, x, g=g: z3.Implies(g(v).mem(x), B.mem(x)), *k)
            add('wle' + n, 'atom', lambda v, g=g, s0=s0: g(v).wsum(END) <= s0.wsum(END), *k)
            for n2, g2, k2, i0 in cnt:
                add('acc%s%s' % (n, n2), 'atom', lambda v, g=g, g2=g2, s0=s0, i0=i0: g2(v) - tz(i0) == s0.wsum(END) - g(v).wsum(END), *(k + k2))
                for n3, g3, k3 in fx:
                    def pig(v, x, g=g, g2=g2, g3=g3):
                        if not (z3.is_app(x) and x.decl().name().startswith(('sk!', 'LB_'))): return None
                        self.prod(m, g3(v)); self.prod(m, W(x), False)
                        return z3.Implies(g(v).mem(x), self.SM - g(v).wsum(END) >= self.prod(g2(v), g3(v)) + g2(v) - self.prod(g2(v), W(x), False))
                    add('pig%s%s%s' % (n, n2, n3), 'all', pig, *(k + k2 + k3))
                    for n4, g4, k4 in cur:
                        add('full%s%s%s%s' % (n, n2, n3, n4), 'all', lambda v, x, g=g, g2=g2, g3=g3, g4=g4: z3.Implies(z3.And(g(v).mem(x), x < g4(v)), g2(v) + W(x) > g3(v)), *(k + k2 + k3 + k4))
            for n4, g4, k4 in cur:
                add('on%s%s' % (n, n4), 'atom', lambda v, g=g, g4=g4: z3.Or(g4(v) == END, g(v).mem(g4(v))), *(k + k4))
            for nM, gM, kM in maps:
                for n2, g2, k2 in limits:
                    for strict in (True, False):
                        def given(v, x, g=g, gM=gM, g2=g2, strict=strict):
                            val = gM(v).val(TKEY(x))
                            return z3.Implies(B.mem(x), z3.Or(g(v).mem(x), z3.And(gM(v).has(TKEY(x)), val < g2(v) if strict else val <= g2(v))))
                        add('given%s%s%s%s' % (n, nM, n2, strict), 'all', given, *(k + kM + k2))
                for n2, g2, k2 in who:
                    ld = lambda v, g=g, gM=gM: self.load(gM(v), g(v))
                    add('ld0%s%s%s' % (n, nM, n2), 'atom', lambda v, g2=g2, ld=ld: z3.Implies(al >= g2(v), ld(v) == 0), *(k + kM + k2))
                    add('ld1%s%s%s' % (n, nM, n2), 'atom', lambda v, g2=g2, ld=ld: z3.Implies(al > g2(v), ld(v) == 0), *(k + kM + k2))
                    for n3, g3, k3 in nums:
                        if n3 == n2: continue
                        add('ldT%s%s%s%s' % (n, nM, n2, n3), 'atom', lambda v, g2=g2, g3=g3, ld=ld: z3.Implies(al < g2(v), ld(v) <= g3(v)), *(k + kM + k2 + k3))
                        add('ldE%s%s%s%s' % (n, nM, n2, n3), 'atom', lambda v, g2=g2, g3=g3, ld=ld: z3.Implies(al == g2(v), ld(v) == g3(v)), *(k + kM + k2 + k3))

def pack(ex):
    P = Pack(ex)
    st = P.st
    l, out = ex.new_region(st, 'H'), ex.new_region(st, 'H')
    ex.store(st, PtrV(l), 8, P.B); ex.store(st, PtrV(out), 8, NOMAP)
    P.l, P.out = l, out
    return P, ex.call(st, 'vf_pack', [PtrV(l), P.m, PtrV(out)])

def H01(ex, only=None):
    ex.ctx = 'H01 '
    P, outs = pack(ex)
    for s, _ in outs:
        M, Lst = s.mem[P.out][0][1], s.mem[P.l][0][1]
        x = ex.fresh('sk', 0, U32 - 1, 64, s).t
        k = ex.fresh('sk', 0, 2 ** 64 - 1, 64, s).t
        ex.oblige(s, z3.Implies(P.B.mem(x), M.has(TKEY(x))), 'every task is assigned')
        ex.oblige(s, z3.Implies(P.B.mem(x), M.val(TKEY(x)) < P.m.t), 'agent numbers are below the number of agents')
        ex.oblige(s, z3.Implies(M.has(k), z3.And(P.B.mem(TID(k)), TKEY(TID(k)) == k)), 'only the given tasks are assigned')
        ex.oblige(s, Lst.mem(x) == P.B.mem(x), 'the list still holds the same tasks')

def H02(ex, only=None):
    ex.ctx = 'H02 '
    P, outs = pack(ex)
    for s, _ in outs:
        M = s.mem[P.out][0][1]
        ex.oblige(s, P.load(M, EMPTY) < P.UP, 'no agent is loaded beyond the bound')
