"""Loops: complete unrolling when every iteration is decided, otherwise an inferred inductive invariant.

Invariant candidates talk about what the loop has done so far (elements visited, numbers produced), not about how the
loop is written; Houdini keeps the inductive ones.  Candidates that survive are proved on entry and on every back edge."""
import z3
from terms import *

MAX_UNROLL = 300000
SYMBOLIC_UNROLL = 0

def run(ex, f, L, st, env, prev):
    init = ex.phis(f, L.header, prev, env)
    n0, nt = len(ex.obls), ex.ntrivial
    r = None
    if not (ex.fast_footprint and any(M.header != L.header and M.header in L.blocks for M in f.loops().values())):
        r = unroll(ex, f, L, st, env, init)
    if r is not None:
        ex.loops_unrolled.add((f.name, L.header))
        return r
    del ex.obls[n0:]
    ex.ntrivial = nt
    return invariant(ex, f, L, st, env, init)

def unroll(ex, f, L, st, env, init):
    e = dict(env); e.update(init)
    cur, outs, n = [(st.fork(), e)], [], 0
    while cur:
        n += 1
        if n > MAX_UNROLL: raise Unsupported('loop too long')
        if n > getattr(ex, 'unroll_limit', MAX_UNROLL): return None
        new = []
        for s, e in cur:
            rs = ex.explore(f, [(s, e, L.header, None, True)], L)
            backs = [o for o in rs if o[0] == 'back']
            rest = [o for o in rs if o[0] != 'back']
            if (backs and rest) or (len(rs) > 1 and not getattr(ex, 'fork_unroll', False)): return None
            outs += rest
            for _, s2, e2, pv in backs:
                e3 = dict(e2); e3.update(ex.phis(f, L.header, pv, e2))
                new.append((s2, e3))
        if len(new) > getattr(ex, 'max_states', 64): return None
        cur = new
    return outs

def eqv(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, (SetV, MapV)): return a is b
    if hasattr(a, 'same'): return a.same(b)
    if isinstance(a, X().IntV):
        if a.t is None or b.t is None: return a.parts is not None and b.parts is not None and len(a.parts) == len(b.parts) and all(eqv(p, q) for p, q in zip(a.parts, b.parts))
        return same(a.t, b.t)
    if isinstance(a, (X().PtrV, X().FnV)): return a == b
    if isinstance(a, bool): return a == b
    if z3.is_expr(a): return z3.is_expr(b) and a.eq(b)
    if isinstance(a, X().AggV): return a.d.keys() == b.d.keys() and all(eqv(a.d[k], b.d[k]) for k in a.d)
    return False

def X():
    import exec as m
    return m

def signed_use(f, i):
    for b in f.blocks:
        for x in b:
            if x['op'] == 'icmp' and x['pred'][0] == 's' and (x['a'] == ['l', i] or x['b'] == ['l', i]): return True
            if x.get('nsw') and ['l', i] in x.get('ops', []): return True
            if x['op'] in ('sext', 'sdiv', 'srem') and ['l', i] in x.get('ops', []): return True
    return False

def invariant(ex, f, L, st0, env0, init):
    lc, fp = ex.lc, ex.footprint
    try: return invariant_(ex, f, L, st0, env0, init)
    finally: ex.lc, ex.footprint = lc, fp

def invariant_(ex, f, L, st0, env0, init):
    m = X()
    rec = ex.recording
    ex.recording = False
    try:
        # 1. which variables and cells does the loop change
        mod_phi, mod_mem, kinds = ex.feet.get((f.name, L.header), (set(), {}, {})) if ex.fast_footprint else (set(), {}, {})
        mod_phi, mod_mem, kinds = set(mod_phi), {k: v for k, v in mod_mem.items() if k[0] in st0.mem}, dict(kinds)
        fast = ex.fast_footprint
        for _ in range(12):
            st, env, V = havoc(ex, f, L, st0, env0, init, mod_phi, mod_mem, kinds)
            pc0 = len(st.pc)
            snap = {k: dict(v) for k, v in st.mem.items() if k in st0.mem}
            ex.footprint += fast
            log0 = len(ex.log)
            try: outs = ex.explore(f, [(st, env, L.header, None, True)], L)
            finally: ex.footprint -= fast
            ch = False
            for o in outs:
                if o[0] != 'back': continue
                _, s, e, pv = o
                ph = ex.phis(f, L.header, pv, e)
                for i, v in ph.items():
                    if i not in mod_phi and not eqv(v, env[i]):
                        if init[i] is m.UNDEF: kinds[('p', i)] = v
                        elif isinstance(v, m.PtrV) and isinstance(env[i], m.PtrV) and v.r == env[i].r and v.r is not None:
                            dl = norm(tz(v.o) - tz(env[i].o))       # a pointer that walks through one block
                            if isinstance(dl, int): kinds[('p', i)] = abs(dl)
                        mod_phi.add(i); ch = True
                for r in snap:
                    for off in set(snap[r]) | set(s.mem.get(r, {})):
                        a, b = snap[r].get(off), s.mem.get(r, {}).get(off)
                        if a == b: continue
                        if a is None or b is None or a[0] != b[0]:
                            if a is None and b is not None:
                                key = (r, off, b[0])
                                if key not in mod_mem: mod_mem[key] = b[1]; ch = True
                                continue
                            raise Unsupported('loop changes the shape of memory')
                        key = (r, off, a[0])
                        if key in mod_mem or eqv(a[1], b[1]): continue
                        mod_mem[key] = b[1]; ch = True
            if not ch: break
        else: raise Unsupported('loop footprint does not stabilise')
        ex.feet[(f.name, L.header)] = (mod_phi, mod_mem, kinds)
        # 2. candidates; when an enclosing loop is being iterated, those that its last round kept (it only gets weaker)
        if ex.footprint: cands = []
        else: cands = candidates(ex, f, L, st0, init, V, env, outs, pc0, st, ex.log[log0:])
        iv = values_init(ex, st0, V)
        outer, prev, key = ex.lc, None, (f.name, L.header)
        start = list(enumerate(cands))
        if outer['prev'] is not None and key in outer['prev'] and ex.reuse:
            n, kept, prev = outer['prev'][key]
            if n == len(cands): start = [x for x in start if x[0] in kept]
            else: prev = None
        good = surviving(ex, st0, [c for _, c in start], iv)
        rounds = 0
        while True:
            ex.lc = {'prev': prev, 'cur': {}}
            rounds += 1
            if rounds > 25: raise Unsupported('invariant does not stabilise')
            st, env, V2 = havoc(ex, f, L, st0, env0, init, mod_phi, mod_mem, kinds, V)
            hv = {k: v['cur'] for k, v in V.items()}
            for c in good: assume(st, c, hv)
            outs = ex.explore(f, [(st, env, L.header, None, True)], L)
            prev = ex.lc['cur']
            bad = set()
            for o in outs:
                if o[0] != 'back': continue
                bv = values_back(ex, f, L, V, o)
                left = [c for c in good if c[0] not in bad]
                keep = {c[0] for c in surviving(ex, o[1], left, bv)}
                bad |= {c[0] for c in left if c[0] not in keep}
            if not bad: break
            good = [c for c in good if c[0] not in bad]
        backs = [o for o in outs if o[0] == 'back']
        term = variant(ex, V, backs, f, L) if not ex.footprint else True
    finally:
        ex.recording = rec
    names = {c[0] for c in good}
    kept = {i for i, c in enumerate(cands) if c[0] in names}
    if key in outer['cur']:
        n, k0, p0 = outer['cur'][key]
        outer['cur'][key] = (n if n == len(cands) else -1, k0 | kept, prev if p0 is None else p0)
    else: outer['cur'][key] = (len(cands), kept, prev)
    ex.lc = {'prev': prev, 'cur': {}}
    if rec:
        w = f.dem.split('(')[0].replace('nil::blueprint::', '')
        for c in good:
            ex.obls.append(m.Obligation(ex.ctx + 'loop invariant established in ' + w, 'proved'))
            for _ in backs: ex.obls.append(m.Obligation(ex.ctx + 'loop invariant preserved in ' + w, 'proved'))
        ex.obls.append(m.Obligation(ex.ctx + 'loop terminates in ' + w, 'proved' if term else 'unknown'))
    ex.loops_cut.add((f.name, L.header))
    if getattr(ex, 'debug_loops', False):
        print('LOOP', f.dem.split('(')[0], 'header', L.header, 'term', term, 'kept', [c[0] for c in good], 'dropped', [c[0] for c in cands if c not in good])
    # 3. one arbitrary iteration, with its obligations
    st, env, _ = havoc(ex, f, L, st0, env0, init, mod_phi, mod_mem, kinds, V)
    st.havoc = True
    hv = {k: v['cur'] for k, v in V.items()}
    for c in good: assume(st, c, hv)
    outs = ex.explore(f, [(st, env, L.header, None, True)], L)
    ex.lc = outer
    return [o for o in outs if o[0] != 'back']

def havoc(ex, f, L, st0, env0, init, mod_phi, mod_mem, kinds, V=None):
    """a state at the loop head with every changed variable arbitrary; V: key -> description"""
    m = X()
    st, env = st0.fork(), dict(env0)
    env.update(init)
    out = {}
    def mk(key, iv, sample, w_signed):
        if V is not None and key in V:
            d = V[key]
            for a in d['range']: st.assume(a)
            out[key] = d
            return d['val']
        if iv is m.UNDEF or iv is None:      # not readable before the body writes it again
            out[key] = d = {'init': m.UNDEF, 'signed': False, 'range': [], 'val': m.UNDEF, 'cur': None, 'kind': 'undef'}
            return m.UNDEF
        v = iv
        d = {'init': iv, 'signed': w_signed, 'range': []}
        if isinstance(v, m.IntV):
            w = v.w
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if (w_signed or (w == 64 and not ex.unsigned64)) else (0, (1 << w) - 1)
            d['signed'] = w_signed or (w == 64 and not ex.unsigned64)
            x = ex.fresh('h', None, None, w)
            x.lo, x.hi = lo, hi
            if v.b is not None and (w == 8):
                b = ex.fresh_bool('hb')
                d['val'] = m.IntV(z3.If(b, z3.IntVal(1), z3.IntVal(0)), w, 0, 1, b=b); d['cur'] = b; d['kind'] = 'bool'
                out[key] = d; return d['val']
            d['range'] = [x.t >= lo, x.t <= hi]
            d['val'], d['cur'], d['kind'], d['w'] = x, x.t, 'int', w
        elif isinstance(v, SetV):
            s = SetV(name='H'); d['val'] = d['cur'] = s; d['kind'] = 'set'
        elif m.is_bool(v):
            b = ex.fresh_bool('hb'); d['val'] = d['cur'] = b; d['kind'] = 'bool'
        elif hasattr(v, 'havoc'):
            s = v.havoc(ex, st); d['val'] = d['cur'] = s; d['kind'] = v.kind
        elif isinstance(v, m.PtrV) and isinstance(sample, int):
            x = ex.fresh('h', None, None, 64)
            d['val'], d['cur'], d['kind'], d['w'], d['ptr'], d['signed'] = m.PtrV(v.r, norm(tz(v.o) + sample * x.t)), x.t, 'int', 64, (v.r, v.o, sample), True
            d['range'] = [x.t > -2 ** 59, x.t < 2 ** 59]
        elif isinstance(v, m.PtrV):          # must be written again before it is read
            out[key] = d = {'init': m.UNDEF, 'signed': False, 'range': [], 'val': m.UNDEF, 'cur': None, 'kind': 'undef'}
            return m.UNDEF
        else: raise Unsupported('loop changes a %s %r %r %r' % (type(v).__name__, key, iv, sample))
        for a in d['range']: st.assume(a)
        out[key] = d
        return d['val']
    for i in sorted(mod_phi):
        env[i] = mk(('p', i), init[i], kinds.get(('p', i)), signed_use(f, i))
    for (r, off, sz), sample in sorted(mod_mem.items(), key=lambda kv: (str(kv[0][0]), kv[0][1])):
        c = st0.mem[r].get(off)
        iv = c[1] if c else m.UNDEF
        st.mem[r][off] = (sz, mk(('m', r, off, sz), iv, sample, False))
    return st, env, out

def conv(ex, st, d, v):
    m = X()
    if v is m.UNDEF or v is None or d['kind'] == 'undef': return None
    if 'ptr' in d:
        r, o, step = d['ptr']
        if not isinstance(v, m.PtrV) or v.r != r: return None
        mm, c = lin(norm(tz(v.o) - tz(o)))
        if c % step or any(q % step for _, q in mm.values()): return None
        return norm(unlin({k: (x, q // step) for k, (x, q) in mm.items()}, c // step))
    if d['kind'] == 'int':
        return ex.S(st, v) if d['signed'] else ex.U(st, v)
    if d['kind'] == 'bool': return m.bz(ex.as_bool(v))
    return v
def values_init(ex, st0, V): return {k: conv(ex, st0, d, d['init']) for k, d in V.items()}
def values_back(ex, f, L, V, o):
    _, s, e, pv = o
    ph = ex.phis(f, L.header, pv, e)
    out = {}
    for k, d in V.items():
        v = ph[k[1]] if k[0] == 'p' else s.mem[k[1]][k[2]][1]
        out[k] = conv(ex, s, d, v)
    return out

def surviving(ex, st, cands, vals):
    """the candidates that hold in st at vals"""
    ex.nfresh += 1
    x = z3.Int('sk!%d' % ex.nfresh)
    goals = []
    for c in cands:
        name, kind, fn, keys = c
        if any(vals.get(k) is None for k in keys): continue
        g = X().bz(fn(vals)) if kind == 'atom' else z3.Implies(z3.And(x >= 0, x < (U32 if kind == 'all' else 2 ** 64)), fn(vals, x))
        if not z3.is_true(g): g = z3.simplify(g) if g.num_args() == 0 else g
        goals.append((c, g))
    left = goals
    while left:
        r, m = ex.p.valid(st, z3.And([g for _, g in left]), 8000, 6)
        if r == z3.unsat: return [c for c, _ in left]
        if r == z3.sat:
            keep = [(c, g) for c, g in left if not z3.is_false(m.eval(g, model_completion=True))]
            if len(keep) < len(left): left = keep; continue
        return split(ex, st, left)
    return []

def split(ex, st, left):
    """too much for one query: smaller conjunctions"""
    if len(left) == 1: return [c for c, g in left if ex.p.valid(st, g, 5000, 20)[0] == z3.unsat]
    out, n = [], max(1, len(left) // 8)
    for i in range(0, len(left), n):
        part = left[i:i + n]
        r, m = ex.p.valid(st, z3.And([g for _, g in part]), 5000, 6)
        while r == z3.sat and part:
            keep = [(c, g) for c, g in part if not z3.is_false(m.eval(g, model_completion=True))]
            if len(keep) == len(part): break
            part = keep
            if part: r, m = ex.p.valid(st, z3.And([g for _, g in part]), 5000, 6)
        if not part: continue
        out += [c for c, _ in part] if r == z3.unsat else split(ex, st, part) if len(part) > 1 else []
    return out

def assume(st, c, vals):
    name, kind, fn, keys = c
    if kind == 'atom': st.assume(fn(vals))
    else:
        def q(x, fn=fn, vals=dict(vals), top=U32 if kind == 'all' else 2 ** 64):
            r = fn(vals, x)
            return z3.Implies(z3.And(x >= 0, x < top), r) if r is not None else None
        st.foralls.append(q)

def variant(ex, V, backs, f, L):
    if not backs: return True
    for k, d in V.items():
        if d['kind'] != 'int' or d['init'] is X().UNDEF: continue
        for sgn in (1, -1):
            ok = True
            for o in backs:
                b = values_back(ex, f, L, V, o)[k]
                if b is None: ok = False; break
                g = tz(b) > d['cur'] if sgn > 0 else tz(b) < d['cur']
                if ex.p.valid(o[1], g, 4000)[0] != z3.unsat: ok = False; break
            if ok: return True
    ks = [k for k, d in V.items() if d['kind'] == 'int' and d['init'] is not X().UNDEF]
    for k1 in ks:
        for k2 in ks:
            if k1 == k2 or V[k1].get('w') != V[k2].get('w'): continue
            ok = True
            for o in backs:
                bv = values_back(ex, f, L, V, o)
                if bv[k1] is None or bv[k2] is None or ex.p.valid(o[1], tz(bv[k1]) - tz(bv[k2]) > V[k1]['cur'] - V[k2]['cur'], 4000)[0] != z3.unsat: ok = False; break
            if ok: return True
    for h in getattr(ex, 'variants', []):
        if h(ex, V, backs, f, L): return True
    return False

def has_any(t, ids):
    return any(x.get_id() in ids for x in subterms([t])) if not isinstance(t, int) else False

def recanon(t):
    """rebuild divisibility atoms in canonical form after a substitution"""
    sub = []
    for x in subterms([t]):
        if z3.is_app(x) and x.decl().name() == 'D':
            y = mkD(x.children()[0], x.children()[1])
            if not y.eq(x): sub.append((x, y))
    return z3.substitute(t, *sub) if sub else t

def candidates(ex, f, L, st0, init, V, env, outs, pc0, st_h, log):
    m = X()
    cands, names = [], set()
    def add(name, kind, fn, *keys):
        if name in names: return
        names.add(name); cands.append((name, kind, fn, keys))
    ints = [k for k, d in V.items() if d['kind'] == 'int' and d['init'] is not m.UNDEF and ('ptr' in d or d['init'].t is not None)]
    sets = [k for k, d in V.items() if d['kind'] == 'set' and isinstance(d['init'], SetV)]
    modids = {d['cur'].get_id() for k, d in V.items() if d['kind'] in ('int', 'bool')}
    setnames = {d['cur'].name for k, d in V.items() if d['kind'] == 'set'}
    def modified(t):
        if isinstance(t, int): return False
        for x in subterms([t]):
            if x.get_id() in modids: return True
            if z3.is_app(x) and '_' in x.decl().name() and x.decl().name().split('_', 1)[1] in setnames: return True
        return False
    iv = values_init(ex, st0, V)
    backs = [(o, values_back(ex, f, L, V, o)) for o in outs if o[0] == 'back']
    info = {}
    # loop-invariant terms compared with changed variables anywhere in one iteration
    atoms = []
    for o in outs:
        s = o[1]
        for c in s.pc[pc0:]:
            for x in subterms([c]):
                if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and x.children()[0].sort() == I:
                    atoms.append(x.children()[0] - x.children()[1])
    for k in ints:
        d = V[k]; h = d['cur']; i0 = iv[k]
        nm = str(k)
        deltas, assigned, iters, bounds = [], [], [], []
        for o, bv in backs:
            b = bv[k]
            if b is None: continue
            dl = norm(tz(b) - h)
            if modified(dl):              # before the wrap-around is excluded the canonical value is not linear
                raw = ex.phis(f, L.header, o[3], o[2])[k[1]] if k[0] == 'p' else o[1].mem[k[1]][k[2]][1]
                if isinstance(raw, m.IntV) and raw.t is not None and not modified(norm(tz(raw.t) - h)): dl = norm(tz(raw.t) - h)
            if not modified(dl):
                if isinstance(dl, int):
                    if dl: deltas.append((abs(dl), 1 if dl > 0 else -1))
                else:
                    if ex.p.valid(o[1], dl >= 1, 4000)[0] == z3.unsat: deltas.append((dl, 1))
                    elif ex.p.valid(o[1], dl <= -1, 4000)[0] == z3.unsat: deltas.append((norm(-dl), -1))
            elif not modified(tz(b)): assigned.append(b)
        for t in [i0] + [bv[k] for _, bv in backs if bv[k] is not None]:
            if z3.is_expr(t) and z3.is_app(t) and t.decl().name().startswith(('LB_', 'UB_')):
                nmk = t.decl().name().split('_', 1)[1]
                if nmk not in setnames and (nmk, t.decl().name()[:2]) not in iters: iters.append((nmk, t.decl().name()[:2]))
        def uniq(l):
            out = []
            for x in l:
                if not any(same(x, y) for y in out): out.append(x)
            return out
        for a in atoms:
            mm, cc = lin(a)
            key = h.get_id()
            if key in mm and abs(mm[key][1]) == 1:
                q = mm[key][1]
                rest = dict(mm); rest.pop(key)
                B = norm(unlin({kk: (x, -q * c) for kk, (x, c) in rest.items()}, -q * cc))
                if not modified(B): bounds.append(B)
        bounds = uniq(bounds + assigned)
        dd = []
        for x in deltas:
            if not any(same(x[0], y[0]) and x[1] == y[1] for y in dd): dd.append(x)
        info[k] = dict(deltas=dd, assigned=uniq(assigned), iters=iters, bounds=bounds)
        add('ge0' + nm, 'atom', lambda v, k=k, i0=i0: tz(v[k]) >= tz(i0), k)
        add('le0' + nm, 'atom', lambda v, k=k, i0=i0: tz(v[k]) <= tz(i0), k)
        for j, B in enumerate(bounds):
            add('leB%d%s' % (j, nm), 'atom', lambda v, k=k, B=B: tz(v[k]) <= tz(B), k)
            add('geB%d%s' % (j, nm), 'atom', lambda v, k=k, B=B: tz(v[k]) >= tz(B), k)
            for q, (dl, sg) in enumerate(dd):
                if sg > 0: add('ltBd%d.%d%s' % (j, q, nm), 'atom', lambda v, k=k, B=B, dl=dl: tz(v[k]) < tz(B) + tz(dl), k)
                else: add('gtBd%d.%d%s' % (j, q, nm), 'atom', lambda v, k=k, B=B, dl=dl: tz(v[k]) > tz(B) - tz(dl), k)
                # the bounds relative to the start when the body never runs
                if sg > 0: add('ltBd0%d.%d%s' % (j, q, nm), 'atom', lambda v, k=k, B=B, dl=dl, i0=i0: z3.Or(tz(v[k]) == tz(i0), tz(v[k]) < tz(B) + tz(dl)), k)
                else: add('gtBd0%d.%d%s' % (j, q, nm), 'atom', lambda v, k=k, B=B, dl=dl, i0=i0: z3.Or(tz(v[k]) == tz(i0), tz(v[k]) > tz(B) - tz(dl)), k)
                if sg > 0: add('leBd0%d.%d%s' % (j, q, nm), 'atom', lambda v, k=k, B=B, dl=dl, i0=i0: z3.Or(tz(v[k]) == tz(i0), tz(v[k]) <= tz(B) + tz(dl)), k)
                else: add('geBd0%d.%d%s' % (j, q, nm), 'atom', lambda v, k=k, B=B, dl=dl, i0=i0: z3.Or(tz(v[k]) == tz(i0), tz(v[k]) >= tz(B) - tz(dl)), k)
        for q, (dl, sg) in enumerate(dd):
            if not same(dl, 1):
                add('D%d%s' % (q, nm), 'atom', lambda v, k=k, dl=dl, i0=i0: mkD(dl, tz(v[k]) - tz(i0)), k)
                for j, B in enumerate(bounds):
                    add('DorB%d.%d%s' % (q, j, nm), 'atom', lambda v, k=k, dl=dl, i0=i0, B=B: z3.Or(tz(v[k]) == tz(B), mkD(dl, tz(v[k]) - tz(i0))), k)
        for sn, dirn in iters:
            s = SetV.registry[sn]
            if dirn == 'LB':
                add('it%s%s' % (sn, nm), 'atom', lambda v, k=k, s=s: z3.And(tz(v[k]) <= END, z3.Or(tz(v[k]) == END, s.mem(tz(v[k])))), k)
            else:
                add('rit%s%s' % (sn, nm), 'atom', lambda v, k=k, s=s: z3.And(tz(v[k]) >= -1, z3.Or(tz(v[k]) == -1, s.mem(tz(v[k])))), k)
    for c in ints:
        for dl, sg in info[c]['deltas']:
            c0 = iv[c]
            for j in ints:
                if j == c: continue
                j0 = iv[j]
                for sn, dirn in info[j]['iters']:
                    s = SetV.registry[sn]
                    if isinstance(dl, int) and dl == 1:
                        if dirn == 'LB':
                            add('cnt%s%s%s%d' % (c, j, sn, sg), 'atom', lambda v, c=c, j=j, s=s, sg=sg, c0=c0, j0=j0: sg * (tz(v[c]) - tz(c0)) == s.idx(v[j]) - s.idx(j0), c, j)
                        else:
                            add('rcnt%s%s%s%d' % (c, j, sn, sg), 'atom', lambda v, c=c, j=j, s=s, sg=sg, c0=c0, j0=j0: sg * (tz(v[c]) - tz(c0)) == s.idx(norm(tz(j0) + 1)) - s.idx(norm(tz(v[j]) + 1)), c, j)
                    if dirn == 'LB' and sg > 0:
                        add('run%s%s%s' % (c, j, sn), 'all', lambda v, x, c=c, j=j, s=s, dl=dl, c0=c0, j0=j0:
                            z3.And(s.mem(x), x >= tz(j0), x < tz(v[j])) == z3.And(x >= tz(c0), x < tz(v[c]), mkD(dl, x - tz(c0))), c, j)
                    if dirn == 'UB' and sg < 0:
                        add('rrun%s%s%s' % (c, j, sn), 'all', lambda v, x, c=c, j=j, s=s, dl=dl, c0=c0, j0=j0:
                            z3.And(s.mem(x), x <= tz(j0), x > tz(v[j])) == z3.And(x <= tz(c0), x > tz(v[c]), mkD(dl, x - tz(c0))), c, j)
                for dl2, sg2 in info[j]['deltas']:
                    if isinstance(dl, int) and isinstance(dl2, int) and str(c) < str(j):
                        add('rel%s%s' % (c, j), 'atom', lambda v, c=c, j=j, a=dl * sg, b=dl2 * sg2, c0=c0, j0=j0: b * (tz(v[c]) - tz(c0)) == a * (tz(v[j]) - tz(j0)), c, j)
    # accumulated weights
    for c in ints:
        for j in ints:
            for sn, dirn in info[j]['iters']:
                if dirn != 'LB': continue
                s = SetV.registry[sn]
                hit = False
                for o, bv in backs:
                    if bv[c] is None: continue
                    mm, cc = lin(norm(tz(bv[c]) - V[c]['cur']) if not isinstance(bv[c], int) else bv[c] - V[c]['cur'])
                    if any(z3.is_app(x) and x.decl().name() == 'WEIGHT' for x, _ in mm.values()): hit = True
                if hit:
                    c0, j0 = iv[c], iv[j]
                    add('sum%s%s' % (c, j), 'atom', lambda v, c=c, j=j, s=s, c0=c0, j0=j0: tz(v[c]) - tz(c0) == s.wsum(v[j]) - s.wsum(j0), c, j)
    # sets grown by the loop
    for S in sets:
        S0 = V[S]['init']; cur = V[S]['cur']
        for h in ints:
            hv = V[h]['cur']
            Q, ok = [], False
            for o, bv in backs:
                s = bv[S]
                ins = []
                while s is not None and s is not cur and hasattr(s, 'ins'):
                    ins.append(s.ins[1]); s = s.ins[0]
                if s is not cur: ins = None
                if ins is None: continue
                for v in ins:
                    if same(v, hv) or (z3.is_expr(v) and (32, v.get_id()) in ex.wrapped and same(ex.wrapped[(32, v.get_id())], hv)):
                        ok = True
                        cs = [c for c in o[1].pc[pc0:] if not any(x.get_id() in modids and not x.eq(hv) for x in subterms([c]))
                              and not any(z3.is_app(x) and '_' in x.decl().name() and x.decl().name().split('_', 1)[1] in setnames for x in subterms([c]))]
                        Q.append(cs)
            if not ok: continue
            def q(x, Q=Q, hv=hv):
                return z3.Or([z3.And([recanon(z3.substitute(c, (hv, tz(x)))) for c in cs] + [z3.BoolVal(True)]) for cs in Q])
            h0 = iv[h]
            froms = []
            for sn, dirn in info[h]['iters']:
                s = SetV.registry[sn]
                if dirn == 'LB': froms.append(('f' + sn, lambda v, x, s=s, h=h, h0=h0: z3.And(s.mem(x), x >= tz(h0), x < tz(v[h]))))
                else: froms.append(('r' + sn, lambda v, x, s=s, h=h, h0=h0: z3.And(s.mem(x), x <= tz(h0), x > tz(v[h]))))
            for n, (dl, sg) in enumerate(info[h]['deltas']):
                if sg > 0: froms.append(('a%d' % n, lambda v, x, h=h, h0=h0, dl=dl: z3.And(x >= tz(h0), x < tz(v[h]), mkD(dl, x - tz(h0)))))
                else: froms.append(('d%d' % n, lambda v, x, h=h, h0=h0, dl=dl: z3.And(x <= tz(h0), x > tz(v[h]), mkD(dl, x - tz(h0)))))
            for nm, fr in froms:
                add('set%s%s%s' % (S, h, nm), 'all', lambda v, x, S=S, S0=S0, fr=fr, q=q: v[S].mem(x) == z3.Or(S0.mem(x), z3.And(fr(v, x), q(x))), S, h)
                add('setw%s%s%s' % (S, h, nm), 'all', lambda v, x, S=S, S0=S0, fr=fr, q=q: z3.Implies(v[S].mem(x), z3.Or(S0.mem(x), z3.And(fr(v, x), q(x)))), S, h)
        add('mono%s' % (S,), 'all', lambda v, x, S=S, S0=S0: z3.Implies(S0.mem(x), v[S].mem(x)), S)
    for g in getattr(ex, 'loop_templates', []):
        g(ex, f, L, st0, V, iv, backs, info, add, pc0, env, log, outs)
    return cands
