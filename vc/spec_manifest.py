"""Contracts of the requirement functions (M01..M09), stated over the public interface."""
import z3
from terms import *
from exec import *

IMAX = 2 ** 31 - 1
KINDS = 'uvrs'
MUL_CAP = None

def make(ex, st, kind, tag, points):
    """an arbitrary requirement of a kind, built by its real constructor.
    returns [(state, pointer, denotation, description)]"""
    if kind == 'u':
        return [(s, p, lambda x: z3.BoolVal(False), ('U',)) for s, p in ex.call(st, 'vf_mk_u', [])]
    if kind == 'v':
        v = ex.fresh('v' + tag, 0, U32 - 2, 32, st)
        return [(s, p, lambda x: tz(x) == v.t, ('V', v.t)) for s, p in ex.call(st, 'vf_mk_v', [v])]
    if kind == 'r':
        a = ex.fresh('a' + tag, 0, IMAX, 32, st); b = ex.fresh('b' + tag, 0, IMAX, 32, st); c = ex.fresh('s' + tag, 1, IMAX, 32, st)
        st.assume(b.t + c.t <= IMAX); st.assume(a.t + c.t <= IMAX)
        return [(s, p, lambda x: z3.And(tz(x) >= a.t, tz(x) < b.t, mkD(c.t, tz(x) - a.t)), ('R', a.t, b.t, c.t)) for s, p in ex.call(st, 'vf_mk_r', [a, b, c])]
    s0 = SetV(name='IN' + tag)
    r = symset(ex, st, s0)
    st.foralls.append(lambda x, s0=s0: z3.Implies(s0.mem(x), tz(x) <= U32 - 2))
    return [(s, p, lambda x: s0.mem(x), ('S', s0)) for s, p in ex.call(st, 'vf_mk_s', [r])]

def symset(ex, st, s0):
    r = ex.new_region(st, 'H')
    ex.store(st, PtrV(r), 8, s0)
    return PtrV(r)

def num_arg(ex, st, name, hi=U32 - 1): return ex.fresh(name, 0, hi, 32, st)

def sat_of(d, desc):
    """satisfiability of the denotation"""
    k = desc[0]
    if k == 'U': return z3.BoolVal(False)
    if k == 'V': return z3.BoolVal(True)
    if k == 'R': return desc[1] < desc[2]
    return desc[1].lb(0) != END
def min_of(desc):
    k = desc[0]
    return {'V': lambda: desc[1], 'R': lambda: desc[1], 'S': lambda: desc[1].lb(0)}[k]()

def iffy(ex, st, got, want, label):
    ex.oblige(st, bz(ex.as_bool(got)) == want, label)

# ------------------------------------------------------------------------------------------------ counterexamples
def show(m, desc, pool):
    ev = lambda t: m.eval(tz(t), model_completion=True).as_long()
    k = desc[0]
    if k == 'U': return 'U'
    if k == 'V': return 'V:%d' % ev(desc[1])
    if k == 'R': return 'R:%d:%d:%d' % (ev(desc[1]), ev(desc[2]), ev(desc[3]))
    es = sorted(x for x in pool if 0 <= x < U32 - 1 and z3.is_true(m.eval(desc[1].mem(z3.IntVal(x)), model_completion=True)))
    return 'S:' + ','.join(map(str, es[:64]))

def case_of(prop, o):
    """the countermodel as an input of the native oracle"""
    m, st = o.model, o.st
    ev = lambda t: m.eval(t, model_completion=True)
    if prop == 'M07':
        tag, a, b = st.ghost['need']
        return [tag, str(ev(a)), str(ev(b))]
    if prop == 'M08': return case_of_cm(m, st, ev)
    if prop == 'M09': return None
    pool = set()
    for d in m.decls():
        if d.arity() == 0 and z3.is_int_value(m[d]): pool.add(m[d].as_long())
        elif d.arity() == 1 and d.name().startswith(('MEM_', 'LB_', 'UB_')):
            fi = m[d]
            for i in range(fi.num_entries()):
                e = fi.entry(i)
                pool.add(e.arg_value(0).as_long())
                if z3.is_int_value(e.value()): pool.add(e.value().as_long())
    out = [show(m, d, pool) for d in st.ghost['in']]
    if prop == 'M04': out.append(str(m.eval(st.ghost['x'], model_completion=True)))
    return out

# ------------------------------------------------------------------------------------------------ the contracts
def M04(ex, kinds=KINDS):
    for k in kinds:
        for strict in (True, False):
            ex.ctx = 'M04[%s,%s] ' % (k, 'strict' if strict else 'lenient')
            st = State()
            for s, p, d, desc in make(ex, st, k, '', None):
                x = num_arg(ex, s, 'x', IMAX)
                s.ghost['in'] = (desc,); s.ghost['x'] = x.t
                for s2, r in ex.call(s, 'vf_check', [p, x, strict]):
                    want = d(x.t) if strict else (z3.And(sat_of(d, desc), min_of(desc) <= x.t) if k != 'u' else z3.BoolVal(False))
                    iffy(ex, s2, r, want, 'acceptance is exact')

def M05(ex, kinds=KINDS):
    for k in kinds:
        ex.ctx = 'M05[%s] ' % k
        st = State()
        for s, p, d, desc in make(ex, st, k, '', None):
            s.ghost['in'] = (desc,)
            s1 = s.fork()
            for s2, r in ex.call(s1, 'vf_sat', [p]): iffy(ex, s2, r, sat_of(d, desc), 'satisfiable exactly when an amount is admitted')
            if k == 'u': continue
            s.assume(sat_of(d, desc))
            for s2, r in ex.call(s, 'vf_max', [p]):
                m = tz(ex.U(s2, r))
                ex.oblige(s2, d(m), 'the maximum is admitted')
                y = ex.fresh('sk', 0, U32 - 1, 32, s2).t
                ex.oblige(s2, z3.Implies(d(y), y <= m), 'nothing above the maximum is admitted')

def M06(ex, kinds=KINDS):
    for k in kinds:
        ex.ctx = 'M06[%s] ' % k
        st = State()
        for s, p, d, desc in make(ex, st, k, '', None):
            s.ghost['in'] = (desc,)
            if k == 'v': s.assume(desc[1] < IMAX)
            out = symset(ex, s, EMPTY)
            for s2, _ in ex.call(s, 'vf_collect', [p, out]):
                y = ex.fresh('sk', 0, U32 - 1, 32, s2).t
                S = s2.mem[out.r][0][1]
                ex.oblige(s2, S.mem(y) == d(y), 'exactly the admitted amounts are visited')

def M01(ex, only=None):
    ex.assume_mul = True
    for k1 in KINDS:
        for k2 in KINDS:
            if only and (k1, k2) not in only: continue
            ex.ctx = 'M01[%s,%s] ' % (k1, k2)
            for s1, p1, d1, e1 in make(ex, State(), k1, '1', None):
                for s2, p2, d2, e2 in make(ex, s1, k2, '2', None):
                    s2.ghost['in'] = (e1, e2)
                    y = num_arg(ex, s2, 'sk', IMAX)
                    s2.ghost['x'] = y.t
                    for s3, r in ex.call(s2, 'vf_intersect', [p1, p2]):
                        for s4, c in ex.call(s3.fork(), 'vf_check', [r, y, True]):
                            iffy(ex, s4, c, z3.And(d1(y.t), d2(y.t)), 'exactly the common amounts are kept')
                        frame(ex, s3, [(p1, d1), (p2, d2)], y)
    ex.assume_mul = False

def frame(ex, st, objs, y):
    for p, d in objs:
        for s4, c in ex.call(st.fork(), 'vf_check', [p, y, True]): iffy(ex, s4, c, d(y.t), 'the operands are left as they were')

def M02(ex, kinds=KINDS):
    for k in kinds:
        ex.ctx = 'M02[%s] ' % k
        for s1, p, d, e in make(ex, State(), k, '', None):
            t = SetV(name='SUB')
            tp = symset(ex, s1, t)
            y = num_arg(ex, s1, 'sk', IMAX)
            s1.ghost['in'] = (e, ('S', t)); s1.ghost['x'] = y.t
            for s2, r in ex.call(s1, 'vf_subtract', [p, tp]):
                for s3, c in ex.call(s2.fork(), 'vf_check', [r, y, True]):
                    iffy(ex, s3, c, z3.And(d(y.t), z3.Not(t.mem(y.t))), 'exactly the given amounts are removed')
                frame(ex, s2, [(p, d)], y)
                ex.oblige(s2, s2.mem[tp.r][0][1].mem(y.t) == t.mem(y.t), 'the removed set is left as it was')

def fits(e1, e2):
    """amounts plus steps stay within the signed integer type"""
    out = []
    step = [e[3] for e in (e1, e2) if e[0] == 'R'] or [0]
    for e in (e1, e2):
        for c in step:
            if e[0] == 'V': out.append(e[1] + c <= IMAX)
            if e[0] == 'R': out += [e[1] + c <= IMAX, e[2] + c <= IMAX]
            if e[0] == 'S': out.append(lambda x, s0=e[1], c=c: z3.Implies(s0.mem(x), tz(x) + c <= IMAX))
    return out

def M03(ex, only=None):
    for k1 in KINDS:
        for k2 in KINDS:
            if only and (k1, k2) not in only: continue
            ex.ctx = 'M03[%s,%s] ' % (k1, k2)
            for s1, p1, d1, e1 in make(ex, State(), k1, '1', None):
                for s2, p2, d2, e2 in make(ex, s1, k2, '2', None):
                    s2.ghost['in'] = (e1, e2)
                    for c in fits(e1, e2): (s2.foralls.append if callable(c) else s2.assume)(c)
                    y = num_arg(ex, s2, 'sk', IMAX)
                    s2.ghost['x'] = y.t
                    both = z3.And(sat_of(d1, e1), sat_of(d2, e2))
                    for s3, r in ex.call(s2, 'vf_merge', [p1, p2]):
                        for s4, c in ex.call(s3.fork(), 'vf_sat', [r]):
                            iffy(ex, s4, c, both, 'satisfiable exactly when both operands are')
                        for s4, c in ex.call(s3.fork(), 'vf_check', [r, y, True]):
                            c = bz(ex.as_bool(c))
                            ex.oblige(s4, z3.Implies(c, z3.Or(d1(y.t), d2(y.t))), 'admitted amounts come from an operand')
                            if k1 != 'u' and k2 != 'u':
                                ex.oblige(s4, z3.Implies(c, z3.And(y.t >= min_of(e1), y.t >= min_of(e2))), 'no admitted amount is too small')
                        frame(ex, s3, [(p1, d1), (p2, d2)], y)

def M03S(ex, only=None):
    """merging in the other order admits the same amounts"""
    for i, k1 in enumerate(KINDS):
        for k2 in KINDS[i:]:
            if only and (k1, k2) not in only: continue
            ex.ctx = 'M03[%s,%s] ' % (k1, k2)
            for s1, p1, d1, e1 in make(ex, State(), k1, '1', None):
                for s2, p2, d2, e2 in make(ex, s1, k2, '2', None):
                    s2.ghost['in'] = (e1, e2)
                    for c in fits(e1, e2): (s2.foralls.append if callable(c) else s2.assume)(c)
                    y = num_arg(ex, s2, 'sk', IMAX)
                    s2.ghost['x'] = y.t
                    ex.recording = False
                    for s3, r in ex.call(s2, 'vf_merge', [p1, p2]):
                        for s4, c in ex.call(s3, 'vf_check', [r, y, True]):
                            for s5, r2 in ex.call(s4, 'vf_merge', [p2, p1]):
                                for s6, c2 in ex.call(s5, 'vf_check', [r2, y, True]):
                                    ex.recording = True
                                    iffy(ex, s6, c2, bz(ex.as_bool(c)), 'merging in the other order admits the same amounts')
                                    ex.recording = False
                    ex.recording = True

# ------------------------------------------------------------------------------------------------ M07
N_, U_, Q_, O_ = 0, 1, 2, 3
def need(ex, st, name, hi): return ex.fresh(name, 0, hi, 32, st)
def ite(*a):
    r = z3.IntVal(a[-1])
    for c, v in reversed(list(zip(a[:-1:2], a[1:-1:2]))): r = z3.If(c, z3.IntVal(v), r)
    return r
def either(a, b, k): return z3.Or(a == k, b == k)
def merged_need(a, b): return ite(either(a, b, U_), U_, either(a, b, Q_), Q_, either(a, b, O_), O_, N_)
def offered_need(a, has): return ite(z3.Or(a == U_, z3.And(a == Q_, z3.Not(has))), U_, a == Q_, Q_, N_)

def M07(ex, only=None):
    def two(fn, hi, want, tag):
        ex.ctx = 'M07[%s] ' % tag
        st = State()
        a, b = need(ex, st, 'a', hi), need(ex, st, 'b', hi)
        st.ghost['need'] = (tag, a.t, b.t)
        for s, r in ex.call(st, fn, [a, b]): ex.oblige(s, tz(ex.U(s, r)) == want(a.t, b.t), 'the combination of the two needs is right')
    two('vf_lk_merge', 3, merged_need, 'LM')
    two('vf_lk_intersect', 3, lambda a, b: ite(z3.Or(either(a, b, U_), z3.And(either(a, b, Q_), either(a, b, N_))), U_, either(a, b, Q_), Q_, either(a, b, N_), N_, O_), 'LI')
    two('vf_ct_merge', 2, merged_need, 'CM')
    for has in (False, True):
        ex.ctx = 'M07[CI,%s] ' % has
        st = State()
        a = need(ex, st, 'a', 2)
        st.ghost['need'] = ('CI', a.t, z3.IntVal(int(has)))
        for s, r in ex.call(st, 'vf_ct_intersect', [a, has]):
            ex.oblige(s, tz(ex.U(s, r)) == offered_need(a.t, z3.BoolVal(has)), 'the need meets the offer')

# ------------------------------------------------------------------------------------------------ M08
CHK = z3.Function('CHK', I, I, z3.BoolSort(), z3.BoolSort())
SAT = z3.Function('SAT', I, z3.BoolSort())
MRG = z3.Function('MRG', I, I, I)

class Opaque:
    """Any witness requirement whatever, known only by the contracts M01, M03 and M05 state for its functions."""
    def __init__(self, ex):
        self.ex, self.n, self.slots = ex, 0, []
        vt = [g for n, g in ex.m.globals.items() if n.startswith('_ZTV') and 'manifest_unsat_param' in n]
        if not vt: raise Unsupported('no virtual table of a requirement')
        self.objs = {}
        for off, sz, v in vt[0]['init']:
            if v[0] != 'f': continue
            f = ex.m.fns.get(v[1])
            nm = f.dem.split('(')[0].split('::')[-1]
            self.slots.append((off - 16, 'opaque!' + nm))
        ex.contracts.update({'opaque!check_manifest_param': self.check, 'opaque!is_satisfiable': self.sat, 'opaque!merge_with': self.merge, 'opaque!intersect': self.inter})
    def new(self, st, ident=None, parts=None):
        ex = self.ex
        r, vt = ex.new_region(st, 'H'), ex.new_region(st, 'H')
        for off, n in self.slots:
            if off >= 0: ex.store(st, PtrV(vt, off), 8, FnV(n))
        ex.store(st, PtrV(r), 8, PtrV(vt))
        self.n += 1
        self.objs[r] = (z3.Int('obj!%d' % self.n) if ident is None else ident, parts)
        return PtrV(r)
    def id(self, p):
        if p.r not in self.objs: raise Unsupported('requirement of a known kind where any kind is expected')
        return self.objs[p.r][0]
    def check(self, ex, st, a):
        ident, parts = self.objs[a[0].r]
        strict = ex.as_bool(a[2])
        x = tz(ex.U(st, a[1]))
        if parts is None: return [(st, CHK(ident, x, bz(strict)))]
        if strict is not True: raise Unsupported('lenient check of an intersection')
        outs = []
        for s, c in ex.call(st, 'vf_check', [parts[0], a[1], True]):
            for s2, d in ex.call(s, 'vf_check', [parts[1], a[1], True]): outs.append((s2, z3.And(bz(ex.as_bool(c)), bz(ex.as_bool(d)))))
        return outs
    def sat(self, ex, st, a):
        ident, parts = self.objs[a[0].r]
        if parts is not None: raise Unsupported('satisfiability of an intersection')
        return [(st, SAT(ident))]
    # results come back through a hidden first argument or directly, depending on the type's calling convention
    def ret(self, ex, st, a, obj):
        if len(a) == 3: ex.store(st, a[0], 8, obj); return [(st, None)]
        return [(st, obj)]
    def operands(self, ex, st, a):
        this, other = a[-2], a[-1]
        if not (isinstance(this, PtrV) and this.r in self.objs): raise Unsupported('calling convention')
        o = other
        if o.r not in self.objs:
            v = ex.load(st, o, 8, 'ptr')
            if isinstance(v, PtrV) and (v.r in self.objs or not isinstance(v.r, tuple)): o = v
        return this, o
    def merge(self, ex, st, a):
        this, o = self.operands(ex, st, a)
        return self.ret(ex, st, a, self.new(st, MRG(self.id(this), self.id(o))))
    def inter(self, ex, st, a):
        this, o = self.operands(ex, st, a)
        return self.ret(ex, st, a, self.new(st, parts=(this, o)))

def case_of_cm(m, st, ev):
    """a component manifest of the countermodel: the requirement is the set of amounts the model accepts"""
    n = lambda t: ev(t).as_long()
    w, cc = [n(x) for x in st.ghost.get('cols', (z3.IntVal(1), z3.IntVal(1)))]
    mx, how, has = st.ghost.get('max', (z3.IntVal(w), 'built', None))
    mx = n(mx)
    def req(tag):
        ident, c = st.ghost.get('cm' + tag, (None, None))
        if ident is None: return ['V:%d' % w, '0']
        es = [x for x in sorted({w, mx, mx + 1}) if z3.is_true(ev(CHK(ident, z3.IntVal(x), z3.BoolVal(True))))]
        return ['S:' + ','.join(map(str, es)) if es else 'U', str(n(c))]
    if has is not None: cc = int(has)
    return req('') + [str(w), str(cc), str(mx), '0' if how == 'built' else '1'] + req('2')

def const_ok(c, cc): return z3.And(c != U_, z3.Or(c != Q_, cc != 0))

def M08(ex, only=None):
    def component(st, op, tag=''):
        p = op.new(st)
        c = need(ex, st, 'const' + tag, 2)
        st.ghost['cm' + tag] = (op.id(p), c.t)
        return [(s, m, op.id(p), c.t) for s, m in ex.call(st, 'vf_cm', [p, c])]
    def cols(st):
        w, c = num_arg(ex, st, 'w', IMAX), num_arg(ex, st, 'cols')
        st.ghost['cols'] = (w.t, c.t)
        return w, c
    op = Opaque(ex)
    for copy in (False, True):
        tag = ',copied' if copy else ''
        for strict in (True, False, None):
            ex.ctx = 'M08[acceptance,%s%s] ' % (strict, tag)
            for s, m, i, c in component(State(), op):
                w, cc = cols(s)
                for s1, m1 in (ex.call(s, 'vf_cm_copy', [m]) if copy else [(s, m)]):
                    a = [m1, w, cc]
                    for s2, r in ex.call(s1, 'vf_cm_check', a + [strict]) if strict is not None else ex.call(s1, 'vf_cm_check_default', a):
                        iffy(ex, s2, r, z3.And(CHK(i, w.t, z3.BoolVal(bool(strict))), const_ok(c, cc.t)), 'accepted exactly when both column amounts meet the needs')
        ex.ctx = 'M08[satisfiable%s] ' % tag
        for s, m, i, c in component(State(), op):
            for s1, m1 in (ex.call(s, 'vf_cm_copy', [m]) if copy else [(s, m)]):
                for s2, r in ex.call(s1, 'vf_cm_sat', [m1]): iffy(ex, s2, r, z3.And(SAT(i), c != U_), 'satisfiable exactly when some columns are accepted')
    ex.ctx = 'M08[merge] '
    for s, m, i, c in component(State(), op):
        for s1, m2, i2, c2 in component(s, op, '2'):
            w, cc = cols(s1)
            for s2, g in ex.call(s1, 'vf_cm_merge', [m, m2]):
                for s3, r in ex.call(s2.fork(), 'vf_cm_check', [g, w, cc, True]):
                    iffy(ex, s3, r, z3.And(CHK(MRG(i, i2), w.t, z3.BoolVal(True)), const_ok(merged_need(c, c2), cc.t)), 'the merged manifest has both needs')
                for q, j, d in ((m, i, c), (m2, i2, c2)):
                    for s3, r in ex.call(s2.fork(), 'vf_cm_check', [q, w, cc, True]):
                        iffy(ex, s3, r, z3.And(CHK(j, w.t, z3.BoolVal(True)), const_ok(d, cc.t)), 'the merged manifests are left as they were')
    for how in ('built', 'set', 'set twice'):
        for has in (False, True):
            ex.ctx = 'M08[restrict,%s,%s] ' % (how, has)
            for s, m, i, c in component(State(), op):
                w, cc = cols(s)
                mx, old, old2 = [num_arg(ex, s, n, IMAX - 2) for n in ('max', 'old', 'old2')]
                s.ghost['max'] = (mx.t, how, has)
                for s1, k in ex.call(s, 'vf_comp', [mx if how == 'built' else old, has]):
                    S = [s1]
                    for v in {'built': [], 'set': [mx], 'set twice': [old2, mx]}[how]: S = [s3 for s2 in S for s3, _ in ex.call(s2, 'vf_comp_set', [k, v])]
                    for s2 in S:
                        for s3, r in ex.call(s2.fork(), 'vf_comp_get', [k]): ex.oblige(s3, tz(ex.U(s3, r)) == mx.t, 'the maximum reported is the one set')
                        for s3, g in ex.call(s2, 'vf_comp_intersect', [k, m]):
                            for s4, r in ex.call(s3, 'vf_cm_check', [g, w, cc, True]):
                                iffy(ex, s4, r, z3.And(CHK(i, w.t, z3.BoolVal(True)), w.t <= mx.t, const_ok(offered_need(c, z3.BoolVal(has)), cc.t)), 'restricted to exactly the amounts within the limits')

# ------------------------------------------------------------------------------------------------ M09
KEY = z3.Function('KEY', I, I)
def family_contracts(ex):
    def amount(ex, st, a):
        t = W(tz(ex.U(st, a[1])))
        st.assume(z3.And(t >= 0, t < U32))
        return [(st, IntV(t, 32, 0, U32 - 1))]
    def before(ex, st, a): return [(st, KEY(tz(ex.U(st, a[1]))) < KEY(tz(ex.U(st, a[3]))))]
    ex.contracts['vf_amount'], ex.contracts['vf_before'] = amount, before
    # the class of an object of the family under the order is its key
    ex.contracts['__vf_class_of'] = lambda ex, st, a: [(st, IntV(ex.U(st, ex.load(st, PtrV(a[0].r, 8), 4, 32)), 64, 0, U32 - 1))]
    def member(ex, st, a): return ex.call(st, 'vf_mk_family', [IntV(ex.S(st, a[0]), 32, 0, U32 - 1)])
    ex.contracts['__vf_member_of'] = member
    ex.assumptions.add('std::set keeps exactly one element per class of the comparator (shown to be a strict weak order here)')
    ex.assumptions.add('the order a family defines among its own instances is a strict weak order (as the quantifier says)')

def total(S): return S.wsum(END)
def gm_state(ex, s, g):
    """families and total of a gate manifest, read back through the interface"""
    outs = []
    for s1, p in ex.call(s, 'vf_gm_set', [g]):
        for s2, n in ex.call(s1, 'vf_gm_amount', [g]): outs.append((s2, s2.mem[p.r][p.o][1], tz(ex.U(s2, n))))
    return outs

def M09(ex, only=None):
    family_contracts(ex)
    ex.assume_sum = True
    # 1. the comparator
    mk = {'a': 'vf_mk_family', 'b': 'vf_mk_family2', 'p': 'vf_mk_family_plain'}
    def objs(st, kinds):
        out = []
        for n, k in enumerate(kinds):
            v = num_arg(ex, st, 'k%d' % n)
            (st, p), = ex.call(st, mk[k], [v] if k != 'p' else [])
            out.append((p, k, KEY(v.t) if k != 'p' else z3.IntVal(0)))
        return st, out
    def less(st, x, y):
        r = ex.call(st, 'vf_gate_less', [x[0], y[0]])
        return [(s, bz(ex.as_bool(v))) for s, v in r]
    for ks in ('aa', 'ab', 'ba', 'bb', 'pp', 'ap', 'pa'):
        ex.ctx = 'M09[order,%s] ' % ks
        st, (x, y) = objs(State(), ks)
        import builtins_vf
        for s, l in less(st, x, y):
            distinct_types(s)
            for s2, r in less(s, y, x):
                distinct_types(s2)
                ex.oblige(s2, z3.Not(z3.And(l, r)), 'the order is asymmetric')
                ex.oblige(s2, z3.And(z3.Not(l), z3.Not(r)) == (z3.BoolVal(ks[0] == ks[1]) if ks[0] != ks[1] else x[2] == y[2]), 'same family exactly when same type and neither orders before')
    for ks in ('aaa', 'aab', 'aba', 'baa', 'abp', 'apb', 'pab'):
        ex.ctx = 'M09[order,%s] ' % ks
        st, (x, y, z) = objs(State(), ks)
        for s, l in less(st, x, y):
            for s2, r in less(s, y, z):
                for s3, t in less(s2, x, z):
                    distinct_types(s3)
                    ex.oblige(s3, z3.Implies(z3.And(l, r), t), 'the order is transitive')
    # 2. the running total
    def any_gm(st, name):
        (st, g), = ex.call(st, 'vf_gm', [])
        (st, p), = ex.call(st, 'vf_gm_set', [g])
        S = SetV(name='FAM' + name)
        ex.store(st, p, 8, S)
        t = num_arg(ex, st, 'total' + name)
        # the total is private: find the one cell that reads back as the total
        cells = [(o, c) for o, c in st.mem[g.r].items() if c[0] == 4]
        if len(cells) != 1: raise Unsupported('more than one number in a gate manifest')
        ex.store(st, PtrV(g.r, cells[0][0]), 4, t)
        st.assume(t.t == total(S))
        for s, S2, n in gm_state(ex, st.fork(), g): ex.oblige(s, n == total(S), 'an arbitrary manifest is described by its families and total')
        return st, g, S
    def fam(st, name='k'):
        v = num_arg(ex, st, name)
        (st, f), = ex.call(st, 'vf_mk_family', [v])
        return st, f, v.t
    def post(s, g, want, label):
        for s1, S, n in gm_state(ex, s, g):
            y = ex.fresh('sk', 0, U32 - 1, 32, s1).t
            ex.oblige(s1, S.mem(y) == want(y), 'the families are ' + label)
            ex.oblige(s1, n == total(S), 'the total is the sum over the families')
    ex.ctx = 'M09[new] '
    for s, g in ex.call(State(), 'vf_gm', []): post(s, g, lambda y: z3.BoolVal(False), 'none')
    ex.ctx = 'M09[from one] '
    st, f, k = fam(State())
    for s, g in ex.call(st, 'vf_gm_of', [f]): post(s, g, lambda y: y == k, 'the one given')
    ex.ctx = 'M09[add] '
    st, g, S = any_gm(State(), '1')
    st, f, k = fam(st)
    for s, r in ex.call(st, 'vf_gm_add', [g, f]):
        ex.oblige(s, r == g, 'the manifest itself is returned')
        post(s, g, lambda y: z3.Or(S.mem(y), y == k), 'the old ones and the one added')
    ex.ctx = 'M09[merge] '
    st, g, S = any_gm(State(), '1')
    st, h, T = any_gm(st, '2')
    for s, r in ex.call(st, 'vf_gm_merge', [g, h]):
        ex.oblige(s, r == g, 'the manifest itself is returned')
        post(s.fork(), g, lambda y: z3.Or(S.mem(y), T.mem(y)), 'those of both')
        post(s, h, T.mem, 'unchanged in the other')
    ex.ctx = 'M09[merge with itself] '
    st, g, S = any_gm(State(), '1')
    for s, r in ex.call(st, 'vf_gm_merge', [g, g]): post(s, g, S.mem, 'unchanged')
    ex.ctx = 'M09[copy] '
    st, g, S = any_gm(State(), '1')
    for s, r in ex.call(st, 'vf_gm_copy', [g]):
        post(s.fork(), r, S.mem, 'those copied')
        post(s.fork(), g, S.mem, 'unchanged in the source')
        # the copy is independent
        s, f, k = fam(s)
        for s2, _ in ex.call(s, 'vf_gm_add', [r, f]): post(s2, g, S.mem, 'unchanged in the source after the copy grows')
    ex.assume_sum = False

def distinct_types(st):
    import builtins_vf
    ts = list(builtins_vf._tord.values())
    if len(ts) > 1: st.assume(z3.Distinct(ts))
