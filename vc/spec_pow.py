"""Contract of the power function (P01)."""
import z3
from terms import *
from exec import *
import loops

def templates(facts):
    """what is multiplied already, plus the current base to the exponent that is left (or less the exponent done), is constant"""
    def g(ex, f, L, st0, V, iv, backs, info, add, pc0, env, log, outs):
        mons = [k for k, d in V.items() if d['kind'] == 'mon']
        fixed = []
        for i, v in env.items():
            if isinstance(v, MonV) and ('p', i) not in V: fixed.append(v)
        for r, cells in st0.mem.items():
            for o, (sz, v) in cells.items():
                if isinstance(v, MonV) and ('m', r, o, sz) not in V: fixed.append(v)
        ints = [k for k, d in V.items() if d['kind'] == 'int' and iv[k] is not None]
        for n in ints:
            h = V[n]['cur']
            for b in mons:
                B = V[b]['cur'].t
                facts.extend([z3.Implies(h == 0, tz(pmul(B, h)) == 0), z3.Implies(h == 1, tz(pmul(B, h)) == B)])
            for o, bv in backs:
                for x in subterms([tz(bv[n])] if bv[n] is not None else []):
                    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(x.children()[1]) and 2 <= x.children()[1].as_long() <= 16:
                        y, k = x.children()[0], x.children()[1].as_long()
                        for b in mons:
                            B = V[b]['cur'].t
                            for r in range(k):
                                facts.append(z3.Implies(y % k == r, tz(pmul(B, norm(y))) == tz(norm(k * tz(pmul(B, x)) + r * B))))
            for a in mons:
                for b in mons:
                    if a == b: continue
                    c = norm(tz(iv[a].t) + tz(pmul(norm(iv[b].t), norm(iv[n]))))
                    add('pow%s%s%s' % (a, b, n), 'atom', lambda v, a=a, b=b, n=n, c=c: tz(norm(tz(v[a].t) + tz(pmul(norm(v[b].t), norm(v[n]))))) == tz(c), a, b, n)
                for q, b in enumerate(fixed):
                    if not isinstance(norm(b.t), int): continue
                    for s in (1, -1):
                        c = norm(tz(iv[a].t) + s * b.t * tz(iv[n]))
                        add('cnt%s%s%d%d' % (a, n, q, s), 'atom', lambda v, a=a, b=b, n=n, c=c, s=s: tz(norm(tz(v[a].t) + s * b.t * tz(v[n]))) == tz(c), a, n)
    return g

def P01(ex, kind):
    w, top = {'u64': (64, 2 ** 64 - 1), 'u32': (32, 2 ** 32 - 1), 'u16': (16, 2 ** 16 - 1), 'i32': (32, 2 ** 31 - 1), 'i64': (64, 2 ** 63 - 1)}[kind]
    facts = []
    ex.p.extra.append(lambda ms: facts)
    ex.loop_templates = [templates(facts)]
    ex.unsigned64 = kind == 'u64'
    ex.ctx = 'power with %s exponent: ' % kind
    st = State()
    x, out = PtrV(ex.new_region(st, 'A')), PtrV(ex.new_region(st, 'A'))
    ex.store(st, x, 8, MonV(z3.IntVal(1))); ex.store(st, out, 8, MonV(z3.IntVal(0)))
    n = ex.fresh('n', 0, top, w, st)
    for s, _ in ex.call(st, 'vf_pow_' + kind, [x, n, out]):
        v = s.mem[out.r][0][1]
        if not isinstance(v, MonV): raise Unsupported('result is no element')
        ex.oblige(s, tz(v.t) == n.t, 'the result is the product of exactly n copies of the base')
        b = s.mem[x.r][0][1]
        ex.oblige(s, isinstance(b, MonV) and same(norm(b.t), 1), 'the base of the caller is left as it was')

def case_of(prop, o):
    for d in o.model.decls():
        if d.name().startswith('n!'): return [o.name.split()[2], str(o.model[d].as_long())]
