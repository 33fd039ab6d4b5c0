"""Contracts of EVM words and the stack (Z03)."""
import z3
from terms import *
from exec import *

WORDS = z3.Function('STK', I, I)                     # what is on the stack, from the bottom

def fresh_word(ex, st, name, top):
    x = ex.fresh(name, 0, top - 1, 64, st).t
    ex.word_bounds = getattr(ex, 'word_bounds', {})
    ex.word_bounds[x.get_id()] = (0, top - 1)
    ex.keep = getattr(ex, 'keep', []) + [x]
    return x

def chains(ms):
    """quotients of one number by powers of two, one from another"""
    out, by = [], {}
    terms = list({x.get_id(): x for k, t in ms for x in subterms([t])}.values()) if ms and isinstance(ms[0], tuple) else []
    for x in terms:
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(x.children()[1]): by.setdefault(x.children()[0].get_id(), []).append(x)
    for l in by.values():
        l.sort(key=lambda x: x.children()[1].as_long())
        for a, b in zip(l, l[1:]):
            m, n = a.children()[1].as_long(), b.children()[1].as_long()
            if m > 1 and n % m == 0: out.append(b == a / (n // m))
    return out

def chunks(ex, s, out, W, count, what):
    p, size = ex.load(s, out, 8, 'ptr'), ex.load(s, PtrV(out.r, 8), 8, 64)
    ex.oblige(s, tz(ex.U(s, size)) == count, '%s: there are %d chunks' % (what, count))
    A = ex.array(s, p)
    if A is None: raise Unsupported('result is no array')
    rest = tz(W)
    vals = [tz(norm(A.val(z3.IntVal(i)))) for i in range(count)]
    for i, v in enumerate(vals): ex.oblige(s, z3.And(v >= 0, v < 2 ** 16), '%s: chunk %d is below two to the sixteenth' % (what, i))
    ex.oblige(s, z3.Sum([v * 2 ** (16 * i) for i, v in enumerate(vals)]) == W, '%s: the chunks, least significant first, make up the number' % what)

def Z03S(ex, which):
    ex.unsigned64 = False
    st = State()
    x, out = PtrV(ex.new_region(st, 'A')), PtrV(ex.new_region(st, 'A'))
    top, count, fn, what = {'word': (2 ** 256, 16, 'vf_split_word', 'word'), '64': (2 ** 64, 4, 'vf_split_64', '64-bit value'), 'make': (2 ** 257, 0, 'vf_make_word', 'number')}[which]
    W = fresh_word(ex, st, 'W', top)
    ex.store(st, x, 8, IdealV(W))
    ex.p.extra.append(chains)
    ex.ctx = ''
    for s, _ in ex.call(st, fn, [x, out]):
        if which == 'make': ex.oblige(s, ideal_of(ex, s, out) == W % 2 ** 256, 'a number made a word is taken modulo two to the 256th')
        else: chunks(ex, s, out, W, count, what)
        ex.oblige(s, ideal_of(ex, s, x) == W, '%s: what is given is left as it was' % what)

def ideal_of(ex, s, p):
    from builtins_vf import ideal
    return tz(ideal(s.mem[p.r][0][1]))

def Z03K(ex, op):
    ex.unsigned64 = False
    st = State()
    s_, w = PtrV(ex.new_region(st, 'A')), PtrV(ex.new_region(st, 'A'))
    n = ex.fresh('n', {'push': 0, 'new': 0, 'swap': 2}.get(op, 1), 2 ** 62, 64, st)
    d = PtrV(ex.new_region(st, 'V'))
    st.mem[d.r][0] = (BIG, ArrV(8, n.t, 'ideal', lambda i: WORDS(tz(norm(i)))))
    ex.store(st, s_, 8, d); ex.store(st, PtrV(s_.r, 8), 8, n)
    X = ex.fresh('X').t
    ex.store(st, w, 8, IdealV(X))
    ex.ctx = ''
    args = [s_] + ([w] if op in ('push', 'pop', 'top') else [])
    m = n.t
    size = {'push': m + 1, 'pop': m - 1, 'top': m, 'swap': m, 'dup': m + 1, 'new': z3.IntVal(0)}[op]
    def want(i):
        if op == 'push': return z3.If(i == m, X, WORDS(i))
        if op == 'swap': return z3.If(i == m - 1, WORDS(tz(norm(m - 2))), z3.If(i == m - 2, WORDS(tz(norm(m - 1))), WORDS(i)))
        if op == 'dup': return z3.If(i == m, WORDS(tz(norm(m - 1))), WORDS(i))
        return WORDS(i)
    for s, _ in ex.call(st, 'vf_stack_' + op, args):
        k = ex.load(s, PtrV(s_.r, 8), 8, 64)
        ex.oblige(s, tz(ex.U(s, k)) == size, 'stack, %s: the right number of words is on the stack' % op)
        if op == 'new': continue
        A = ex.array(s, ex.load(s, s_, 8, 'ptr'))
        if A is None: raise Unsupported('the stack is no array')
        y = ex.fresh('place', None, None, 64).t
        s2 = s.fork(); s2.points.append(y)
        s2.assume(y >= 0); s2.assume(y < size)
        ex.oblige(s2, tz(norm(A.val(y))) == want(y), 'stack, %s: every word is where it should be' % op)
        if op in ('pop', 'top'): ex.oblige(s, ideal_of(ex, s, w) == WORDS(tz(norm(m - 1))), 'stack, %s: the word on top is returned' % op)

def case_of(prop, o):
    m = o.model
    g = {d.name().split('!')[0]: m[d] for d in m.decls() if d.arity() == 0}
    if 'stack' in o.name:
        n, at = g['n'].as_long() if 'n' in g else 3, lambda i: m.eval(WORDS(z3.IntVal(i)), model_completion=True).as_long() % 2 ** 256
        return ['stack:%s:%s' % (o.name.split('stack, ')[1].split(':')[0], ','.join('%x' % x for x in [at(i) for i in range(max(0, n - 6), n)] + [g['X'].as_long() % 2 ** 256 if 'X' in g else 0]))]
    w = g['W'].as_long() if 'W' in g else 0
    return ['%s:%x' % ('split' if 'word:' in o.name else 'make' if 'made' in o.name or 'number:' in o.name else '64', w)]
