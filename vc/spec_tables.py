"""Contracts of the lookup-table loaders (T01, T02)."""
import z3
from terms import *
from exec import *
from builtins_vf import LINES, OPENEND, LINE, NUMBER, READS, WORD, FILE, OPENS, TEXT, known_text

def grid_of(ex, s, out):
    """(columns, contents) of the vector of vectors at out"""
    p, n = ex.load(s, out, 8, 'ptr'), ex.U(s, ex.load(s, PtrV(out.r, out.o + 8), 8, 64))
    return n, ex.grid(s, p) if p is not UNDEF and p != NULL else None

def any_grid(ex, st):
    """a result that may hold anything"""
    out, r = PtrV(ex.new_region(st, 'A')), ex.new_region(st, 'V')
    n = ex.fresh('oldcols', 0, 2 ** 59, 64, st)
    st.mem[r][0] = (BIG, GridV(n.t))
    ex.store(st, out, 8, PtrV(r)); ex.store(st, PtrV(out.r, 8), 8, n)
    return out

def base(ex, bits):
    ex.field_bits = bits
    ex.unsigned64 = False
    st = State()
    ex.cols = ex.fresh('cols', 0, 2 ** 59, 64, st)
    ex.line_size = ex.cols.t
    ex.gamma = ex.fresh('column', 0, None, 64, st).t           # one arbitrary column
    st.assume(ex.gamma < ex.line_size)
    return st

def parses(text, cols, rows, rho): return z3.And(tz(rho) + 1 < LINES(text), READS(LINE(text, norm(tz(rho) + 1)), cols))

def templates(T):
    def t(ex, f, L, st0, V, iv, backs, info, add, pc0, env, log, outs):
        g, rows = ex.gamma, NUMBER(LINE(T, 0))
        ints = [k for k, d in V.items() if d['kind'] == 'int' and iv[k] is not None]
        lines = [c[1] for r in st0.mem.values() for c in r.values() if isinstance(c[1], LineV)]
        for G in [k for k, d in V.items() if d['kind'] == 'grid']:
            G0 = V[G]['init']
            add('len%s' % (G,), 'all64', lambda v, x, G=G, G0=G0: tz(v[G].len(x)) == tz(G0.len(x)), G)
            for k in ints:
                add('sized%s%s' % (G, k), 'all64', lambda v, x, G=G, k=k: z3.Implies(x < tz(v[k]), tz(v[G].len(x)) == rows), G, k)
                add('rows%s%s' % (G, k), 'all64', lambda v, y, G=G, k=k: z3.Implies(y < tz(v[k]), tz(v[G].val(g, y)) == WORD(LINE(T, norm(y + 1)), g)), G, k)
            spots = {tz(i).get_id(): tz(i) for o, bv in backs for _, i in getattr(bv[G], 'puts', [])}
            for i, t in list(spots.items())[:4]:
                add('frame%s%d' % (G, i), 'all64', lambda v, y, G=G, G0=G0, t=t: z3.Implies(y != t, tz(v[G].val(g, y)) == tz(G0.val(g, y))), G)
                for k in ints:
                    for n, l in enumerate(lines):
                        add('cell%s%d%s%d' % (G, i, k, n), 'atom', lambda v, G=G, t=t, k=k, l=l: z3.Implies(g < tz(v[k]), tz(v[G].val(g, t)) == WORD(l.t, g)), G, k)
        for k in ints: add('good%s' % (k,), 'all64', lambda v, y, k=k: z3.Implies(y < tz(v[k]), parses(T, ex.line_size, rows, y)), k)
    return t

def stream(ex, st, T):
    s = PtrV(ex.new_region(st, 'A'))
    ex.store(st, s, 8, IntV(T, 64, -2 ** 63, 2 ** 63 - 1)); ex.store(st, PtrV(s.r, 8), 8, IntV(0, 64))
    return s

def T02(ex, bits):
    st = base(ex, bits)
    T = ex.fresh('table', 0, 2 ** 62, 64, st).t
    ex.loop_templates = [templates(T)]
    rows = NUMBER(LINE(T, 0))
    st.assume(LINES(T) >= 1)                                  # the first line is the number of rows
    good = z3.Bool('good')
    st.foralls.append(lambda y: z3.Implies(z3.And(good, y >= 0, y < rows), parses(T, ex.line_size, rows, y)))
    out = any_grid(ex, st)
    ex.ctx = 'parse_lookup_table, field of %d bits: ' % bits
    for s, r in ex.call(st, 'vf_parse_%d' % bits, [stream(ex, st, T), ex.cols, out]):
        r = ex.as_bool(r)
        s1, s2 = s.fork(), s.fork()
        s1.assume(r); s2.assume(z3.Not(bz(r)))
        if ex.p.feasible(s1, z3.BoolVal(True)):
            y = ex.fresh('row', 0, None, 64, s1).t
            s1.assume(y < rows)
            n, G = grid_of(ex, s1, out)
            ex.oblige(s1, tz(n) == ex.line_size, 'as many columns as asked for')
            if G is None: raise Unsupported('no columns')
            ex.oblige(s1, tz(G.n) == ex.line_size, 'as many columns as asked for')
            ex.oblige(s1, tz(G.len(ex.gamma)) == rows, 'each column has as many rows as declared')
            ex.oblige(s1, parses(T, ex.line_size, rows, y), 'success only if every row could be read')
            ex.oblige(s1, tz(G.val(ex.gamma, y)) == WORD(LINE(T, norm(y + 1)), ex.gamma), 'each cell is the number written in its row and column')
        if ex.p.feasible(s2, z3.BoolVal(True)):
            ex.oblige(s2, z3.Not(good), 'failure only if some row could not be read')

# ---- several candidate files, with the contract of the function that reads one
READABLE = z3.Function('READABLE', I, z3.BoolSort())        # every row of the text can be read
CONTENT = z3.Function('CONTENT', I, I, I, I)
def parser_of(ex, bits): return [n for n, f in ex.m.fns.items() if 'detail::parse_lookup_table<field<%dul>>' % bits in f.dem]

def candidates(ex, bits):
    st = base(ex, bits)
    S = SetV(name='paths')
    paths, out = PtrV(ex.new_region(st, 'A')), any_grid(ex, st)
    ex.store(st, paths, 8, S)
    ok = lambda x: z3.And(OPENS(FILE(x)), READABLE(FILE(x)))
    first = ex.fresh('first', 0, END, 64, st).t
    st.assume(z3.Or(first == END, z3.And(S.mem(first), ok(first))))
    st.foralls.append(lambda x: z3.Implies(z3.And(S.mem(x), x < first), z3.Not(ok(x))))
    def none(ex, f, L, st0, V, iv, backs, info, add, pc0, env, log, outs):
        for k in [k for k, d in V.items() if d['kind'] == 'int' and iv[k] is not None]:
            add('none%s' % (k,), 'all', lambda v, x, k=k: z3.Implies(z3.And(S.mem(x), x < tz(v[k])), z3.Not(ok(x))), k)
    ex.loop_templates = [none]
    def parse(ex, st, a):
        F = ex.S(st, ex.load(st, a[0], 8, 64))
        ex.oblige(st, OPENS(F), 'only a file that opens is read')
        ex.oblige(st, tz(ex.U(st, ex.load(st, PtrV(a[0].r, a[0].o + 8), 8, 64))) == 0, 'the file is read from its start')
        ex.oblige(st, tz(ex.U(st, a[1])) == ex.line_size, 'as many columns as asked for')
        s2 = st.fork()
        st.assume(READABLE(F)); s2.assume(z3.Not(READABLE(F)))
        for s, G in ((st, GridV(ex.line_size, lambda j: NUMBER(LINE(F, 0)), lambda j, i: CONTENT(F, tz(norm(j)), tz(norm(i))))), (s2, GridV(ex.fresh('some', 0, 2 ** 59, 64, s2).t))):
            r = ex.new_region(s, 'V'); s.mem[r][0] = (BIG, G)
            ex.store(s, a[2], 8, PtrV(r)); ex.store(s, PtrV(a[2].r, a[2].o + 8), 8, IntV(G.n, 64, 0, 2 ** 59))
        return [(st, True), (s2, False)]
    for n in parser_of(ex, bits): ex.contracts[n] = parse
    ex.ctx = 'load_lookup_table: '
    for s, r in ex.call(st, 'vf_load_%d' % bits, [paths, ex.cols, out]):
        r = ex.as_bool(r)
        ex.oblige(s, bz(r) == (first != END), 'success exactly when some candidate opens and parses')
        if r is False: continue
        s.assume(r)
        y = ex.fresh('row', 0, None, 64, s).t
        n, G = grid_of(ex, s, out)
        if G is None: raise Unsupported('no columns')
        ex.oblige(s, z3.And(tz(n) == ex.line_size, tz(G.n) == ex.line_size), 'as many columns as asked for')
        ex.oblige(s, tz(G.len(ex.gamma)) == NUMBER(LINE(FILE(first), 0)), 'the rows are those of the first candidate that opens and parses')
        ex.oblige(s, tz(G.val(ex.gamma, y)) == CONTENT(FILE(first), ex.gamma, y), 'the cells are those of the first candidate that opens and parses')

def T02L(ex, bits): candidates(ex, bits)

# ---- the embedded tables
def spread(digits, b):
    v = 0
    for d in reversed(digits): v = v * b + d
    return v
def parity(digits): return sum((d & 1) << k for k, d in enumerate(digits))
def all_strings(): 
    import itertools
    return itertools.product(range(4), repeat=8)
def meant(name):
    """the digit strings a table is for: eight digits, each the sum of three bits of a word at fixed distances"""
    if name == '8_split_4': return {(parity(d), spread(d, 4)) for d in all_strings()}
    # SHA-256 capital sigma 1: rotations by 6, 11 and 25, so digits five apart share a bit of the word
    out = set()
    for x in range(1 << 13):                              # bits 6..18 of the word: rotations by 6 and 11 of eight digits
        two = [((x >> k) & 1) + ((x >> (k + 5)) & 1) for k in range(8)]
        out.add(tuple(two))
    strings = set()
    for t in out:
        for y in range(1 << 8): strings.add(tuple(t[k] + ((y >> k) & 1) for k in range(8)))
    return {(parity(d), spread(d, 7)) for d in strings}

def T01(ex, name):
    bits = 255
    st = base(ex, bits)
    out = any_grid(ex, st)
    def parse(ex, st, a):
        """the contract of T02 on a known text"""
        text = known_text(ex.S(st, ex.load(st, a[0], 8, 64)))
        n = ex.U(st, a[1])
        if text is None or not isinstance(n, int): raise Unsupported('a text that is not known')
        ex.oblige(st, same(ex.U(st, ex.load(st, PtrV(a[0].r, a[0].o + 8), 8, 64)), 0), 'the text is read from its start')
        lines = text.split('\n')
        if lines and lines[-1] == '': lines.pop()
        rows, ok = [], True
        import re
        h = re.match(r'\s*([0-9]+)', lines[0]) if lines else None
        ex.oblige(st, h is not None, 'the first line is the number of rows')
        if h is None: return []
        for i in range(int(h.group(1))):
            w = re.match(r'\s*' + r'\s+'.join([r'([0-9a-fA-F]{1,64})'] * n) + r'(?![0-9a-fA-F])', lines[i + 1]) if i + 1 < len(lines) else None
            if w is None: ok = False; break
            rows.append(tuple(int(x, 16) for x in w.groups()))
        r = ex.new_region(st, 'V')
        G = GridV(n); G.rows, G.left = rows, len(lines) - 1 - len(rows)
        st.mem[r][0] = (BIG, G)
        ex.store(st, a[2], 8, PtrV(r)); ex.store(st, PtrV(a[2].r, a[2].o + 8), 8, IntV(n, 64))
        return [(st, ok)]
    for n in parser_of(ex, bits): ex.contracts[n] = parse
    ex.ctx = 'load_lookup_table_from_bin, %s: ' % (name or 'any other name')
    s = PtrV(ex.new_region(st, 'A'))
    if name: ex.store(st, s, 8, StrV(name))
    else:
        t = ex.fresh('name', None, None, 64, st).t
        for x in ('8_split_4', '8_split_7'): st.assume(t != TEXT(x))
        ex.store(st, s, 8, LineV(t))
    for s2, r in ex.call(st, 'vf_bin_%d' % bits, [s, out]):
        r = ex.as_bool(r)
        if not name:
            ex.oblige(s2, z3.Not(bz(r)), 'an unknown name is refused'); continue
        ex.oblige(s2, r, 'the table loads')
        n, G = grid_of(ex, s2, out)
        ex.oblige(s2, same(n, 2), 'the table has two columns')
        if G is None or not hasattr(G, 'rows') or not same(n, 2): continue
        want, got = meant(name), G.rows
        ex.oblige(s2, G.left == 0, 'as many rows as declared')
        for at in range(0, len(got), 256):
            ex.oblige(s2, all(x in want for x in got[at:at + 256]), 'every row pairs the bits of a digit string with the digit string (rows from %d)' % at)
        ex.oblige(s2, len(set(got)) == len(got), 'no row occurs twice')
        ex.oblige(s2, want <= set(got), 'every digit string meant occurs')
        ex.reach(s2)

# ---- counterexamples as inputs of the real code
def case_of(prop, o):
    m = o.model
    if prop == 'T01': return ['bin:' + next((x for x in ('8_split_4', '8_split_7') if x in o.name), 'other').encode().hex()]
    g = {d.name().split('!')[0]: m[d] for d in m.decls() if d.arity() == 0}
    ev = lambda t: m.eval(t, model_completion=True)
    cols = g['cols'].as_long() if 'cols' in g else 1
    if o.name.startswith('load') or not 1 <= cols <= 64: return None
    T = g['table'] if 'table' in g else z3.IntVal(0)
    rows, n = ev(NUMBER(LINE(T, 0))).as_long(), ev(LINES(T)).as_long()
    if not 0 <= rows <= 500: return None
    lines = ['%d' % rows]
    for i in range(1, min(n, rows + 3)):
        good = z3.is_true(ev(READS(LINE(T, i), z3.IntVal(cols))))
        lines.append(' '.join('%x' % (i * 64 + j + 1) for j in range(cols)) if good else 'x')
    text = '\n'.join(lines) + ('' if z3.is_true(ev(OPENEND(T))) else '\n')
    if 'every number of the field' in o.name: text = '1\n' + ' '.join(['5' + '0' * 63] * cols) + '\n'
    return ['text:%d:%s' % (cols, text.encode().hex())]
