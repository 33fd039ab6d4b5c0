"""Contracts of the lookup library (L01): what each built-in table holds."""
import z3
from terms import *
from exec import *
from builtins_vf import ideal, known, text, BIT
from spec_tables import meant

def bit(y, j): return z3.If(BIT(tz(norm(y)), z3.IntVal(j)) == 1, z3.IntVal(1), z3.IntVal(0))
def bits(ms):
    """a number is made up of its binary digits"""
    out, by = [], {}
    for k, t in ms:
        if k == 'uf' and t.decl().name() == 'BIT':
            x, j = t.children()
            by.setdefault(x.get_id(), (x, set()))[1].add(j.as_long())
            out.append(z3.And(t >= 0, t <= 1))
    for x, js in by.values():
        if js == set(range(max(js) + 1)): out.append(z3.Implies(z3.And(x >= 0, x < 2 ** len(js)), z3.Sum([BIT(x, z3.IntVal(j)) * 2 ** j for j in js]) == x))
    return out
DENSE = {m: z3.Function('DENSE_' + m, I, I) for m in ('maj', 'ch', 'par')}    # value of the bits the digits of a number stand for
BIN = z3.Function('BIN', I, I, I, I)                                            # (table, column, row) of the embedded tables

def spread(y, n, b): return z3.Sum([bit(y, j) * b ** j for j in range(n)])
OPCODES = [x for r in ((0, 0xb), (0x10, 0x1d), (0x20, 0x20), (0x30, 0x3f), (0x40, 0x4a), (0x50, 0xa4), (0xf0, 0xf5), (0xfa, 0xfa), (0xfd, 0xff)) for x in range(r[0], r[1] + 1)]
def listed(l): return lambda y: chain(l, y)
ident = lambda y: tz(y)
BINS = {'8_split_4': 0, '8_split_7': 1}
# table: (rows, columns as functions of the row number)
TABLES = {
    'byte_range_table': (256, [ident]),
    'chunk_16_bits': (65536, [ident]),
    'binary_xor_table': (4, [listed((0, 0, 1, 1)), listed((0, 1, 0, 1)), listed((0, 1, 1, 0))]),
    'binary_and_table': (4, [listed((0, 0, 1, 1)), listed((0, 1, 0, 1)), listed((0, 0, 0, 1))]),
    'zkevm_opcodes': (len(OPCODES) + 1, [listed(OPCODES + [0]), listed([x - 0x5f if 0x60 <= x <= 0x7f else 0 for x in OPCODES] + [0]), listed([1] * len(OPCODES) + [0])]),
    'sha256_sparse_base4': (16384, [ident, lambda y: spread(y, 14, 4)]),
    'sha256_sparse_base7': (16384, [ident, lambda y: spread(y, 14, 7)]),
    'sha256_maj': (4 ** 8, [lambda y: DENSE['maj'](tz(norm(y))), ident]),
    'sha256_ch': (7 ** 8, [lambda y: DENSE['ch'](tz(norm(y))), ident]),
    'sha256_reverse_sparse_base4': (None, [lambda y, c=c: BIN(z3.IntVal(0), z3.IntVal(c), tz(norm(y))) for c in (0, 1)]),
    'sha256_reverse_sparse_base7': (None, [lambda y, c=c: BIN(z3.IntVal(1), z3.IntVal(c), tz(norm(y))) for c in (0, 1)]),
}
PARTS = {'full': None, 'first_column': [0], 'second_column': [1], 'opcodes_only': [0]}
from library_names import NAMES

def vec(ex, st, p):
    A = ex.array(st, ex.load(st, p, 8, 'ptr'))
    if A is None: raise Unsupported('no vector')
    return A, ex.U(st, ex.load(st, PtrV(p.r, norm(tz(p.o) + 8) if not isinstance(p.o, int) else p.o + 8), 8, 64))

def one(ex, st, t):
    r = ex.new_region(st, 'V'); st.mem[r][0] = (BIG, ArrV(8, 1, 'ideal', lambda i: tz(t)))
    return PtrV(r)
def result(ex, st, out, dense, sparse):
    for c, t in enumerate((dense, sparse)):
        ex.store(st, PtrV(out.r, out.o + 16 * c), 8, one(ex, st, t)); ex.store(st, PtrV(out.r, out.o + 16 * c + 8), 8, IntV(1, 64))

def contracts(ex):
    def sizes(ex, st, p):
        A, n = vec(ex, st, p)
        n = norm(n)
        l = [norm(A.val(i)) for i in range(n)] if isinstance(n, int) and n < 5 else None
        if l is None or len(l) != 1 or not isinstance(l[0], int): raise Unsupported('a split into other than one part')
        return l[0]
    def split(ex, st, a):
        """S01: one chunk of all the bits, most significant first"""
        out, bits, sz, base = a
        A, n = vec(ex, st, bits)
        k, b = sizes(ex, st, sz), known(ex, st, base)
        ex.oblige(st, tz(n) >= k, 'split_and_sparse: there are as many bits as the chunk asks for')
        ex.oblige(st, b >= 2, 'split_and_sparse: the base is at least two')
        v = [tz(A.val(i)) for i in range(k)]
        result(ex, st, out, z3.Sum([x * 2 ** (k - 1 - i) for i, x in enumerate(v)]), z3.Sum([x * b ** (k - 1 - i) for i, x in enumerate(v)]))
        return [(st, None)]
    def reverse(kind, need):
        def f(ex, st, a):
            """S02: one chunk of all the digits"""
            out, val, sz, base = a
            k, b = sizes(ex, st, sz), known(ex, st, base)
            v = tz(ideal(ex.load(st, val, 8, 64) if isinstance(val, PtrV) else val))
            ex.oblige(st, z3.And(v >= 0, v < b ** k), 'reversed_sparse_and_split: the number has as many digits as the chunk asks for')
            ex.oblige(st, b == need if need else b >= 2, 'reversed_sparse_and_split: the digits are those the function is for')
            D = DENSE[kind] if k == 8 else z3.Function('DENSE_%s_%d' % (kind, k), I, I)
            result(ex, st, out, D(tz(norm(v))), v)
            return [(st, None)]
        return f
    def load(ex, st, a):
        """T01: the two tables there are"""
        name, out = text(ex, st, a[0]), a[1]
        if name not in BINS: return [(st, False)]
        n = ex.binrows[name]
        cols = []
        for c in (0, 1):
            r = ex.new_region(st, 'V'); st.mem[r][0] = (BIG, GrowV(8, n, 'ideal', lambda i, c=c: BIN(z3.IntVal(BINS[name]), z3.IntVal(c), tz(norm(i)))))
            ex.store(st, PtrV(out.r, out.o + 16 * c), 8, PtrV(r)); ex.store(st, PtrV(out.r, out.o + 16 * c + 8), 8, IntV(n, 64))
        ex.store(st, PtrV(out.r, out.o + 128), 8, IntV(2, 64))
        return [(st, True)]
    for n, f in ex.m.fns.items():
        d = f.dem
        for key, c in (('detail::split_and_sparse<', split), ('detail::reversed_sparse_and_split_maj<', reverse('maj', 4)), ('detail::reversed_sparse_and_split_ch<', reverse('ch', 7)),
                       ('detail::reversed_sparse_and_split<', reverse('par', None)), ('detail::load_lookup_table_from_bin<', load)):
            if key in d.split('(')[0]: ex.contracts[n] = c

def templates(cols):
    def t(ex, f, L, st0, V, iv, backs, info, add, pc0, env, log, outs):
        arrs = [k for k, d in V.items() if d['kind'] == 'array']
        nums = [k for k, d in V.items() if d['kind'] == 'int' and iv[k] is not None] + [k for k, d in V.items() if d['kind'] == 'ideal']
        val = lambda v, k: tz(v[k].t) if V[k]['kind'] == 'ideal' else tz(v[k])
        tops = {x.as_long() for o in outs for c in o[1].pc[pc0:] for x in subterms([c]) if z3.is_int_value(x) and 1 < x.as_long() <= 2 ** 24}
        for k in nums:
            add('low%s' % (k,), 'atom', lambda v, k=k: val(v, k) >= val(iv, k), k)
            for c in tops: add('top%s_%d' % (k, c), 'atom', lambda v, k=k, c=c: val(v, k) <= c, k)
            for k2 in nums:
                if str(k2) < str(k): add('same%s%s' % (k, k2), 'atom', lambda v, k=k, k2=k2: val(v, k) - val(v, k2) == val(iv, k) - val(iv, k2), k, k2)
        for A in arrs:
            for k in nums: add('len%s%s' % (A, k), 'atom', lambda v, A=A, k=k: tz(v[A].n) - val(v, k) == tz(iv[A].n) - val(iv, k), A, k)
            for c, F in enumerate(cols): add('rows%s%d' % (A, c), 'all64', lambda v, y, A=A, F=F: z3.Implies(y < tz(v[A].n), tz(v[A].val(y)) == F(y)), A)
    return t

def ends(ex, V, backs, f, L):
    """a whole number that grows and stays below a bound"""
    import loops
    for k, d in V.items():
        if d['kind'] == 'ideal' and all(ex.p.valid(o[1], z3.And(tz(loops.values_back(ex, f, L, V, o)[k].t) > tz(d['cur'].t), tz(d['cur'].t) < 2 ** 62), 4000)[0] == z3.unsat for o in backs): return True
    return False

def L01(ex, name):
    ex.unsigned64 = False
    ex.unroll_limit = 200 if name.startswith('zkevm') else 40
    table, part = name.split('/')
    rows, cols = TABLES[table]
    ex.binrows = {n: len(meant(n)) for n in BINS} if rows is None else {}
    if rows is None: rows = ex.binrows['8_split_4' if table.endswith('4') else '8_split_7']
    ex.loop_templates = [templates(cols)]
    ex.variants = [ends]
    ex.p.extra.append(bits)
    contracts(ex)
    st = State()
    ex.ctx = '%s: ' % name
    s_ = PtrV(ex.new_region(st, 'A'))
    for i, b in enumerate(name.encode() + b'\0'): ex.store(st, PtrV(s_.r, i), 1, IntV(b, 8))
    out = [PtrV(ex.new_region(st, 'A')) for _ in range(7)]
    for s, _ in ex.call(st, 'vf_table', [s_] + out):
        num = lambda p, o=0: tz(ex.U(s, ex.load(s, PtrV(p.r, o), 8, 64)))
        n = norm(num(out[0], 128))
        ex.oblige(s, tz(n) == len(cols), 'the table has its columns')
        if not same(n, len(cols)): continue
        y = ex.fresh('row', 0, rows - 1, 64, s).t
        s2 = s.fork(); s2.points.append(y)
        for c, F in enumerate(cols):
            A, k = vec(ex, s, PtrV(out[0].r, 16 * c))
            ex.oblige(s, tz(k) == rows, 'the table has its rows')
            ex.oblige(s2, tz(A.val(y)) == F(y), 'column %d of every row is right' % c)
        want = PARTS[part] if PARTS[part] is not None else list(range(len(cols)))
        ex.oblige(s, num(out[2]) == len(want), 'the part has its columns')
        for i, w in enumerate(want): ex.oblige(s, num(out[1], 8 * i) == w, 'the part has the right columns')
        ex.oblige(s, z3.And(num(out[4]) == 0, num(out[5]) == rows - 1), 'the part covers all rows')
        ex.oblige(s, z3.And(num(out[6]) == 1, num(out[3]) == 1), 'nothing else is reserved')

def case_of(prop, o):
    return ['table:' + o.name.split(': ')[0]]
