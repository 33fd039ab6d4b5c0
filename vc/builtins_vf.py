"""Assumed contracts of the standard library and of compiler intrinsics (the trusted base)."""
import z3
from terms import *

TABLE = {}
TRUSTED = {}
def builtin(*names, doc=''):
    def d(f):
        for n in names:
            TABLE[n] = f
            if doc: TRUSTED[n] = doc
        return f
    return d

def E():
    import exec as X
    return X

# -- sets
def getset(ex, st, p):
    c = st.mem[ex.deref(st, p).r].get(p.o)
    if c is None or not isinstance(c[1], SetV): raise Unsupported('not a set')
    return c[1]
def putset(ex, st, p, s): ex.store(st, p, 8, s)

@builtin('__vf_set_init', doc='std::set: new set is empty')
def _(ex, st, a): putset(ex, st, a[0], EMPTY); return [(st, None)]
@builtin('__vf_set_copy', doc='std::set: copy equals the source')
def _(ex, st, a): putset(ex, st, a[0], getset(ex, st, a[1])); return [(st, None)]
@builtin('__vf_set_insert', doc='std::set::insert adds exactly the given element')
def _(ex, st, a):
    s, v = getset(ex, st, a[0]), tz(ex.U(st, a[1]))
    n = SetV(mem=lambda t: z3.Or(tz(t) == v, s.mem(t)), name='I')
    n.ins = (s, v)
    st.points.append(v)
    putset(ex, st, a[0], n)
    return [(st, z3.Not(s.mem(v)))]
@builtin('__vf_set_erase', doc='std::set::erase removes exactly the given element')
def _(ex, st, a):
    s, v = getset(ex, st, a[0]), tz(ex.U(st, a[1]))
    n = SetV(mem=lambda t: z3.And(tz(t) != v, s.mem(t)), name='E')
    n.era = (s, v)
    st.points.append(v)
    putset(ex, st, a[0], n)
    return [(st, E().IntV(z3.If(s.mem(v), z3.IntVal(1), z3.IntVal(0)), 64, 0, 1))]
@builtin('__vf_set_has', doc='std::set::find/count decide membership')
def _(ex, st, a):
    return [(st, getset(ex, st, a[0]).mem(tz(ex.U(st, a[1]))))]
@builtin('__vf_set_empty', doc='std::set::empty')
def _(ex, st, a):
    s = getset(ex, st, a[0])
    if s is EMPTY: return [(st, True)]
    return [(st, s.lb(0) == END)]
@builtin('__vf_set_size', doc='std::set::size is the number of elements')
def _(ex, st, a):
    s = getset(ex, st, a[0])
    if s is EMPTY: return [(st, E().IntV(0, 64))]
    return [(st, E().IntV(s.card(), 64, 0, U32))]
@builtin('__vf_set_end', doc='std::set::end')
def _(ex, st, a): return [(st, E().IntV(END, 64))]
@builtin('__vf_set_lb', doc='std::set::begin/lower_bound/upper_bound/++: the least element not below the bound')
def _(ex, st, a):
    s, v = getset(ex, st, a[0]), ex.S(st, a[1])
    if s is EMPTY: return [(st, E().IntV(END, 64))]
    return [(st, E().IntV(s.lb(v), 64, 0, END))]
@builtin('__vf_set_ub', doc='std::set::rbegin/--: the greatest element not above the bound')
def _(ex, st, a):
    s, v = getset(ex, st, a[0]), ex.S(st, a[1])
    if s is EMPTY: return [(st, E().IntV(-1, 64))]
    return [(st, E().IntV(s.ub(v), 64, -1, END - 1))]
@builtin('__vf_set_deref', doc='dereferencing a set iterator needs an element under it')
def _(ex, st, a):
    s, v = getset(ex, st, a[0]), ex.S(st, a[1])
    t = tz(v)
    ex.oblige(st, z3.And(t >= 0, t < END, s.mem(t)), 'iterator stands on an element in ' + ex.where(None))
    st.points.append(t)
    return [(st, E().IntV(v, 32, 0, U32 - 1))]
@builtin('__vf_set_equal', doc='std::set::operator==')
def _(ex, st, a):
    s, t = getset(ex, st, a[0]), getset(ex, st, a[1])
    if s is t: return [(st, True)]
    b = ex.fresh_bool('seteq')
    w = ex.fresh('sk', 0, U32 - 1, 32, st).t
    st.foralls.append(lambda x: z3.Implies(b, s.mem(x) == t.mem(x)))
    st.assume(z3.Implies(z3.Not(b), s.mem(w) != t.mem(w)))
    return [(st, b)]
def setop(f, name):
    def g(ex, st, a):
        s, t, o = getset(ex, st, a[0]), getset(ex, st, a[1]), getset(ex, st, a[2])
        n = SetV(mem=lambda x: z3.Or(o.mem(x), f(s.mem(x), t.mem(x))), name=name)
        putset(ex, st, a[2], n)
        return [(st, None)]
    return g
TABLE['__vf_set_difference'] = setop(lambda p, q: z3.And(p, z3.Not(q)), 'DIF')
TABLE['__vf_set_intersection'] = setop(z3.And, 'INT')
TABLE['__vf_set_union'] = setop(z3.Or, 'UNI')
for n in ('difference', 'intersection', 'union'): TRUSTED['__vf_set_' + n] = 'std::set_%s over two whole sets' % n

@builtin('__vf_assert')
def _(ex, st, a):
    ex.oblige(st, ex.as_bool(a[0]), 'assertion holds in ' + ex.where(None))
    return [(st, None)]
@builtin('__vf_assert_not_both')
def _(ex, st, a):
    ex.oblige(st, z3.Not(z3.And(E().bz(ex.as_bool(a[0])), E().bz(ex.as_bool(a[1])))), 'assertion holds in ' + ex.where(None))
    return [(st, None)]
@builtin('__vf_assume')
def _(ex, st, a): st.assume(ex.as_bool(a[0])); return [(st, None)]
@builtin('__vf_unreachable', 'llvm.trap', '__cxa_pure_virtual', 'abort', '_ZSt9terminatev', '__assert_fail')
def _(ex, st, a):
    ex.oblige(st, False, 'no abort in ' + ex.where(None)); return []

@builtin('__vf_extgcd', doc='boost::integer::extended_euclidean: g = gcd(m, n), g = m*x + n*y')
def _(ex, st, a):
    m, n = tz(ex.S(st, a[1])), tz(ex.S(st, a[2]))
    ex.oblige(st, z3.And(m >= 1, n >= 1), 'arguments of the Euclidean algorithm are positive in ' + ex.where(None))
    g = ex.fresh('gcd', 1, 2 ** 31 - 1, 64, st); x = ex.fresh('bx', -2 ** 31, 2 ** 31 - 1, 64, st); y = ex.fresh('by', -2 ** 31, 2 ** 31 - 1, 64, st)
    st.assume(mkD(g.t, m)); st.assume(mkD(g.t, n)); st.assume(g.t == tz(pmul(m, x.t)) + tz(pmul(n, y.t))); st.assume(g.t <= m); st.assume(g.t <= n)
    ex.p.gcds.append((g.t, x.t, y.t, m, n))
    st.ghost['gcd'] = st.ghost.get('gcd', ()) + ((g.t, x.t, y.t, m, n),)
    for i, v in enumerate((g, x, y)): ex.store(st, E().PtrV(a[0].r, a[0].o + 8 * i), 8, v)
    return [(st, None)]

# -- memory and objects
@builtin('_Znwm', doc='operator new returns fresh memory')
def _(ex, st, a): return [(st, E().PtrV(ex.new_region(st, 'H')))]
@builtin('_ZdlPv', '_ZdlPvm', doc='operator delete: lifetimes are not modelled')
def _(ex, st, a): return [(st, None)]
@builtin('llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', doc='memcpy')
def _(ex, st, a):
    n = ex.need(a[2]).t
    if not isinstance(n, int): raise Unsupported('copy of unknown size')
    ex.copy(st, a[0], a[1], n); return [(st, None)]
@builtin('llvm.memset.p0.i64', doc='memset')
def _(ex, st, a):
    n, v = ex.need(a[2]).t, ex.need(a[1]).t
    if not isinstance(n, int) or v != 0: raise Unsupported('memset')
    ex.fill(st, a[0], n); return [(st, None)]
@builtin('llvm.lifetime.start.p0', 'llvm.lifetime.end.p0', 'llvm.experimental.noalias.scope.decl', 'llvm.dbg.declare', 'llvm.dbg.value', 'llvm.dbg.label')
def _(ex, st, a): return [(st, None)]
@builtin('llvm.assume')
def _(ex, st, a):
    ex.oblige(st, ex.as_bool(a[0]), 'compiler assumption holds'); return [(st, None)]

def typeinfo_of(ex, st, obj):
    v = ex.load(st, obj, 8, 'ptr')
    if not (isinstance(v, E().PtrV) and isinstance(v.r, tuple)): raise Unsupported('object without a known dynamic type')
    ti = ex.gload(E().PtrV(v.r, v.o - 8), 8, 'ptr')
    return ti.r[1]
def base_of(ex, ti):
    g = ex.m.globals.get(ti, {})
    for off, sz, v in g.get('init', []):
        if off == 16 and v[0] == 'g': return v[1]
        if off == 16: raise Unsupported('inheritance')
    if any(o > 16 for o, _, _ in g.get('init', [])): raise Unsupported('inheritance')
    return None
@builtin('__dynamic_cast', doc='dynamic_cast follows the class hierarchy recorded in the type information')
def _(ex, st, a):
    X = E()
    if a[0] == X.NULL: return [(st, X.NULL)]
    t = typeinfo_of(ex, st, a[0])
    while t is not None and t != a[2].r[1]: t = base_of(ex, t)
    return [(st, a[0] if t is not None else X.NULL)]
@builtin('~std::type_info::operator==(', doc='type_info equality is identity of types')
def _(ex, st, a): return [(st, a[0] == a[1])]
@builtin('~std::type_info::operator!=(')
def _(ex, st, a): return [(st, not (a[0] == a[1]))]
@builtin('~std::type_info::before(', doc='type_info::before is a strict total order of types')
def _(ex, st, a): return [(st, TORD(a[0]) < TORD(a[1]))]
_tord = {}
def TORD(p):
    k = str(p)
    if k not in _tord: _tord[k] = z3.Int('TORD!%d' % len(_tord))
    return _tord[k]

# -- lists of items and maps of numbers
@builtin('__vf_item_first', doc='std::list<pair>: the first component of an item')
def _(ex, st, a):
    t = TKEY(tz(ex.S(st, a[1])))
    st.assume(z3.And(t >= 0, t < 2 ** 64))
    return [(st, E().IntV(t, 64, 0, 2 ** 64 - 1))]
@builtin('__vf_item_second', doc='std::list<pair>: the second component of an item')
def _(ex, st, a):
    t = W(tz(ex.S(st, a[1])))
    st.assume(z3.And(t >= 0, t < 2 ** 64))
    return [(st, E().IntV(t, 64, 0, 2 ** 64 - 1))]
@builtin('__vf_any_item')
def _(ex, st, a): return [(st, ex.fresh('any', 0, 2 ** 64 - 1, 64, st))]
@builtin('__vf_list_permuted', doc='std::list::sort permutes the list (items are numbered in the order of the sorted list, which is arbitrary)')
def _(ex, st, a):
    if st.havoc: raise Unsupported('list sorted after a loop over items')
    return [(st, None)]
def getmap(ex, st, p):
    c = st.mem[ex.deref(st, p).r].get(p.o)
    if c is None or not isinstance(c[1], MapV): raise Unsupported('not a map')
    return c[1]
@builtin('__vf_map_init', doc='std::unordered_map: new map is empty')
def _(ex, st, a): ex.store(st, a[0], 8, NOMAP); return [(st, None)]
@builtin('__vf_map_copy', doc='std::unordered_map: copy equals the source')
def _(ex, st, a): ex.store(st, a[0], 8, getmap(ex, st, a[1])); return [(st, None)]
@builtin('__vf_map_put', doc='std::unordered_map: assignment changes exactly the given key')
def _(ex, st, a):
    ex.store(st, a[0], 8, getmap(ex, st, a[0]).store(ex.U(st, a[1]), ex.U(st, a[2])))
    ex.log.append(('put', ex.U(st, a[2])))
    return [(st, None)]
@builtin('__vf_map_has', doc='std::unordered_map::count')
def _(ex, st, a): return [(st, getmap(ex, st, a[0]).has(ex.U(st, a[1])))]
@builtin('__vf_map_at', doc='std::unordered_map::at')
def _(ex, st, a):
    m, k = getmap(ex, st, a[0]), ex.U(st, a[1])
    ex.oblige(st, m.has(k), 'the key is present in ' + ex.where(None))
    v = m.val(k); st.assume(z3.And(v >= 0, v < 2 ** 64))
    return [(st, E().IntV(v, 64, 0, 2 ** 64 - 1))]
@builtin('__vf_map_get', doc='std::unordered_map::operator[] inserts zero for a new key')
def _(ex, st, a):
    m, k = getmap(ex, st, a[0]), tz(ex.U(st, a[1]))
    v = z3.If(m.has(k), m.val(k), z3.IntVal(0))
    ex.store(st, a[0], 8, m.store(k, v)); st.assume(z3.And(v >= 0, v < 2 ** 64))
    return [(st, E().IntV(v, 64, 0, 2 ** 64 - 1))]

for _n, _ge in (('max', True), ('min', False)):
    @builtin('~unsigned long const& std::%s<unsigned long>(unsigned long const&, unsigned long const&)' % _n, doc='std::%s of two numbers' % _n)
    def _(ex, st, a, _ge=_ge):
        X = E()
        x, y = ex.U(st, ex.load(st, a[0], 8, 64)), ex.U(st, ex.load(st, a[1], 8, 64))
        if isinstance(x, int) and isinstance(y, int): t = max(x, y) if _ge else min(x, y)
        else: t = z3.If(tz(x) >= tz(y) if _ge else tz(x) <= tz(y), tz(x), tz(y))
        r = ex.new_region(st, 'T')
        ex.store(st, X.PtrV(r), 8, X.IntV(t, 64, 0, 2 ** 64 - 1))
        return [(st, X.PtrV(r))]

# -- abstract multiplication
@builtin('__vf_mon_unit', doc='abstract monoid: the unit is the conversion of 1')
def _(ex, st, a):
    if not same(ex.U(st, a[0]), 1): raise Unsupported('an element of the monoid other than the unit')
    return [(st, MonV(z3.IntVal(0)))]
@builtin('__vf_mon_mul', doc='abstract monoid: the product is associative with a unit (an element generated by one base is known by its length)')
def _(ex, st, a):
    if not isinstance(a[0], MonV) or not isinstance(a[1], MonV): raise Unsupported('product of something else')
    return [(st, MonV(norm(tz(a[0].t) + tz(a[1].t))))]

# -- two-way maps with known contents
def cell(ex, st, p, cls, what):
    c = st.mem.get(ex.deref(st, p).r, {}).get(p.o)
    if c is None or not isinstance(c[1], cls): raise Unsupported('not a ' + what)
    return c[1]
def known(ex, st, v):
    u = ex.U(st, v)
    if not isinstance(u, int): raise Unsupported('a value that is not known')
    return u
@builtin('__vf_bi_init', doc='boost::bimap: new map is empty')
def _(ex, st, a): ex.store(st, a[0], 8, BiV()); return [(st, None)]
@builtin('__vf_bi_copy', doc='boost::bimap: copy equals the source')
def _(ex, st, a): ex.store(st, a[0], 8, cell(ex, st, a[1], BiV, 'bimap')); return [(st, None)]
@builtin('__vf_bi_insert', doc='boost::bimap::insert adds the pair unless its left or right value is present')
def _(ex, st, a):
    m, l, r = cell(ex, st, a[0], BiV, 'bimap'), known(ex, st, a[1]), known(ex, st, a[2])
    if l in m.d[0] or r in m.d[1]: return [(st, False)]
    ex.store(st, a[0], 8, BiV(m.pairs + ((l, r),)))
    return [(st, True)]
@builtin('__vf_bi_has', doc='boost::bimap: find/count decide presence on their side')
def _(ex, st, a):
    m, side, k = cell(ex, st, a[0], BiV, 'bimap'), ex.as_bool(a[1]), ex.U(st, a[2])
    d = m.d[1 if side else 0]
    return [(st, k in d if isinstance(k, int) else z3.Or([tz(k) == x for x in d]))]
@builtin('__vf_bi_other', doc='boost::bimap: the other side of a pair')
def _(ex, st, a):
    m, side, k = cell(ex, st, a[0], BiV, 'bimap'), ex.as_bool(a[1]), ex.U(st, a[2])
    d = m.d[1 if side else 0]
    ex.oblige(st, k in d if isinstance(k, int) else z3.Or([tz(k) == x for x in d]), 'the key is present in ' + ex.where(None))
    if isinstance(k, int): return [(st, E().IntV(d.get(k, 0), 64))]
    t = z3.IntVal(0)
    for x, y in d.items(): t = z3.If(tz(k) == x, z3.IntVal(y), t)
    return [(st, E().IntV(t, 64, 0, 2 ** 64 - 1))]
@builtin('__vf_bi_size', doc='boost::bimap::size')
def _(ex, st, a): return [(st, E().IntV(len(cell(ex, st, a[0], BiV, 'bimap').pairs), 64))]

# -- text
def chars(ex, st, p, n=None):
    out, o = bytearray(), p.o
    while n is None or len(out) < n:
        v = ex.load(st, E().PtrV(p.r, o), 1, 8)
        b = known(ex, st, v)
        if n is None and b == 0: break
        out.append(b); o += 1
    return out.decode('latin1')
def literal(ex, st, p):
    """a C string; whole constants at once"""
    if isinstance(p.r, tuple) and p.r not in st.mem:
        g = ex.m.globals.get(p.r[1])
        if g and g.get('const') and len(g.get('init', [])) == 1 and g['init'][0][2][0] == 'bytes':
            d = bytes.fromhex(g['init'][0][2][1])[p.o:]
            if b'\0' in d: return d[:d.index(b'\0')].decode('latin1')
    return chars(ex, st, p)
def text(ex, st, p): return cell(ex, st, p, StrV, 'text').s
@builtin('__vf_str_empty', doc='std::string: new string is empty')
def _(ex, st, a): ex.store(st, a[0], 8, StrV()); return [(st, None)]
@builtin('__vf_str_lit', doc='std::string from a C string')
def _(ex, st, a): ex.store(st, a[0], 8, StrV(literal(ex, st, a[1]))); return [(st, None)]
@builtin('__vf_str_lit_n', doc='std::string from a number of characters')
def _(ex, st, a): ex.store(st, a[0], 8, StrV(chars(ex, st, a[1], known(ex, st, a[2])))); return [(st, None)]
@builtin('__vf_str_copy', doc='std::string: copy equals the source')
def _(ex, st, a): ex.store(st, a[0], 8, st.mem[ex.deref(st, a[1]).r][a[1].o][1]); return [(st, None)]
@builtin('__vf_str_append', doc='std::string::operator+= and stream output of text append it')
def _(ex, st, a): ex.store(st, a[0], 8, StrV(text(ex, st, a[0]) + text(ex, st, a[1]))); return [(st, None)]
@builtin('__vf_str_push', doc='std::string::push_back and stream output of a character append it')
def _(ex, st, a): ex.store(st, a[0], 8, StrV(text(ex, st, a[0]) + chr(known(ex, st, a[1])))); return [(st, None)]
@builtin('__vf_str_eq', doc='std::string::operator==')
def _(ex, st, a):
    x, y = cell(ex, st, a[0], (StrV, LineV), 'text'), cell(ex, st, a[1], (StrV, LineV), 'text')
    if isinstance(x, LineV) or isinstance(y, LineV):
        t = [TEXT(x.s) if isinstance(x, StrV) else tz(x.t) for x in (x, y)]
        return [(st, z3.simplify(t[0] == t[1]))]
    return [(st, x.s == y.s)]
@builtin('__vf_str_less', doc='std::string::operator<')
def _(ex, st, a): return [(st, text(ex, st, a[0]) < text(ex, st, a[1]))]
@builtin('__vf_str_size', doc='std::string::size')
def _(ex, st, a): return [(st, E().IntV(len(text(ex, st, a[0])), 64))]

@builtin('__vf_str_find', doc='std::string::find')
def _(ex, st, a):
    k = text(ex, st, a[0]).find(text(ex, st, a[1]), known(ex, st, a[2]))
    return [(st, E().IntV(k % 2 ** 64, 64))]
@builtin('__vf_str_sub', doc='std::string::substr')
def _(ex, st, a):
    s, k, n = text(ex, st, a[1]), known(ex, st, a[2]), known(ex, st, a[3])
    ex.oblige(st, k <= len(s), 'the part of a text starts inside it in ' + ex.where(None))
    ex.store(st, a[0], 8, StrV(s[k:k + n])); return [(st, None)]

# -- arrays
def array_of(ex, st, n, elem, init):
    X = E()
    if elem == 16:                      # vectors
        p, k = ex.load(st, init, 8, 'ptr'), ex.U(st, ex.load(st, X.PtrV(init.r, init.o + 8), 8, 64))
        A = None if p == X.NULL else ex.array(st, p)
        if A is None and not same(k, 0): raise Unsupported('vector of vectors')
        r = ex.new_region(st, 'V')
        st.mem[r][0] = (X.BIG, GridV(n, lambda j: tz(k), (lambda j, i: tz(A.val(i))) if A is not None else lambda j, i: z3.IntVal(0)))
        return X.PtrV(r)
    v = ex.load(st, init, elem, 8 * elem)
    w = 'ideal' if isinstance(v, IdealV) else 'bool' if isinstance(v, X.IntV) and elem == 1 else v.w if isinstance(v, X.IntV) else None
    if w is None: raise Unsupported('array of %r' % (v,))
    t = v.t if isinstance(v, IdealV) else ex.U(st, v)
    r = ex.new_region(st, 'V')
    st.mem[r][0] = (X.BIG, ArrV(elem, n, w, lambda i, t=tz(t): t))
    return X.PtrV(r)
@builtin('__vf_arr_new', doc='std::vector of n copies of a value')
def _(ex, st, a): return [(st, array_of(ex, st, ex.U(st, a[0]), known(ex, st, a[1]), a[2]))]
@builtin('__vf_arr_copy', doc='std::vector: copy equals the source and is separate from it')
def _(ex, st, a):
    X = E()
    if a[0] == X.NULL: return [(st, X.NULL)]
    A, G = ex.array(st, a[0]), ex.grid(st, a[0])
    if G is not None and same(a[0].o, 0): A = G
    elif G is not None:
        k, j, i = G.place(a[0].o)
        A = ArrV(8, G.len(j), 'ideal', lambda x: G.val(j, x))
    if A is None: raise Unsupported('copy of something that is no array')
    if isinstance(A, GrowV): A = GrowV(A.elem, A.n, A.wrap, A.val)
    r = ex.new_region(st, 'V'); st.mem[r][0] = (X.BIG, A)
    return [(st, X.PtrV(r))]
@builtin('__vf_arr_resize', doc='std::vector::resize/push_back keep the elements and append copies of a value')
def _(ex, st, a):
    X = E()
    p, old, n, elem = ex.load(st, a[0], 8, 'ptr'), ex.U(st, a[1]), ex.U(st, a[2]), known(ex, st, a[3])
    G = ex.grid(st, p) if p is not X.UNDEF else None
    if G is not None and not same(p.o, 0):       # one column of a vector of vectors
        k, j, i = G.place(p.o)
        v = ex.load(st, a[4], elem, 8 * elem)
        st.mem[p.r][0] = (X.BIG, G.with_column(j, lambda x: z3.If(tz(x) < tz(old), tz(G.val(j, x)), tz(ideal(v)))))
        return [(st, None)]
    q = array_of(ex, st, n, elem, a[4])
    if G is not None:
        H = ex.grid(st, q)
        st.mem[q.r][0] = (X.BIG, GridV(n, lambda j: z3.If(tz(j) < tz(old), tz(G.len(j)), tz(H.len(j))), lambda j, i: z3.If(tz(j) < tz(old), tz(G.val(j, i)), tz(H.val(j, i)))))
    elif p is not X.UNDEF and p != X.NULL:
        A, B = ex.array(st, p), ex.array(st, q)
        if A is None: raise Unsupported('resize of something that is no array')
        st.mem[q.r][0] = (X.BIG, ArrV(elem, n, A.wrap, lambda i: z3.If(tz(i) < tz(old), tz(A.val(i)), tz(B.val(i)))))
    ex.store(st, a[0], 8, q)
    return [(st, None)]

@builtin('__vf_arr_open', doc='std::vector: a new vector is empty')
def _(ex, st, a):
    X = E()
    v, elem = ex.load(st, a[1], known(ex, st, a[0]), 8 * known(ex, st, a[0])), known(ex, st, a[0])
    r = ex.new_region(st, 'V')
    st.mem[r][0] = (X.BIG, GrowV(elem, 0, 'ideal' if isinstance(v, IdealV) else 'bool' if elem == 1 else v.w, lambda i: z3.IntVal(0)))
    return [(st, X.PtrV(r))]
@builtin('__vf_arr_sized', doc='std::vector::resize keeps the elements and appends copies of a value')
def _(ex, st, a):
    X = E()
    A, old, n, elem = ex.array(st, a[0]), ex.U(st, a[1]), ex.U(st, a[2]), known(ex, st, a[3])
    if A is None: raise Unsupported('resize of something that is no vector')
    v = ex.load(st, a[4], elem, 8 * elem)
    t = tz(ideal(v) if A.wrap == 'ideal' else ex.U(st, v))
    st.mem[a[0].r][0] = (X.BIG, GrowV(elem, n, A.wrap, lambda i, A=A: z3.If(tz(i) < tz(old), tz(A.val(i)), t)))
    return [(st, None)]
@builtin('__vf_arr_append', doc='std::vector::push_back keeps the elements and appends a copy of a value')
def _(ex, st, a):
    X = E()
    A, elem = ex.array(st, a[0]), known(ex, st, a[1])
    if not isinstance(A, GrowV): raise Unsupported('appending to something that is no vector')
    v = ex.load(st, a[2], elem, 8 * elem)
    t = tz(ideal(v) if A.wrap == 'ideal' else ex.U(st, v))
    st.mem[a[0].r][0] = (X.BIG, A.append(t))
    return [(st, None)]

# -- whole numbers without bound
def ideal(v):
    X = E()
    if isinstance(v, X.IntV) and isinstance(v.t, int):         # a value computed by the compiler: a small number or a power of two
        u = v.t % 2 ** 64
        return u if u < 2 ** 62 else 2 ** (u - 2 ** 63)
    if not isinstance(v, IdealV): raise Unsupported('whole number expected, got %r' % (v,))
    return v.t
@builtin('__vf_int_of', doc='whole numbers: conversion from a signed machine number')
def _(ex, st, a): return [(st, IdealV(ex.S(st, a[0])))]
@builtin('__vf_int_ofu', doc='whole numbers: conversion from an unsigned machine number')
def _(ex, st, a): return [(st, IdealV(ex.U(st, a[0])))]
@builtin('__vf_int_add', doc='whole numbers: addition')
def _(ex, st, a): return [(st, IdealV(norm(tz(ideal(a[0])) + tz(ideal(a[1])))))]
@builtin('__vf_int_sub', doc='whole numbers: subtraction')
def _(ex, st, a): return [(st, IdealV(norm(tz(ideal(a[0])) - tz(ideal(a[1])))))]
def times(x, y):
    x, y = norm(x), norm(y)
    if isinstance(x, int) or isinstance(y, int): return norm(tz(x) * tz(y))
    return TIMES(x, y)
@builtin('__vf_int_mul', doc='whole numbers: multiplication')
def _(ex, st, a): return [(st, IdealV(times(ideal(a[0]), ideal(a[1]))))]
def nonneg_div(ex, st, a):
    x, y = norm(ideal(a[0])), norm(ideal(a[1]))
    ex.oblige(st, tz(y) > 0, 'divisor is positive in ' + ex.where(None)); ex.oblige(st, tz(x) >= 0, 'dividend is not negative in ' + ex.where(None))
    return x, y
@builtin('__vf_int_div', doc='whole numbers: quotient (with divide_qr)')
def _(ex, st, a):
    x, y = nonneg_div(ex, st, a)
    return [(st, IdealV(tz(x) / y if isinstance(y, int) else IDIV(tz(x), tz(y))))]
@builtin('__vf_int_mod', doc='whole numbers: remainder (with divide_qr)')
def _(ex, st, a):
    x, y = nonneg_div(ex, st, a)
    return [(st, IdealV(tz(x) % y if isinstance(y, int) else IMOD(tz(x), tz(y))))]
@builtin('__vf_int_and', doc='whole numbers: bitwise and with a mask of low bits is the remainder')
def _(ex, st, a):
    x, y = norm(ideal(a[0])), norm(ideal(a[1]))
    if not isinstance(y, int): x, y = y, x
    if not isinstance(y, int) or y < 0 or y & (y + 1): raise Unsupported('bitwise and')
    ex.oblige(st, tz(x) >= 0, 'operand of bitwise and is not negative in ' + ex.where(None))
    return [(st, IdealV(tz(x) % (y + 1)))]
BIT = z3.Function('BIT', I, I, I)
@builtin('__vf_int_bit', doc='whole numbers: bit_test tells a binary digit of a number that is not negative')
def _(ex, st, a):
    x, k = norm(ideal(a[0])), known(ex, st, a[1])
    ex.oblige(st, tz(x) >= 0, 'operand of the bit test is not negative in ' + ex.where(None))
    return [(st, bool(x >> k & 1) if isinstance(x, int) else BIT(x, z3.IntVal(k)) == 1)]
@builtin('__vf_int_shl', doc='whole numbers: shift left')
def _(ex, st, a): return [(st, IdealV(norm(tz(ideal(a[0])) * (1 << known(ex, st, a[1])))))]
@builtin('__vf_int_shr', doc='whole numbers: shift right')
def _(ex, st, a):
    ex.oblige(st, tz(ideal(a[0])) >= 0, 'operand of the shift is not negative in ' + ex.where(None))
    return [(st, IdealV(tz(ideal(a[0])) / (1 << known(ex, st, a[1]))))]
def bounds(ex, t):
    """numbers between which the value of the term lies, where that is plain from its form"""
    t = norm(t)
    if isinstance(t, int): return t, t
    if t.get_id() in getattr(ex, 'word_bounds', {}): return ex.word_bounds[t.get_id()]
    k, c = t.decl().kind(), t.children()
    if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(c[1]) and c[1].as_long() > 0:
        b, m = bounds(ex, c[0]), c[1].as_long()
        if k == z3.Z3_OP_MOD: return (0, m - 1 if not b or b[0] < 0 else min(m - 1, b[1]))
        return b and (b[0] // m, b[1] // m)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
        bs = [bounds(ex, x) for x in c]
        if all(b and b[0] >= 0 for b in bs):
            lo, hi = bs[0]
            for b in bs[1:]: lo, hi = (lo + b[0], hi + b[1]) if k == z3.Z3_OP_ADD else (lo * b[0], hi * b[1])
            return lo, hi
@builtin('__vf_int_cut', doc='whole numbers with a modulus: the remainder by it')
def _(ex, st, a):
    x, m = norm(ideal(a[0])), norm(ideal(a[1]))
    if not isinstance(m, int) or m <= 0: raise Unsupported('a modulus that is not known')
    b = bounds(ex, x)
    if b and b[0] >= 0 and b[1] < m: return [(st, IdealV(x))]
    return [(st, IdealV(tz(x) % m))]
@builtin('__vf_int_lt', doc='whole numbers: order')
def _(ex, st, a): return [(st, z3.simplify(tz(ideal(a[0])) < tz(ideal(a[1]))))]
@builtin('__vf_int_eq', doc='whole numbers: equality')
def _(ex, st, a): return [(st, z3.simplify(tz(ideal(a[0])) == tz(ideal(a[1]))))]
@builtin('__vf_int_get', doc='whole numbers: conversion of a number that fits to a machine number')
def _(ex, st, a):
    t = tz(ideal(a[0]))
    ex.oblige(st, z3.And(t >= 0, t < 2 ** 64), 'the number converted fits in ' + ex.where(None))
    return [(st, E().IntV(ideal(a[0]), 64, 0, 2 ** 64 - 1))]
@builtin('__vf_int_pow', doc='field: power of a small base, where the result is below the modulus')
def _(ex, st, a):
    b, k = tz(ex.U(st, a[0])), tz(ex.U(st, a[1]))
    if getattr(ex, 'pow_limit', None) is not None: ex.oblige(st, ex.pow_limit(b, k), 'the power asked for fits the field in ' + ex.where(None))
    return [(st, IdealV(POW(b, k)))]

# -- maps from pairs
def getpm(ex, st, p): return cell(ex, st, p, PairMapV, 'map')
@builtin('__vf_pm_init', doc='std::map: new map is empty')
def _(ex, st, a): ex.store(st, a[0], 8, NOPAIRS); return [(st, None)]
@builtin('__vf_pm_has', doc='std::map::find/count decide presence')
def _(ex, st, a): return [(st, z3.simplify(getpm(ex, st, a[0]).has(ex.U(st, a[1]), ex.U(st, a[2]))))]
@builtin('__vf_pm_get', doc='std::map: lookup of a key that is present')
def _(ex, st, a):
    m, x, y = getpm(ex, st, a[0]), ex.U(st, a[1]), ex.U(st, a[2])
    ex.oblige(st, m.has(x, y), 'the key is present in ' + ex.where(None))
    return [(st, IdealV(m.val(x, y)))]
@builtin('__vf_pm_put', doc='std::map: assignment changes exactly the given key')
def _(ex, st, a): ex.store(st, a[0], 8, getpm(ex, st, a[0]).put(ex.U(st, a[1]), ex.U(st, a[2]), ideal(a[3]))); return [(st, None)]

# -- texts as lines, files
def LINES(x): return z3.Function('LINES', I, I)(tz(x))                # lines of a text
def OPENEND(x): return z3.Function('OPENEND', I, z3.BoolSort())(tz(x))   # the last line has no newline
def LINE(x, i): return z3.Function('LINE', I, I, I)(tz(x), tz(norm(i)))
def NUMBER(x): return z3.Function('NUMBER', I, I)(tz(x))              # the number a line starts with
def READS(l, n): return z3.Function('READS', I, I, z3.BoolSort())(tz(l), tz(n))    # n hexadecimal numbers can be read from the line
def WORD(l, j): return z3.Function('WORD', I, I, I)(tz(l), tz(norm(j)))            # the j-th of them
def FILE(p): return z3.Function('FILE', I, I)(tz(p))
def OPENS(x): return z3.Function('OPENS', I, z3.BoolSort())(tz(x))
_texts = {}
def TEXT(s): return z3.IntVal(-1 - _texts.setdefault(s, len(_texts)))        # texts that are known have negative numbers
def known_text(t):
    for s, k in _texts.items():
        if same(t, -1 - k): return s
@builtin('__vf_text_of', doc='std::stringstream reads the text it is given')
def _(ex, st, a):
    x = cell(ex, st, a[0], (StrV, LineV), 'text')
    return [(st, E().IntV(TEXT(x.s) if isinstance(x, StrV) else x.t, 64, -2 ** 63, 2 ** 63 - 1))]
@builtin('__vf_file_of', doc='std::ifstream reads the file at the path it is given')
def _(ex, st, a):
    x = cell(ex, st, a[0], (StrV, LineV), 'text')
    return [(st, E().IntV(FILE(TEXT(x.s) if isinstance(x, StrV) else x.t), 64, -2 ** 63, 2 ** 63 - 1))]
@builtin('__vf_file_opens', doc='std::ifstream::is_open')
def _(ex, st, a): return [(st, OPENS(ex.S(st, a[0])))]
@builtin('__vf_text_lines', doc='std::getline takes the lines of the text in order')
def _(ex, st, a):
    n = LINES(ex.S(st, a[0])); st.assume(z3.And(n >= 0, n < 2 ** 62))
    return [(st, E().IntV(n, 64, 0, 2 ** 62))]
@builtin('__vf_text_open', doc='std::getline sets the end mark when the last line has no newline, and then leaves the string alone')
def _(ex, st, a): return [(st, OPENEND(ex.S(st, a[0])))]
@builtin('__vf_text_line', doc='std::getline takes the lines of the text in order')
def _(ex, st, a): ex.store(st, a[0], 8, LineV(LINE(ex.S(st, a[1]), ex.U(st, a[2])))); return [(st, None)]
@builtin('__vf_str_number', doc='std::stoull of a line that starts with a number')
def _(ex, st, a):
    x = cell(ex, st, a[0], LineV, 'line')
    n = NUMBER(x.t); st.assume(z3.And(n >= 0, n < 2 ** 59))
    ex.assumptions.add('a table has fewer than 2^59 rows and columns')
    return [(st, E().IntV(n, 64, 0, 2 ** 59))]
@builtin('__vf_str_rank', doc='std::set of texts: elements in order')
def _(ex, st, a): ex.store(st, a[0], 8, LineV(ex.S(st, a[1]))); return [(st, None)]
@builtin('__vf_row_parse', doc='Boost.Spirit phrase_parse with repeat(n)[uint_parser]: succeeds exactly when n numbers of at most that many digits can be read from the start of the line, and appends them')
def _(ex, st, a):
    X = E()
    x = cell(ex, st, a[0], (StrV, LineV), 'line')
    count, radix, mn, mx = ex.U(st, a[1]), known(ex, st, a[2]), known(ex, st, a[3]), ex.const_s(a[4])
    t = TEXT(x.s) if isinstance(x, StrV) else x.t
    ex.oblige(st, radix == 16 and mn == 1, 'numbers are read in base sixteen in ' + ex.where(None))
    ex.oblige(st, mx < 0 or 4 * mx >= ex.field_bits, 'every number of the field can be read in ' + ex.where(None))
    if same(count, ex.line_size): pass
    else: ex.oblige(st, tz(count) == tz(ex.line_size), 'as many numbers are read as there are columns in ' + ex.where(None))
    ok, s2 = READS(t, ex.line_size), st.fork()
    p, n = ex.load(st, a[5], 8, 'ptr'), ex.U(st, ex.load(st, X.PtrV(a[5].r, a[5].o + 8), 8, 64))
    if p != X.NULL and not same(n, 0): raise Unsupported('numbers are appended to a row')
    r = ex.new_region(st, 'V'); st.mem[r][0] = (X.BIG, ArrV(8, count, 'ideal', lambda j: WORD(t, j)))
    st.assume(ok); ex.store(st, a[5], 8, X.PtrV(r)); ex.store(st, X.PtrV(a[5].r, a[5].o + 8), 8, X.IntV(count, 64, 0, 2 ** 64 - 1))
    k = ex.fresh('read', 0, 2 ** 59, 64, s2)
    r = ex.new_region(s2, 'V'); s2.mem[r][0] = (X.BIG, ArrV(8, k.t, 'ideal'))
    s2.assume(z3.Not(ok)); ex.store(s2, a[5], 8, X.PtrV(r)); ex.store(s2, X.PtrV(a[5].r, a[5].o + 8), 8, k)
    return [(st, True), (s2, False)]
