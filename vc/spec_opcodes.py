"""Contracts of the opcode tables (Z01, Z02)."""
import os, re
import z3
from terms import *
from exec import *
import extract

def table():
    """the EVM instruction table (native/evm_opcodes.inc)"""
    t = open(os.path.join(extract.VERIF, 'native/evm_opcodes.inc')).read()
    return [(n, int(b, 16)) for n, b in re.findall(r'^EVM\((\w+), (0x[0-9a-f]+)\)', t, re.M)]

def num(ex, st, v):
    u = ex.U(st, v)
    if not isinstance(u, int): raise Unsupported('result is not known')
    return u

def start(ex):
    ex.initial_globals = True
    st = State()
    codes = {}
    for n, b in table():
        (st, v), = ex.call(st, 'vf_enum_' + n, [])
        codes[n] = num(ex, st, v)
    return st, codes

def Z01(ex):
    st0, codes = start(ex)
    for n, b in table():
        ex.ctx = '[%s] ' % n
        for s, v in ex.call(st0.fork(), 'vf_value', [IntV(codes[n], 32)]):
            ex.oblige(s, tz(ex.U(s, v)) == b, 'the opcode has the byte of the EVM specification')
        for s, v in ex.call(st0.fork(), 'vf_from_value', [IntV(b, 64)]):
            ex.oblige(s, tz(ex.U(s, v)) == codes[n], 'the byte leads back to the opcode')
    ex.ctx = '[all] '
    for s, v in ex.call(st0.fork(), 'vf_amount', []):
        ex.oblige(s, tz(ex.U(s, v)) == len(codes), 'the number reported is the number of opcodes that can be looked up')
    ex.oblige(st0, len(set(codes.values())) == len(codes), 'different opcodes are different values')
    # the same for an arbitrary opcode, with the table built before: lookups do not change the answer of later lookups
    (s1, _), = ex.call(st0.fork(), 'vf_amount', [])
    o = ex.fresh('opcode', 0, 2 ** 32 - 1, 32, s1)
    s1.assume(z3.Or([o.t == c for c in codes.values()]))
    ex.ctx = '[any] '
    for s, v in ex.call(s1, 'vf_value', [o]):
        b = ex.U(s, v)
        ex.oblige(s, z3.And([z3.Implies(o.t == codes[n], tz(b) == k) for n, k in table()]), 'an arbitrary opcode has the byte of the EVM specification')
        for s2, v2 in ex.call(s, 'vf_from_value', [IntV(b, 64, 0, 2 ** 64 - 1)]):
            ex.oblige(s2, tz(ex.U(s2, v2)) == o.t, 'from an opcode to its byte and back is the identity')

def out_text(ex, s, p):
    c = s.mem[p.r].get(0)
    if c is None or not isinstance(c[1], StrV): raise Unsupported('no text')
    return c[1].s

def Z02(ex):
    st0, codes = start(ex)
    seen = {}
    for n, b in table():
        ex.ctx = '[%s] ' % n
        got = {}
        for f in ('vf_string', 'vf_stream'):
            s = st0.fork(); p = PtrV(ex.new_region(s, 'A')); ex.store(s, p, 8, StrV('' if f == 'vf_string' else '>'))
            for s, _ in ex.call(s, f, [IntV(codes[n], 32), p]):
                t = out_text(ex, s, p)
                if f == 'vf_stream':
                    ex.oblige(s, t[:1] == '>', 'what the stream held before stays')
                    t = t[1:]
                ex.oblige(s, t == n, 'the text is the mnemonic (%s)' % f[3:])
                got.setdefault(f, []).append(t)
        ex.oblige(st0, got.get('vf_string') == got.get('vf_stream') and len(got.get('vf_string', [])) == 1, 'string conversion and stream output agree')
        for t in got.get('vf_string', []):
            ex.oblige(st0, seen.get(t, n) == n, 'no other opcode prints the same')
            seen[t] = n
    ex.ctx = '[no opcode] '
    for f in ('vf_string', 'vf_stream'):
        s = st0.fork(); p = PtrV(ex.new_region(s, 'A')); ex.store(s, p, 8, StrV('' if f == 'vf_string' else '>'))
        o = ex.fresh('value', 0, 2 ** 32 - 1, 32, s)
        s.assume(z3.And([o.t != c for c in codes.values()]))
        ex.reach(s)
        for s, _ in ex.call(s, f, [o, p]):
            t = out_text(ex, s, p)
            if f == 'vf_string': ex.oblige(s, t == 'unknown', 'a value that is no opcode is printed as unknown')
            else: ex.oblige(s, not any(n in t for n, _ in table()) and t[:1] == '>', 'a value that is no opcode prints no mnemonic')

def case_of(prop, o):
    n = o.name[1:].split(']')[0]
    if n not in ('all', 'any', 'no opcode'): return [n]
    for d in o.model.decls() if o.model is not None else []:
        if d.name().startswith(('value!', 'opcode!')): return [str(o.model[d].as_long())]
