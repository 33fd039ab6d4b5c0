"""Checks of circuit gadgets: the real code, compiled with polynomials for field elements, writes down what its gates and
copy constraints demand and what it fills in on every path; the promises of native/gadgets_c.cpp are then proved from that
for every input, every assignment of the cells and every prime field but finitely many (algebra.py)."""
import os, sys, json, time, subprocess, traceback, random, multiprocessing as mp
import registry, extract, algebra as A
LARGE = 2305843009213693951
LIMIT = 20.0

def poly(j): return {tuple((v, e) for v, e in m): int(c) for c, m in j}
def cnf(j): return [[(poly(p), z) for p, z in c] for c in j]
def split(lits): return [p for p, z in lits if z], [p for p, z in lits if not z]
def negation(clause): return [(p, not z) for p, z in clause]

class Job:
    def __init__(self, where):
        self.where, self.obls, self.reached, self.primes = where, [], {}, set()
        self.cert = self.splits = self.subs = self.queries = 0
        self.time = 0.0
        self.by = {}
    def refute(self, eqs, neqs, alternatives):
        """every way of satisfying the alternatives is contradictory"""
        primes = set()
        for b in A.branches(alternatives):
            e, n = split(b)
            r = A.Refuter(LIMIT)
            t = time.time()
            try: ans, x = r.run(eqs + e, neqs + n)
            except AssertionError as err: ans, x = 'unknown', str(err)
            self.time += time.time() - t; self.queries += 1
            self.cert += r.certificates; self.splits += r.splits; self.subs += r.substitutions
            if ans != 'refuted': return ans, (eqs + e, neqs + n, x)
            k = 'certificate' if r.certificates else 'substitution'
            self.by[k] = self.by.get(k, 0) + 1
            primes |= x
        return 'refuted', primes
    def prove(self, name, eqs, neqs, alternatives, case=None):
        ans, x = self.refute(eqs, neqs, alternatives)
        d = dict(name='[%s] %s' % (self.where, name), status='proved')
        if ans == 'refuted': self.primes |= x
        else:
            d['status'] = 'failed' if ans == 'consistent' else 'unknown'
            d['goal'] = name
            if ans == 'unknown': d['model'] = str(x[2])
            if case:
                m = solve(x[0], x[1], case[1])
                if m: d['case'] = [case[0](m)]; d['model'] = str(m)
                elif ans == 'consistent': d['status'] = 'failed'
        self.obls.append(d)
        return ans == 'refuted'
    def fact(self, name, ok, why='', case=None):
        d = dict(name='[%s] %s' % (self.where, name), status='proved' if ok else 'failed', goal=why)
        if not ok and case: d['case'] = [case]
        self.obls.append(d)
        self.by['structure'] = self.by.get('structure', 0) + 1

def solve(eqs, neqs, free, mod=LARGE, tries=60):
    """values of the unknowns modulo a large prime with eqs zero and neqs nonzero; `free` are the inputs"""
    rnd = random.Random(7)
    us = sorted({v for p in eqs + neqs for v in A.unknowns(p)} | set(free))
    for t in range(tries):
        val, todo, ok = {}, list(eqs), True
        for v in rnd.sample(us, len(us)) if t else us:
            # is the unknown forced by an equation whose other unknowns are known
            for e in todo:
                rest = A.unknowns(e) - set(val)
                if rest == {v}:
                    parts = {}
                    for m, c in e.items():
                        d = dict(m); k = d.pop(v, 0)
                        x = c
                        for w, n in d.items(): x = x * pow(val[w], n, mod) % mod
                        parts[k] = (parts.get(k, 0) + x) % mod
                    parts = {k: x for k, x in parts.items() if x}
                    if set(parts) <= {0, 1} and 1 in parts: val[v] = -parts.get(0, 0) * pow(parts[1], -1, mod) % mod; break
                    roots = [r for r in list(range(0, 9)) + [mod - 1, mod - 2] if sum(x * pow(r, k, mod) for k, x in parts.items()) % mod == 0]
                    if roots: val[v] = rnd.choice(roots); break
            else: val[v] = rnd.choice([0, 1, 2, 3, mod - 1, rnd.randrange(mod), rnd.randrange(mod)])
        if all(A.value(e, val, mod) == 0 for e in eqs) and all(A.value(n, val, mod) for n in neqs): return val
    return None

def run_entry(e):
    J = Job('%s %s place %d' % (e['gadget'], e['config'], e['placement']))
    err = None
    place = '%s/%s/%d' % (e['gadget'], e['config'], e['placement'])
    try:
        if 'unsupported' in e: err = 'outside the supported fragment: %s' % e['unsupported']
        else:
            soundness(J, e['soundness'])
            for part in ('completeness', 'valueonly'):
                for i, p in enumerate(e.get(part, [])): filled(J, p, part, i, place)
            if not any(J.reached.get(k) for k in J.reached if k != 'soundness'): J.reached['some way of filling in'] = False
            J.reached = {k: v for k, v in J.reached.items() if k in ('soundness', 'some way of filling in')}
    except Exception: err = 'generator error: %s' % traceback.format_exc()[-1500:]
    return dict(job=J.where, err=err, obls=J.obls, reached=J.reached, visited=['generate_circuit, generate_gates, generate_copy_constraints, generate_assignments of ' + e['gadget']], cut=[], unrolled=[],
                assumptions=[], used=[], queries=J.queries, time=J.time, unknown=0, by=J.by, lemmas=0, wall=J.time, primes=sorted(J.primes), certificates=J.cert, splits=J.splits, substitutions=J.subs)

def soundness(J, s):
    eqs = [poly(p) for _, p in s['demands']] + [A.add(poly(p), {((k, 1),): 1}, -1) for p, k in s['defs']]
    given = cnf(s['given'])
    ans, _ = J.refute(eqs, [], given)
    J.reached['soundness'] = ans != 'refuted'
    for i, c in enumerate(cnf(s['post'])):
        e, n = split(negation(c))
        J.prove('cells passing every constraint keep promise %d' % i, eqs + e, n, given)
    J.fact('selectors are enabled on rows of the gadget only', not s['flaws'], '; '.join(s['flaws'][:3]))

def filled(J, p, part, i, place):
    what = 'filled-in values' if part == 'completeness' else 'value-only mode'
    ae, an = split([(poly(q), z) for q, z in p['asked']])
    pre = cnf(p['pre'])
    defs = [A.add(poly(q), {((k, 1),): 1}, -1) for q, k in p['defs']]
    invs = [A.add(A.mul(poly(q), {((k, 1),): 1}), {(): 1}, -1) for q, k in p['inverses']]
    inputs = [k for k, n in enumerate(p['names']) if n[0] in 'xk']
    def case(m):
        xs = [str(m[k]) for k, n in enumerate(p['names']) if n[0] == 'x']; ks = [str(m[k]) for k, n in enumerate(p['names']) if n[0] == 'k']
        return 'honest/%s/%s/%s' % (place, ','.join(xs), ','.join(ks))
    how = (case, inputs)
    ans, _ = J.refute(ae + defs, an, pre)
    J.reached['%s %d' % (part, i)] = ans != 'refuted'
    if ans == 'refuted': return                            # no input takes this way
    for k, (q, _) in enumerate(p['inverses']):
        J.prove('%s, case %d: value %d is not zero when it is inverted' % (what, i, k), ae + defs + invs[:k] + [poly(q)], an, pre, how)
    eqs = ae + defs + invs
    for name, z in p['zero']: J.prove('%s, case %d: %s holds' % (what, i, name), eqs, an + [poly(z)], pre, how)
    for k, c in enumerate(cnf(p['post'])):
        e, n = split(negation(c))
        J.prove('%s, case %d: the result keeps promise %d' % (what, i, k), eqs + e, an + n, pre, how)
    if part == 'completeness':
        J.fact('%s, case %d: results agree and only own cells are written' % (what, i), not p['flaws'], '; '.join(p['flaws'][:3]))

def main(prop):
    import run as R
    P = registry.PROPS[prop]
    t0 = time.time()
    exe, builderr = R.build_oracle(P['oracle'])
    if not exe: return R.verdict(prop, P, t0, 'the gadgets do not compile with the stand-in field', [], None, builderr, None, '')
    exerr, entries = None, []
    try:
        c, out = R.oracle(exe, ['dump', prop], 200)
        if c != 0: raise RuntimeError('dump ended with %s: %s' % (c, out[-300:]))
        entries = json.loads(out)
    except Exception as e: exerr = str(e)
    search = subprocess.Popen([exe, 'search', prop, str(R.SEED), R.TIER], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    results = []
    if exerr is None:
        pool = mp.get_context('fork').Pool(min(7, max(1, os.cpu_count() or 1)), maxtasksperchild=1)
        hs = [(e, pool.apply_async(run_entry, (e,))) for e in entries]
        end = time.time() + (420 if R.TIER == 'quick' else 3000)
        for e, h in hs:
            try: results.append(h.get(max(1, end - time.time())))
            except Exception as x: results.append(dict(job=e['gadget'], err='worker failed: %r' % x, obls=[], reached={}, visited=[], cut=[], unrolled=[], assumptions=[], used=[], queries=0, time=0, unknown=0, by={}, lemmas=0, wall=0, primes=[]))
        pool.terminate()
    try: out, _ = search.communicate(timeout=300 if R.TIER == 'quick' else 3000); code = search.returncode
    except subprocess.TimeoutExpired: search.kill(); out, code = search.communicate()[0] or '', 'timeout'
    primes = sorted({p for r in results for p in r.get('primes', [])})
    P = dict(P)
    P['assumptions'] = list(P.get('assumptions', [])) + ['the prime of the field is none of %s and exceeds every constant of the gates' % primes]
    try: return R.verdict(prop, P, t0, exerr, results, exe, builderr, code, out)
    finally:
        if os.path.exists(exe): os.remove(exe)
