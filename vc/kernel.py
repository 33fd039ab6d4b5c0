"""K01 and K02: the real gate-sharing and satisfiability-checking code, run with polynomials for field elements on circuits
of listed shapes with every value unknown; what it answers on each path is proved to be what the contract says."""
import os, json, time, subprocess, traceback, multiprocessing as mp
import registry
from circuits import Job, poly, cnf, split, negation, solve
import algebra as A

def norm(p):
    k = min(p)
    return tuple(sorted(p.items())) if p[k] > 0 else tuple(sorted((m, -c) for m, c in p.items()))
def contradictory(J, eqs, neqs, clauses):
    """the equations, inequations and clauses have no common solution: case split with propagation, each end refuted"""
    facts = {norm(p): True for p in eqs}
    for p in neqs:
        if facts.get(norm(p)) is True: return 'refuted', set()
        facts[norm(p)] = False
    rest = []
    for c in clauses:
        keep, sat = [], False
        for p, z in c:
            if not p: v = True
            elif set(p) == {()}: v = False
            else: v = facts.get(norm(p))
            if v is None: keep.append((p, z))
            elif v == z: sat = True
        if sat: continue
        if not keep: return 'refuted', set()
        if (len(keep), keep) not in [(len(k), k) for k in rest]: rest.append(keep)
    ans, x = J.refute(eqs, neqs, [])
    if ans == 'refuted' or not rest: return ans, x
    c, primes = min(rest, key=len), set()
    for i, (p, z) in enumerate(c):                         # this literal, and not the ones before it
        before = [(q, not y) for q, y in c[:i]]
        e, n = split(before + [(p, z)])
        ans, x = contradictory(J, eqs + e, neqs + n, [k for k in rest if k is not c])
        if ans != 'refuted': return ans, x
        primes |= x
    return 'refuted', primes
def checker(J, e):
    reached = 0
    for i, p in enumerate(e['paths']):
        ae, an = split([(poly(q), z) for q, z in p['asked']])
        ans, _ = J.refute(ae, an, [])
        if ans == 'refuted': continue                      # no values give these answers
        reached += 1
        free = list(range(len(p['names'])))
        how = (lambda m: '%d/%s' % (e['index'], ','.join(str(m[k]) for k in free)), free)
        promise = cnf(p['promise'])
        if p['yes']:
            for k, c in enumerate(promise):
                q, n = split(negation(c))
                J.prove('case %d: accepted, so demand %d holds' % (i, k), ae + q, an + n, [], how)
        else:
            ans, x = contradictory(J, ae, an, promise)
            d = dict(name='[%s] case %d: refused, so some demand fails' % (J.where, i), status='proved')
            if ans == 'refuted': J.primes |= x
            else:
                d['status'], d['goal'] = 'failed' if ans == 'consistent' else 'unknown', d['name']
                m = solve(x[0], x[1], free) if len(x) > 1 else None
                if m: d['case'], d['model'] = [how[0](m)], str(m)
            J.obls.append(d)
        J.reached['yes' if p['yes'] else 'no'] = True
    for k in ('yes', 'no'): J.reached.setdefault(k, False)

def sharing(J, e):
    for f in e['facts']: J.fact(f['name'], f['ok'], f.get('why', ''), f.get('case'))
    J.reached['facts'] = len(e['facts']) > 0

def run_entry(a):
    prop, e = a
    J = Job(e['gadget'])
    err = None
    try:
        if 'unsupported' in e: err = 'outside the supported fragment: %s' % e['unsupported']
        else: (checker if prop == 'K02' else sharing)(J, e)
    except Exception: err = 'generator error: %s' % traceback.format_exc()[-1500:]
    return dict(job=J.where, err=err, obls=J.obls, reached=J.reached, visited=registry.PROPS[prop]['functions'], cut=[], unrolled=[], assumptions=[], used=[], queries=J.queries, time=J.time, unknown=0, by=J.by, lemmas=0, wall=J.time, primes=sorted(J.primes))

def main(prop):
    import run as R
    P = registry.PROPS[prop]
    t0 = time.time()
    exe, builderr = R.build_oracle(P['oracle'])
    if not exe: return R.verdict(prop, P, t0, 'the functions do not compile with the stand-in field', [], None, builderr, None, '')
    exerr, entries, results = None, [], []
    try:
        c, out = R.oracle(exe, ['dump', prop], 200)
        if c != 0: raise RuntimeError('dump ended with %s: %s' % (c, out[-300:]))
        entries = json.loads(out)
    except Exception as e: exerr = str(e)
    search = subprocess.Popen([exe, 'search', prop, str(R.SEED), R.TIER], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if exerr is None:
        pool = mp.get_context('fork').Pool(min(7, max(1, os.cpu_count() or 1)), maxtasksperchild=1)
        hs = [(e, pool.apply_async(run_entry, ((prop, e),))) for e in entries]
        end = time.time() + (420 if R.TIER == 'quick' else 3000)
        for e, h in hs:
            try: results.append(h.get(max(1, end - time.time())))
            except Exception as x: results.append(dict(job=e['gadget'], err='worker failed: %r' % x, obls=[], reached={}, visited=[], cut=[], unrolled=[], assumptions=[], used=[], queries=0, time=0, unknown=0, by={}, lemmas=0, wall=0, primes=[]))
        pool.terminate()
    try: out, _ = search.communicate(timeout=300 if R.TIER == 'quick' else 3000); code = search.returncode
    except subprocess.TimeoutExpired: search.kill(); out, code = search.communicate()[0] or '', 'timeout'
    primes = sorted({p for r in results for p in r.get('primes', [])})
    P = dict(P)
    P['assumptions'] = list(P.get('assumptions', [])) + (['the prime of the field is none of %s and exceeds every constant of the listed circuits' % primes] if prop == 'K02' else [])
    try: return R.verdict(prop, P, t0, exerr, results, exe, builderr, code, out)
    finally:
        if os.path.exists(exe): os.remove(exe)
