#!/usr/local/bin/python3-vt
"""Runs the check of one property:  run.py <property>      (VERIF_TIER, VERIF_SEED)

exit 0: every obligation discharged (or the part out of reach of the prover passed its bounded stand-in)
exit 1: VIOLATION, with a replay file
exit 2: no answer (neither the prover nor the native oracle could work on this tree)"""
import sys, os, json, time, subprocess, signal, traceback, multiprocessing as mp, importlib, resource
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import registry, extract

TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
try: SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError: SEED = 1
REPO = extract.REPO
START = time.time()
JOB_LIMIT = 420 if TIER == 'quick' else 3000

# ---------------------------------------------------------------------------------------------- native oracle
def build_oracle(name):
    o = registry.ORACLES[name]
    os.makedirs(extract.BUILD, exist_ok=True)
    exe = os.path.join(extract.BUILD, '%s.%d' % (name, os.getpid()))
    cmd = ['clang++-18', '-std=c++17', '-O1', '-g0', '-w', *[f if f[:2] != '-I' else '-I' + os.path.join(VERIF, f[2:]) for f in o['flags']], '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(VERIF, 'native'), os.path.join(VERIF, o['src']), '-o', exe]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: return None, r.stdout[-3000:]
    return exe, ''

def constants(m):
    """the numbers written in the code under contract (a dictionary for the native search)"""
    out = set()
    def scan(x):
        if isinstance(x, list):
            if len(x) == 3 and x[0] == 'i' and isinstance(x[2], str):
                v, w = int(x[2]), x[1]
                if w >= 8:
                    for y in (v, (1 << w) - v):
                        for z in (y - 1, y, y + 1):
                            if 1 < z < 2 ** 64: out.add(z)
            else:
                for y in x: scan(y)
        elif isinstance(x, dict):
            for y in x.values(): scan(y)
    for f in m.fns.values():
        if 'nil::' in f.dem or 'huang' in f.dem: scan(f.blocks)
    return sorted(out)[:4000]

def oracle(exe, args, limit):
    def lim(): resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    try:
        r = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit, preexec_fn=lim, errors='replace')
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf8', 'replace') if isinstance(e.stdout, bytes) else (e.stdout or '')

# ---------------------------------------------------------------------------------------------- one job
class JobTimeout(Exception): pass

def run_job(a):
    prop, fn, arg, thorough = a
    P = registry.PROPS[prop]
    import terms, exec as X
    def alarm(*_): raise JobTimeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(max(5, int(min(JOB_LIMIT, START + 1.6 * JOB_LIMIT - time.time()))))
    t0 = time.time()
    p = terms.Prover(cross=thorough)
    ex = X.Executor(MODULES[P['driver']], p)
    S = importlib.import_module(P['spec'])
    err = None
    try:
        getattr(S, fn)(ex, arg) if arg is not None else getattr(S, fn)(ex)
    except terms.Unsupported as e: err = 'outside the supported fragment: %s' % e
    except JobTimeout: err = 'time limit of %d s for one group of obligations' % JOB_LIMIT
    except RecursionError: err = 'recursion too deep'
    except Exception as e: err = 'generator error: %s' % traceback.format_exc()[-1500:]
    signal.alarm(60)
    obls = []
    try:
        for o in ex.obls:
            d = dict(name=o.name, status=o.status)
            if o.status != 'proved':
                d['havoc'] = bool(o.st and o.st.havoc)
                d['goal'] = str(o.goal)[:1500]
                if o.model is not None:
                    d['model'] = str(o.model)[:3000]
                    try: d['case'] = S.case_of(prop, o)
                    except Exception as e: d['case'] = None
            obls.append(d)
    except JobTimeout: pass
    signal.alarm(0)
    return dict(job='%s%s' % (fn, '' if arg is None else arg), err=err, obls=obls, reached=dict(ex.reached), visited=sorted(ex.visited), cut=sorted(ex.loops_cut), unrolled=sorted(ex.loops_unrolled),
                assumptions=sorted(ex.assumptions), used=sorted(ex.used), queries=p.queries, time=p.time, unknown=p.unknown, by=dict(p.by), lemmas=p.nlemmas, wall=time.time() - t0)

MODULES = {}

# ---------------------------------------------------------------------------------------------- known findings
def known_findings(prop):
    out = []
    f = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('open: property=%s ' % prop):
                body = l.split(' ', 2)[2]
                case, _, what = body.partition(' :: ')
                out.append((case.replace('case=', '', 1).strip(), what))
    return out

def main():
    prop = sys.argv[1]
    P = registry.PROPS[prop]
    t0 = time.time()
    thorough = TIER == 'thorough'
    if 'custom' in P:
        return importlib.import_module(P['custom']).main(prop)
    exerr, exe = None, None
    try: MODULES[P['driver']] = extract.extract(P['driver'], flags=P.get('flags', ()), std=P.get('std', ('std',)))
    except extract.ExtractError as e: exerr = str(e)
    except Exception as e: exerr = traceback.format_exc()[-2000:]
    results = []
    njobs = [(prop, fn, arg, thorough) for fn, arg in P['jobs']]
    search = None
    if exerr is None:
        ctx = mp.get_context('fork')
        pool = ctx.Pool(min(8, max(1, os.cpu_count() or 1), len(njobs)), maxtasksperchild=1)
        handles = [pool.apply_async(run_job, (j,)) for j in njobs]
    nat = P.get('oracle')
    exe, builderr = build_oracle(nat) if nat else (None, 'no native oracle')
    code, out = None, ''
    if exerr is None: os.environ['VF_DICT'] = ','.join(map(str, constants(MODULES[P['driver']])))
    if exe: code, out = oracle(exe, ['search', prop, str(SEED), TIER], 300 if TIER == 'quick' else 3000)
    if exerr is None:
        for j, h in zip(njobs, handles):
            try: results.append(h.get(JOB_LIMIT * 2 + 120))
            except Exception as e: results.append(dict(job='%s%s' % (j[1], j[2]), err='worker failed: %r' % e, obls=[], reached={}, visited=[], cut=[], unrolled=[], assumptions=[], used=[], queries=0, time=0, unknown=0, by={}, lemmas=0, wall=0))
        pool.terminate()
    try: return verdict(prop, P, t0, exerr, results, exe, builderr, code, out)
    finally:
        if exe and os.path.exists(exe): os.remove(exe)

def verdict(prop, P, t0, exerr, results, exe, builderr, code, out):
    known = known_findings(prop)
    violations, notes, failures = [], [], []      # failures: (case, reason, obligation)
    tried = nontriv = 0
    for l in out.splitlines():
        if l.startswith('FAIL '):
            body = l[5:].split(' ', 1)[1]
            case, _, reason = body.partition(' :: ')
            failures.append((case.strip(), reason, 'native search'))
        elif l.startswith('TRIED'):
            w = l.split(); tried += int(w[1]); nontriv += int(w[3])
    if exe and code not in (0, 1):
        last = [l for l in out.splitlines() if l.startswith('AT ')]
        if code == 'timeout': notes.append('native search did not finish in time')
        else: failures.append((last[-1][3:].strip() if last else '?', 'the real code stopped abnormally (%s)' % code, 'native search'))
    obls = [o for r in results for o in r['obls']]
    bad = [o for o in obls if o['status'] != 'proved']
    errs = [(r['job'], r['err']) for r in results if r['err']]
    if exerr: errs.append(('extraction', exerr))
    unreached = [c for r in results for c, v in r['reached'].items() if not v]
    if exerr is None and not obls: errs.append(('vacuity', 'no obligation was generated'))
    for c in unreached: errs.append(('vacuity', 'no path of %s was shown reachable' % c))
    # counterexamples of the verifier against the real code
    replayed = 0
    for o in bad:
        if not exe or not o.get('case') or replayed > 60: continue
        replayed += 1
        c, t = oracle(exe, ['replay', prop] + o['case'], 20)
        o['replay'] = 'fails' if c != 0 else 'does not fail'
        if c != 0: failures.append((' '.join(o['case']), (t.strip().splitlines() or ['stopped abnormally (%s)' % c])[0], o['name']))
    unexplained = [o for o in bad if o['status'] == 'failed' and not exe]
    failures.sort(key=lambda f: f[2] == 'native search')      # the verifier's own counterexamples first
    seen = set()
    for case, reason, via in failures:
        hit = [w for k, w in known if k == case]
        if hit:
            if case not in seen: print('KNOWN-FINDING: property=%s %s' % (prop, hit[0]))
            seen.add(case); continue
        violations.append((case, reason, via))
    if not exe and exerr is not None:
        evidence(prop, P, t0, results, obls, bad, errs, tried, nontriv, 0, 'other')
        print('no answer: extraction failed (%s) and the native oracle does not build:\n%s' % (exerr[-600:], builderr[-600:])); return 2
    if violations or unexplained:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        rp = os.path.join(VERIF, 'replay', '%s.json' % prop)
        fo = [dict(obligation=o['name'], status=o['status'], goal=o.get('goal'), counterexample=o.get('model'), case=o.get('case'), replay=o.get('replay')) for o in bad][:20]
        rec = dict(property=prop, failed_obligations=fo, verifier_errors=errs[:5])
        if violations:
            case, reason, via = violations[0]
            rec.update(input=case, what=reason, found_by=via, replay_cmd='python3-vt %s/vc/replay.py %s %s' % (VERIF, prop, case))
            rec['more_inputs'] = [v[0] for v in violations[1:10]]
        json.dump(rec, open(rp, 'w'), indent=1)
        evidence(prop, P, t0, results, obls, bad, errs, tried, nontriv, len(violations) or len(unexplained), P.get('level', 'proof') if results else 'exploration')
        for o in bad[:5]: print('failed obligation: %s (%s)' % (o['name'], o['status']))
        for v in violations[:3]: print('failing input: %s :: %s [%s]' % v)
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if violations else ' no-failing-input-found'))
        return 1
    full = not bad and not errs
    evidence(prop, P, t0, results, obls, bad, errs, tried, nontriv, 0, P.get('level', 'proof') if full else 'exploration')
    print('%s: %d obligations, %d discharged, %d loops cut by invariants, %.1f s of solver time; native cross-check %d cases' % (
        prop, len(obls), len(obls) - len(bad), len({c for r in results for c in r['cut']}), sum(r['time'] for r in results), tried))
    if not full:
        print('BOUNDED: the obligations below are not discharged; the native search (%d cases) stands in for them' % tried)
        for o in bad[:6]: print('  undecided: %s (%s)%s' % (o['name'], o['status'], ' countermodel does not fail on the real code' if o.get('replay') else ''))
        for j, e in errs[:6]: print('  %s: %s' % (j, e.strip().splitlines()[-1][:300] if e.strip() else e))
        if not exe: print('no answer: the native oracle does not build\n' + builderr[-1500:]); return 2
        if code == 'timeout' and not tried: print('no answer: stand-in did not run'); return 2
    return 0

def evidence(prop, P, t0, results, obls, bad, errs, tried, nontriv, nviol, level):
    import builtins_vf, terms
    by = {}
    for r in results:
        for k, v in r['by'].items(): by[k] = by.get(k, 0) + v
    ass = sorted({a for r in results for a in r['assumptions']}) + list(P.get('assumptions', []))
    trusted = ['clang 18 front end and SROA pass (extraction)', 'vc/irdump.cpp, vc/exec.py, vc/loops.py, vc/terms.py (generator of the obligations)', 'z3 5.3.2',
               'stand-in headers vc/std (interface of the standard and Boost containers used)'] + ['contract of %s: %s' % kv for kv in sorted(builtins_vf.TRUSTED.items()) if any(kv[0] in r['used'] for r in results)]
    if 'trusted' in P: trusted = P['trusted']
    groups = {}
    for o in obls:
        g = o['name'].split('] ')[-1]
        g = g.split(' in ')[0]
        d = groups.setdefault(g, [0, 0]); d[0] += 1; d[1] += o['status'] == 'proved'
    cov = dict(obligations=len(obls), discharged=len(obls) - len(bad), checker_cmd='python3-vt %s/vc/run.py %s' % (VERIF, prop), trusted_base=trusted,
               by_backend=by, solver_queries=sum(r['queries'] for r in results), solver_time_s=round(sum(r['time'] for r in results), 2),
               obligation_groups={k: '%d of %d' % (v[1], v[0]) for k, v in sorted(groups.items())},
               functions_under_contract=sorted({f for r in results for f in r['visited']}),
               loops_by_invariant=sorted({f for r in results for f in r['cut']}), loops_fully_unrolled=sorted({f for r in results for f in r['unrolled']}),
               reachability_guards='%d contexts, each shown satisfiable' % sum(sum(r['reached'].values()) for r in results),
               not_discharged=[dict(o=o['name'], status=o['status']) for o in bad][:40], not_analysed=[dict(part=a, why=b[-400:]) for a, b in errs],
               evaluations=tried, distinct_nontrivial=nontriv, rule='native cross-check of the same statement on the compiled code; never counted as proved', samples=[o['name'] for o in obls[:3]])
    if level == 'other': cov['explanation'] = P['note']
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '%s.json.tmp' % prop)
    json.dump(dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=cov, wall_s=round(time.time() - t0, 2), assumptions=ass, violations=nviol), open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', '%s.json' % prop))

if __name__ == '__main__': sys.exit(main())
