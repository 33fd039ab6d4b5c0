#!/usr/bin/env python3
"""Confirms a planted bug in a scratch copy:  seed.py <id>...   (reads seeded/<id>/patch.diff, demo.sh)
or makes one:  seed.py --make <id>   with seeded/<id>/edit.json = {"file":..., "old":..., "new":...} or a list of such
Not used by any check."""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/seedwt'
def sh(c, cwd=None, **k): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def tests():
    r = sh('export CC=gcc CXX=g++; cmake -S /opt/vp/crypto3-free -B %s/_build -G Ninja -DREPO=%s -DCMAKE_BUILD_TYPE= -DCMAKE_CXX_FLAGS="-O1 -g" && ninja -C %s/_build -k 0' % (WT, WT, WT))
    if r.returncode: return False, r.stdout[-2000:]
    r = sh('python3 /opt/vp/run_boost_tests.py %s/_build/blueprint_manifest_test %s/_build/blueprint_detail_huang_lu_test' % (WT, WT))
    return 'fail' not in r.stdout.lower(), r.stdout
def main(ids):
    make = ids[0] == '--make'
    if make: ids = ids[1:]
    for i in ids:
        d = os.path.join(V, 'seeded', i)
        if os.path.exists(WT): shutil.rmtree(WT)
        sh('git -C /repo worktree prune')
        r = sh('mkdir -p %s && git -C /repo archive HEAD | tar x -C %s && git -C %s init -q && git -C %s add -A && git -C %s -c user.name=x -c user.email=x@x commit -qm base' % (WT, WT, WT, WT, WT))
        if make:
            es = json.load(open(d + '/edit.json'))
            for e in es if isinstance(es, list) else [es]:
                p = os.path.join(WT, e['file']); s = open(p, newline='').read()
                if '\r\n' in s: e['old'], e['new'] = e['old'].replace('\n', '\r\n'), e['new'].replace('\n', '\r\n')
                assert s.count(e['old']) == 1, (i, s.count(e['old']), e['old'])
                open(p, 'w', newline='').write(s.replace(e['old'], e['new']))
            open(d + '/patch.diff', 'wb').write(subprocess.run(['git', 'diff'], cwd=WT, stdout=subprocess.PIPE).stdout)
            sh('git checkout -- .', WT)
        demo = lambda: sh('timeout 300 bash %s/demo.sh' % d, WT)
        r0 = demo()
        a = sh('git apply %s/patch.diff' % d, WT)
        b = sh('git -C /repo apply --check %s/patch.diff' % d)
        ok, out = tests()
        r1 = demo()
        good = r0.returncode == 0 and r1.returncode != 0 and ok and a.returncode == 0 and b.returncode == 0
        print(i, 'OK' if good else 'BAD', 'demo clean', r0.returncode, 'demo patched', r1.returncode, 'tests', ok, 'apply', a.returncode, b.returncode)
        if not good: print(r0.stdout[-400:], r1.stdout[-400:], out[-600:], a.stdout, b.stdout)
        shutil.rmtree(WT)
        if make and good and os.path.exists(d + '/edit.json'): os.remove(d + '/edit.json')
main(sys.argv[1:])
