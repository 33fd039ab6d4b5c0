"""Mechanical extraction: /repo source -> LLVM IR (clang, -O0, then scalar promotion only) -> JSON."""
import subprocess, os, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

class ExtractError(Exception): pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode: raise ExtractError(' '.join(cmd[:3]) + ' ... failed:\n' + r.stdout[-3000:])
    return r.stdout

def setup():
    os.makedirs(BUILD, exist_ok=True)
    src, exe = os.path.join(VERIF, 'vc/irdump.cpp'), os.path.join(BUILD, 'irdump')
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src): return
    fl = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).replace('-fno-exceptions', '').split()
    ld = subprocess.check_output(['llvm-config-18', '--ldflags', '--libs', 'core', 'irreader', 'support', 'demangle'], text=True).split()
    tmp = exe + '.%d' % os.getpid()
    sh(['clang++-18', '-O1', '-w'] + fl + [src, '-o', tmp] + ld)
    os.rename(tmp, exe)

def extract(driver, tag=None, flags=(), std=('std',)):
    setup()
    tag = tag or driver
    base = os.path.join(BUILD, 'x_%s.%d' % (tag, os.getpid()))
    src = os.path.join(VERIF, 'vc/drivers/%s.cpp' % driver)
    try:
        sh(['clang++-18', '-std=c++17', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-exceptions', '-w',
            *[x for d in std for x in ('-isystem', os.path.join(VERIF, 'vc', d))], '-I' + os.path.join(VERIF, 'native'), '-I' + os.path.join(REPO, 'include'), *flags, '-S', '-emit-llvm', src, '-o', base + '.ll'])
        sh(['opt-18', '-passes=sroa', '-S', base + '.ll', '-o', base + '.2.ll'])
        out = sh([os.path.join(BUILD, 'irdump'), base + '.2.ll'])
        open(base + '.json', 'w').write(out)
        import ir
        return ir.Module(base + '.json')
    finally:
        for e in ('.ll', '.2.ll', '.json'):
            if os.path.exists(base + e): os.remove(base + e)

if __name__ == '__main__': setup()
