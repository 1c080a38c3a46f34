"""Builds what the checks need from /repo's working tree, outside /repo: the conformance driver (objects cached by the
content of everything that goes into them) and the Java classes that evaluate the real-number operators of the
specification."""
import glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FACTORAMA_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
INC = ['-I' + os.path.join(REPO, 'src'), '-I/usr/include/eigen3']
FLAVOURS = {'std': ['-O1', '-DNDEBUG'], 'asan': ['-O1', '-g1', '-DNDEBUG', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']}

class BuildError(Exception): pass

def digest(*paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]

def headers():
    return sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.hpp'), recursive=True) + glob.glob(os.path.join(REPO, 'src', '**', '*.h'), recursive=True))

def sources(): return sorted(glob.glob(os.path.join(REPO, 'src', 'factorama', '*.cpp')))

def run(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise BuildError('%s\n%s' % (' '.join(cmd), (p.stderr or p.stdout)[-4000:]))

def atomically(cmd, out):
    tmp = '%s.%d.tmp' % (out, os.getpid()); run(cmd + ['-o', tmp]); os.replace(tmp, out)

def objects(srcs, flags, deps, tag):
    """Compile srcs; returns object paths (cached by content)."""
    d = os.path.join(BUILD, 'obj'); os.makedirs(d, exist_ok=True)
    jobs = []
    hd = digest(*deps)
    for s in srcs:
        o = os.path.join(d, '%s-%s-%s.o' % (os.path.basename(s)[:-4], tag, digest(s, extra=hd + ' '.join(flags))))
        jobs.append((s, o))
    def one(j):
        s, o = j
        if not os.path.exists(o): atomically(['g++', '-std=c++17', *flags, *INC, '-c', s], o)
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, jobs))
    return [o for _, o in jobs]

def driver(flavour='std'):
    fl = FLAVOURS[flavour]; hs = headers()
    hsrc = sorted(glob.glob(os.path.join(VERIF, 'harness', '*.cpp'))); hh = glob.glob(os.path.join(VERIF, 'harness', '*.hpp'))
    allj = objects(sources() + hsrc, fl, hs + hh, flavour)
    out = os.path.join(BUILD, 'driver-%s-%s' % (flavour, hashlib.sha256(' '.join(allj).encode()).hexdigest()[:20]))
    if not os.path.exists(out): atomically(['g++', *[f for f in fl if f.startswith('-f')], *allj], out)
    return out

PY = '/usr/bin/python3'
def pymodule():
    """The Python package, built out of tree; returns the directory to put on PYTHONPATH."""
    src = os.path.join(REPO, 'python_bindings', 'python', 'factorama')
    inc = subprocess.run([PY, '-c', "import sysconfig; print(sysconfig.get_paths()['include']); print(sysconfig.get_config_var('EXT_SUFFIX'))"], capture_output=True, text=True).stdout.split()
    fl = ['-O1', '-DNDEBUG', '-fPIC']; hs = headers()
    lib = objects(sources(), fl, hs, 'pic')
    extra = sorted(glob.glob(os.path.join(REPO, 'python_bindings', 'python', '*.hpp')) + glob.glob(os.path.join(src, '*.hpp')))
    ext = objects(sorted(glob.glob(os.path.join(src, '*.cpp'))), ['-O1', '-DNDEBUG', '-fPIC', '-fvisibility=hidden', '-DVERSION_INFO=0', '-I' + inc[0], '-I' + os.path.join(REPO, 'python_bindings', 'python')], hs + extra, 'py')
    pys = sorted(glob.glob(os.path.join(src, '*.py')))
    out = os.path.join(BUILD, 'py-' + digest(*pys, extra=' '.join(lib + ext)))
    if not os.path.isdir(out):
        tmp = '%s.%d.tmp' % (out, os.getpid()); os.makedirs(os.path.join(tmp, 'factorama'))
        for p in pys: shutil.copy(p, os.path.join(tmp, 'factorama'))
        run(['g++', '-shared', *lib, *ext, '-o', os.path.join(tmp, 'factorama', '_factorama' + inc[1])])
        try: os.rename(tmp, out)
        except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return out

def classes():
    src = sorted(glob.glob(os.path.join(VERIF, 'spec', '*.java'))); d = os.path.join(BUILD, 'classes-' + digest(*src))
    if not os.path.isdir(d):
        tmp = '%s.%d.tmp' % (d, os.getpid()); os.makedirs(tmp)
        run(['javac', '-cp', TLA, '-d', tmp, *src])
        try: os.rename(tmp, d)
        except OSError: pass
    return d

def main():
    os.makedirs(BUILD, exist_ok=True)
    for f in sys.argv[1:] or ['std']: print(driver(f))
    print(classes())
    print(pymodule())
if __name__ == '__main__': main()
