"""Compile the analysed program (all of /repo/src plus instantiation TUs) to LLVM bitcode. Nothing is executed."""
import os, subprocess, sys, glob, hashlib, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MAEC_REPO', '/repo')
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
INC = ['-I' + REPO + '/include/maec', '-I' + REPO + '/src', '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
BASE = ['-std=gnu++23', '-DNDEBUG', '-DFFTW=1', '-DALSA_F=1'] + INC
IRFLAGS = ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-fno-access-control', '-g', '-fstandalone-debug',
           '-flto=full', '-fwhole-program-vtables', '-fvisibility=hidden', '-w', '-fno-discard-value-names', '-ffp-contract=off']

class BuildError(Exception):
    pass

def cache_dir():
    d = os.environ.get('MAEC_CACHE') or os.path.join(tempfile.gettempdir(), 'maec-verif-%d' % os.getuid())
    os.makedirs(d, exist_ok=True)
    return d

def tool(name='mirdump'):
    """Build (once) a dumper; keyed by the hash of its source."""
    src = os.path.join(HERE, name + '.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    for d in (os.path.join(HERE, 'bin'), cache_dir()):
        p = os.path.join(d, name + '-' + h)
        if os.path.exists(p):
            return p
    d = os.path.join(HERE, 'bin')
    try:
        os.makedirs(d, exist_ok=True)
        t = os.path.join(d, '.w%d' % os.getpid()); open(t, 'w').close(); os.unlink(t)
    except OSError:
        d = cache_dir()
    p = os.path.join(d, name + '-' + h)
    tmp = p + '.%d' % os.getpid()
    how = {'mirdump': ['-O2', '-fno-rtti', '-lLLVM-18'], 'hdrdump': ['-O1', '-lclang-18']}[name]
    r = subprocess.run(['g++', '-std=c++17', '-I/usr/lib/llvm-18/include', src, '-o', tmp, '-L/usr/lib/llvm-18/lib'] + how, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('cannot build %s:\n' % name + r.stderr[:2000])
    os.rename(tmp, p)
    return p

def pub_headers():
    root = REPO + '/include/maec'
    return sorted(os.path.relpath(f, root) for e in ('hpp', 'h') for f in glob.glob(root + '/**/*.' + e, recursive=True))

def compile_one(src, out, extra=()):
    cmd = [CLANG] + BASE + IRFLAGS + list(extra) + ['-c', src, '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('%s does not compile:\n%s' % (src, r.stderr[:3000]))
    return out

def compile_program(workdir, units, extra=()):
    """units: list of source paths.  Returns list of bitcode files."""
    outs = []
    with ThreadPoolExecutor(max_workers=8) as ex:
        futs = []
        for i, s in enumerate(units):
            o = os.path.join(workdir, '%02d-%s.bc' % (i, os.path.basename(s)))
            futs.append(ex.submit(compile_one, s, o, extra))
        for f in futs:
            outs.append(f.result())
    return outs

def src_units():
    return sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))
