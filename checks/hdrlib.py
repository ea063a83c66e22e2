"""Compiler front-end queries shared by the header checks (nothing is executed)."""
import os, re, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import build
WIT = os.path.join(build.HERE, 'wit', 'hdr')
BASE = ['-std=gnu++23', '-I' + build.REPO + '/include/maec', '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi', '-w']
DEFS = ['-DNDEBUG', '-DFFTW=1', '-DALSA_F=1']

def run(args, **k):
    return subprocess.run(args, capture_output=True, text=True, **k)

def first_error(r):
    for l in (r.stderr or '').split('\n'):
        if 'error:' in l:
            return l.strip()[:300]
    return 'the compiler ended with %d' % r.returncode

def where(err):
    m = re.match(r'([^:\s]+:\d+)', err or '')
    return m.group(1) if m else ''

def unit(ctx, text, name='u.cpp'):
    d = tempfile.mkdtemp(dir=ctx.work)
    p = os.path.join(d, name)
    open(p, 'w').write(text)
    return p

def includes(hs):
    return ''.join('#include "%s"\n' % h for h in hs)

def syntax(ctx, text, defs=None):
    r = run([build.CLANG] + BASE + (DEFS if defs is None else defs) + ['-fsyntax-only', unit(ctx, text)])
    return None if r.returncode == 0 else first_error(r)

def pmap(f, xs):
    with ThreadPoolExecutor(max_workers=8) as ex:
        return list(ex.map(f, xs))

WEAK = re.compile(r'\b(linkonce_odr|weak_odr|linkonce|weak|internal|private|available_externally|appending|common)\b')

def fname(l):
    return re.search(r'@("[^"]+"|[^\s(]+)\(', l).group(1).strip('"')

def strong(ll):
    """strong external definitions (functions and variables) of an LLVM module text"""
    out = []
    for l in ll.split('\n'):
        if l.startswith('define '):
            if not WEAK.search(l.split('@')[0]):
                out.append(fname(l))
        elif l.startswith('@') and ' = ' in l:
            nm, rest = l.split(' = ', 1)
            kind = re.split(r'\b(global|constant|alias|ifunc)\b', rest)
            if len(kind) > 1 and not WEAK.search(kind[0]) and 'external' not in kind[0] and 'extern_weak' not in kind[0]:
                out.append(nm[1:].strip('"'))
    return out

def ir(ctx, src, defs=None):
    out = src + '.ll'
    if not src.startswith(ctx.work):
        out = os.path.join(tempfile.mkdtemp(dir=ctx.work), 'o.ll')
    r = run([build.CLANG] + BASE + (DEFS if defs is None else defs) + ['-I' + build.REPO + '/src', '-O0', '-S', '-emit-llvm', src, '-o', out])
    if r.returncode:
        raise build.BuildError(first_error(r))
    t = open(out).read()
    os.unlink(out)
    return t

def undefined(ll):
    """functions and variables a module uses and does not define"""
    out = []
    for l in ll.split('\n'):
        if l.startswith('declare '):
            out.append(fname(l))
        elif l.startswith('@') and re.search(r' = (\S+ )*external ', l):
            out.append(l.split(' = ', 1)[0][1:].strip('"'))
    return [n for n in out if not n.startswith('llvm.')]

def demangle(names):
    names = list(names)
    r = subprocess.run(['c++filt'], input='\n'.join(names) + '\n', capture_output=True, text=True)
    return dict(zip(names, r.stdout.split('\n')))

def layouts(ctx, src, defs):
    r = run([build.CLANG] + BASE + defs + ['-O0', '-S', '-emit-llvm', '-Xclang', '-fdump-record-layouts', src, '-o', '/dev/null'])
    if r.returncode:
        raise build.BuildError(first_error(r))
    out = {}
    for b in r.stdout.split('*** Dumping AST Record Layout')[1:]:
        b = b.split('*** Dumping')[0]
        ls = [re.sub(r'0x[0-9a-f]+', '', l) for l in b.split('\n') if '|' in l]
        m = re.match(r'\s*0 \|\s*(?:class|struct|union) (.*)$', ls[0]) if ls else None
        if m:
            out[re.sub(r' \((empty)\)$', '', m.group(1))] = ls
    return out

def declared(ctx, defs=None):
    """(kind, name, location, manglings, defined, inlined/const, pure, deleted, linkage, access) per declaration of the public headers"""
    src = unit(ctx, includes(build.pub_headers()), 'all.cpp')
    rd = run([build.CLANG, '-print-resource-dir']).stdout.strip()
    r = run([build.tool('hdrdump'), build.REPO + '/include/maec'] + BASE + (DEFS if defs is None else defs) + ['-resource-dir', rd, '-x', 'c++', src])
    if r.returncode:
        raise build.BuildError('the public headers do not parse together: ' + (first_error(r)))
    out = []
    for l in r.stdout.split('\n'):
        c = l.split('\t')
        if len(c) == 10:
            out.append(dict(kind=c[0], name=c[1], loc=c[2], syms=[s for s in c[3].split(',') if s], defined=c[4] == '1', inl=c[5] == '1', pure=c[6] == '1', deleted=c[7] == '1', linkage=int(c[8]), access=int(c[9])))
    return out
