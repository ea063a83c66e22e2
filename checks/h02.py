"""H02 Everything the public headers offer is defined once and can be instantiated and constructed."""
import os, glob, subprocess
import build
import hdrlib
from hdrlib import *
LEVEL = 'other'
EXPLANATION = ('The declarations of all public headers are listed from the syntax tree and matched with the definitions in the symbol tables of every library unit: exactly one strong definition, or an inline one. References of the library and of complete '
               'instantiations of every public template must be satisfied by them or by the installed libraries, and witnesses that instantiate the templates and construct the classes must type-check.')
ASSUMPTIONS = ['clang 18 stands for the compilers of the users of the library', 'the installed libstdc++, libm, libc, ALSA, FFTW and MPI libraries export what they are linked with']

def exported():
    out = set()
    for l in ('libstdc++.so', 'libc.so.6', 'libm.so.6', 'libgcc_s.so.1', 'libasound.so', 'libfftw3.so', 'libmpi_cxx.so', 'libmpi.so', 'libpthread.so.0', 'ld-linux-x86-64.so.2'):
        p = hdrlib.run(['g++', '-print-file-name=' + l]).stdout.strip()
        if os.path.isabs(p) and os.path.exists(p):
            for x in hdrlib.run(['nm', '-D', '--defined-only', p]).stdout.split('\n'):
                c = x.split()
                if len(c) >= 3:
                    out.add(c[2].split('@')[0])
    # parts of the C library that are linked statically
    for a in ('libc_nonshared.a',):
        p = hdrlib.run(['g++', '-print-file-name=' + a]).stdout.strip()
        if os.path.isabs(p):
            for x in hdrlib.run(['nm', '--defined-only', p]).stdout.split('\n'):
                c = x.split()
                if len(c) == 3:
                    out.add(c[2])
    return out | {'__dso_handle', '_GLOBAL_OFFSET_TABLE_'}

def attempt_ir(ctx, src, defs=None):
    try:
        return ir(ctx, src, defs)
    except build.BuildError as e:
        return e

def alldefined(ll):
    out = set()
    for l in ll.split('\n'):
        if l.startswith('define '):
            out.add(fname(l))
        elif l.startswith('@') and ' = ' in l and not re.search(r' = (\S+ )*external ', l):
            out.add(l.split(' = ', 1)[0][1:].strip('"'))
    return out

def run(ctx):
    units = build.src_units()
    wits = sorted(glob.glob(WIT + '/*.cpp'))
    lls = dict(zip(units + wits, pmap(lambda u: attempt_ir(ctx, u), units + wits)))
    ctx.units.update(units)
    for w in wits:
        e = lls[w]
        ctx.ob('instantiates', os.path.basename(w), isinstance(e, str), 'type-checks' if isinstance(e, str) else str(e), where(str(e)) if not isinstance(e, str) else w)
        for cfg, d in (('debug', ['-D_DEBUG', '-DFFTW=1', '-DALSA_F=1']),):
            r = syntax(ctx, '#include "%s"\n' % w, d)
            ctx.ob('instantiates', '%s (%s)' % (os.path.basename(w), cfg), r is None, r or 'type-checks', where(r))
    for u in units:
        if not isinstance(lls[u], str):
            ctx.ob('compiles', u, False, str(lls[u]), where(str(lls[u])))
            return
    st = {}
    weak = set()
    for u in units:
        for s in strong(lls[u]):
            st.setdefault(s, []).append(u)
        weak |= alldefined(lls[u])
    ds = declared(ctx)
    ctx.need('declarations of the public headers', len(ds), 250)
    groups = {}
    for d in ds:
        if d['kind'] == 'var' and d['linkage'] == 2 or d['deleted'] or not d['syms']:
            continue
        groups.setdefault((d['name'], d['syms'][0]), []).append(d)
    n = 0
    for (name, sym), g in sorted(groups.items()):
        if any(d['pure'] for d in g) and not any(d['defined'] for d in g) and not any(s in st for d in g for s in d['syms']):
            continue
        if any(d['defined'] for d in g):
            continue        # defined in the header: its linkage is the business of H01
        us = sorted({u for d in g for s in d['syms'] for u in st.get(s, [])})
        if g[0]['inl'] and g[0]['kind'] == 'fn':
            continue        # inline or defaulted; references to it are matched below
        n += 1
        ok = len(us) == 1
        ctx.ob('defined-once', demangle([sym])[sym], ok, 'defined in %s' % os.path.basename(us[0]) if ok else 'no library unit defines it' if not us else 'defined in %s' % ', '.join(us), g[0]['loc'])
    ctx.need('declarations defined by the library units', n, 50)
    dup = {s: us for s, us in st.items() if len(us) > 1}
    ctx.ob('no-duplicate', 'library units', not dup, '; '.join('%s in %s' % (demangle([s])[s], ', '.join(us)) for s, us in list(dup.items())[:3]) or '%d strong definitions, all different' % len(st))
    # references
    ex = exported()
    ok_all = weak | ex
    for u in units + [w for w in wits if isinstance(lls[w], str)]:
        und = [s for s in undefined(lls[u]) if s not in ok_all and s not in alldefined(lls[u])]
        dm = demangle(und)
        und = [s for s in und if not re.match(r'^(__clang_call_terminate|__cxa_|__gxx_|__|_Unwind)', s)]
        ctx.ob('references-resolve', os.path.basename(u), not und, ('no definition of %s' % ', '.join(dm[s] for s in und[:3])) if und else 'every reference has a definition', u)
