"""H01 The public headers can be included alone, again, in any order and in many units."""
import os
import build
from hdrlib import *
LEVEL = 'other'
EXPLANATION = ('Every public header is given to the compiler front end alone, twice, and with all others in both orders (so every pair meets in both orders; thorough: every ordered pair by itself), in every configuration; the units are then inspected: no header may put a strong definition or a mutable '
               'variable of its own into a unit that includes it, and every class must have one layout whatever the unit was compiled with.')
ASSUMPTIONS = ['clang 18 stands for the compilers of the users of the library']

CONFIGS = {'library': DEFS, 'debug': ['-UNDEBUG', '-DFFTW=1', '-DALSA_F=1'], 'without ALSA': ['-DNDEBUG', '-DFFTW=1'], 'without FFTW': ['-DNDEBUG', '-DALSA_F=1'], 'plain': []}

def run(ctx):
    hs = build.pub_headers()
    ctx.need('public headers', len(hs), 1)
    root = build.REPO + '/include/maec/'
    jobs = []
    for h in hs:
        for c, d in CONFIGS.items():
            jobs.append(('alone', '%s (%s)' % (h, c), includes([h]), d))
        jobs.append(('twice', h, includes([h, h]), DEFS))
        if ctx.tier == 'thorough':
            for g in hs:
                if g != h:
                    jobs.append(('pair', '%s then %s' % (g, h), includes([g, h]), DEFS))
    for c, d in CONFIGS.items():
        jobs.append(('ascending', 'all headers (%s)' % c, includes(hs), d))
        jobs.append(('descending', 'all headers (%s)' % c, includes(hs[::-1]), d))
    errs = pmap(lambda j: syntax(ctx, j[2], j[3]), jobs)
    for (rule, site, _, _), e in zip(jobs, errs):
        ctx.ob(rule, site, e is None, e or 'compiles', where(e) or root + site.split(' ')[0])
    # one definition
    def defs(h):
        try:
            return strong(ir(ctx, unit(ctx, includes([h]))))
        except build.BuildError as e:
            return [str(e)]
    for h, s in zip(hs, pmap(defs, hs)):
        dm = demangle(s)
        ctx.ob('no-strong-definition', h, not s, ('every unit that includes it defines %s' % ', '.join(sorted(dm.values())[:4])) if s else 'no strong definitions', root + h)
    # one state
    try:
        ds = declared(ctx)
    except build.BuildError as e:
        ctx.ob('one-state', 'variables of the headers', False, str(e), where(str(e)))
        return
    n = 0
    for d in ds:
        if d['kind'] == 'var' and d['linkage'] >= 2:
            n += 1
            ctx.ob('one-state', d['name'], not (d['linkage'] == 2 and not d['inl']), 'every unit that includes the header has a variable of its own' if d['linkage'] == 2 and not d['inl'] else 'constant, or shared by the units', d['loc'])
    ctx.need('variables declared by the headers', n, 0)
    # one layout
    src = os.path.join(WIT, 'construct.cpp')
    try:
        a = layouts(ctx, src, DEFS)
        for c, d in CONFIGS.items():
            if '-DALSA_F=1' not in d:
                continue
            for extra in ([], ['-D_DEBUG', '-O2'] if c == 'debug' else []):
                b = layouts(ctx, src, d + extra)
                bad = sorted(k for k in a if k in b and a[k] != b[k])
                ctx.ob('one-layout', '%s %s' % (c, ' '.join(extra)), not bad, ('the layout differs for %s' % ', '.join(bad[:4])) if bad else '%d classes have the same layout' % len(a), src)
        ctx.need('class layouts', len([k for k in a if not k.startswith('std::')]), 30)
    except build.BuildError as e:
        ctx.ob('one-layout', 'classes', False, str(e), where(str(e)))
