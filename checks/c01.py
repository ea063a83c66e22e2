"""C01 lifecycle propagation.  Path rule over the call events of the final overriders of the three lifecycle entry points."""
from chainsim import *
LEVEL = 'other'
EXPLANATION = ('For every class derived from the module base (found from the emitted vtables) and each of the lifecycle entry points start/stop/finish, '
               'the final overrider is normalised (all non-virtual calls inlined, memory promoted, loops canonicalised) and every path from entry to return '
               'is enumerated over its control-flow graph with loops summarised; the rule requires exactly one upstream call per upstream neighbour '
               '(the backward module, or every element of the mixer input vector, proven by scalar evolution of the loop) and exactly one own hook call after them. Code whose form the path rule cannot see is followed instead by abstract interpretation '
               'with up to 65 abstract neighbours and every field symbolic, where the recorded calls must be the same.')
ASSUMPTIONS = ['module hooks called virtually do not modify the private link fields of the calling module',
               'the loop/vector size arithmetic does not overflow (module counts fit the integer types used)']
ENTRIES = [('meta_start', 'start'), ('meta_stop', 'stop'), ('meta_finish', 'finish')]

def run(ctx):
    prog = ctx.program([r'meta_(start|stop|finish)\(', '^wit_'])
    slots = base_vt(prog)
    n = 0
    for c in classes(prog):
        for meta, hook in ENTRIES:
            m = mangled_overrider(prog, c, slots, meta)
            if m in (None, '__cxa_pure_virtual'):
                continue
            f = overrider(prog, c, slots, meta)
            n += 1
            ctx.fn(f)
            ok, det, wh = either(judge(prog, c, f, meta, hook), lambda: lifecycle(prog, c, f, slots, meta, hook))
            ctx.ob('propagate', '%s::%s' % (c.name, meta), ok, det, wh)
    ctx.need('lifecycle overriders', n, 140)

def judge(prog, c, f, meta, hook):
    paths = ret_paths(f)
    want = upstream_want(c)
    names = {x for p in ENTRIES for x in p}
    for items, ex in paths:
        st = steps(f, items, names)
        st = merge_params(st, (collections(prog, fn_class(f)).get('params') or (0, 0))[1])
        ups, own = [], 0
        for s in st:
            if s.tgt == 'params':
                continue                          # judged by C07
            if s.tgt == 'partial' and is_param(c) and 'param' in s.detail:
                continue
            if s.tgt == 'partial' or isinstance(s.tgt, tuple):
                return False, s.detail or str(s), s.where()
            if s.tgt == 'self' and s.name == hook and s.nargs == 0:
                own += 1
            elif s.name == meta and s.tgt in ('up', 'inputs'):
                if own:
                    return False, 'upstream %s called after the own %s hook' % (meta, hook), s.where()
                ups.append(s.tgt)
            else:
                return False, 'unexpected lifecycle call %s on %s' % (s.name, s.tgt if s.tgt != 'other' else tstr(s.ev.obj)), s.where()
        wh = f.where(None)
        if ups != want:
            skip = [x for x in items if x.kind == 'cond' and x.t[0] == 'icmp' and I(0) in (x.t[2], x.t[3]) and
                    (x.t[1] == 'eq') == x.v and target_of(f, x.t[2] if x.t[3] == I(0) else x.t[3]) == 'up']
            if not (ups == [] and skip):
                return False, 'upstream neighbours reached on a path: %s, expected %s' % (ups, want), wh
        if own != 1:
            return False, 'own %s hook called %d times on a path' % (hook, own), wh
    return True, '%s: %d paths, one upstream %s per neighbour, then one %s' % (f.dem, len(paths), meta, hook), f.where(None)
