"""Shared facts about the module-chain classes, resolved from vtables, debug-info layouts and accessor bodies."""
import re
from ir import *

BM = '_ZTS10BaseModule'

def base_vt(prog):
    """method signature -> slot index, from the vtables of all BaseModule descendants"""
    slots = {}
    for n, v in prog.vt.items():
        for off, ts in v['types']:
            if ts != BM:
                continue
            flat = [x for p in v['parts'] for x in p]
            for k in range(0, 17):
                i = off // 8 + k
                if i < len(flat) and flat[i] and flat[i] not in ('#', '__cxa_pure_virtual') and flat[i].startswith('_Z'):
                    f = prog.inventory.get(flat[i])
                    d = f['dem'] if f else demangle(flat[i])
                    d = re.sub(r'^(virtual thunk to |non-virtual thunk to )', '', d)
                    nm = short_name(d)
                    if nm.startswith('~'):
                        continue
                    arity = 0 if d.rstrip(' const').endswith('()') else 1
                    slots.setdefault((nm, arity), k)
    return slots

class Cls:
    def __init__(self, prog, vt, off):
        self.prog, self.vt, self.off = prog, vt, off
        v = prog.vt[vt]
        self.flat = [x for p in v['parts'] for x in p]
        self.name = v['cls'].replace('vtable for ', '')
        self.types = [t for _, t in v['types']]
    def bases(self):
        """class names (demangled) this class derives from, itself included, via DI layouts"""
        out, todo = [], [self.name]
        while todo:
            c = todo.pop()
            if c in out:
                continue
            out.append(c)
            s = self.prog.structs.get(c)
            if s:
                todo += [b for b, _ in s['bases']]
        return out

def classes(prog, include_wit=False):
    out = []
    for n, v in sorted(prog.vt.items()):
        for off, ts in v['types']:
            if ts == BM:
                c = Cls(prog, n, off)
                if 'construction vtable' in c.name or '-in-' in c.name:
                    continue
                if not include_wit and c.name.startswith(('wit::', 'wit_')):
                    continue
                out.append(c)
                break
    return out

def overrider(prog, cls, slots, name, arity=0):
    """final overrider (Fn or None if body not dumped, with dem) of a virtual method for the class"""
    k = slots.get((name, arity))
    if k is None:
        raise AnalysisError('no virtual slot for %s/%d' % (name, arity))
    i = cls.off // 8 + k
    m = cls.flat[i] if i < len(cls.flat) else None
    if not m or m == '__cxa_pure_virtual':
        return None
    inv = prog.inventory.get(m)
    d = inv['dem'] if inv else demangle(m)
    if 'thunk to ' in d:
        tgt = re.sub(r'^(virtual thunk to |non-virtual thunk to )', '', d)
        for f in prog.fns.values():
            if f.dem == tgt:
                return f
        raise AnalysisError('thunk target %s not analysed' % tgt)
    f = prog.fns.get(m)
    if f is None:
        raise AnalysisError('overrider %s (%s) of %s has no analysed body' % (m, d, cls.name))
    return f

def mangled_overrider(prog, cls, slots, name, arity=0):
    k = slots[(name, arity)]
    i = cls.off // 8 + k
    return cls.flat[i] if i < len(cls.flat) else None

def own_bodies(c):
    """does the class come from the repository (not only a witness declaration)?"""
    return not c.name.startswith('wit::')

class Lay:
    """member offsets resolved through accessors (so that renaming a private member does not blind a rule)"""
    def __init__(self, prog):
        self.prog = prog
        self.fns = prog.fns
    def getter(self, regex):
        """offset of the member that a one-line accessor returns: `return this->m` or `return &this->m`"""
        f = self.prog.one(regex)
        vals = set()
        for items, ex in f.paths():
            if ex is None or ex['o'] != 'ret' or not ex['a']:
                raise AnalysisError('accessor %s has no plain return' % regex)
            vals.add(f.op(ex['a'][0]))
        if len(vals) != 1:
            raise AnalysisError('accessor %s returns several terms' % regex)
        t = vals.pop()
        if t[0] == 'ld':
            t = t[1]
        th = f.this()
        d = sub(t, th)
        if not isconst(d):
            raise AnalysisError('accessor %s does not return a member: %s' % (regex, tstr(t)))
        return d[1]

def upstream_kind(c):
    if c.name not in c.prog.structs:
        raise AnalysisError('no debug layout for class %s' % c.name)
    bs = c.bases()
    if any(b == 'SourceModule' for b in bs):
        return 'source'
    if any(b == 'ModuleMixDown' for b in bs):
        return 'mixdown'
    return 'single'

def backward_static(c, prog):
    """does the class's AudioModule base hold its backward module by value?  returns (offset, is_static)"""
    for b in c.bases():
        if b.startswith('AudioModule<'):
            l = prog.layout(b)
            if 'backwardv' in l:
                off, sz, ty = l['backwardv']
                return off, not ty.endswith('*'), ty
    return None



def member_via(prog, wit):
    """offset of the member a public accessor exposes (witness function wit_*: returns the member or its address)"""
    f = prog.one(r'^%s$' % wit)
    rp = ret_paths(f)
    ts = {f.op(ex['a'][0]) for _, ex in rp}
    t = ts.pop()
    a0 = ('arg', 0)
    for x in (t, t[1] if t[0] == 'ld' else None):
        if x is not None:
            d = sub(x, a0)
            if isconst(d) and not ts:
                return d[1]
    if wit in FALLBACK:                      # the accessor does more than expose the member: locate it by name
        cls, memb = FALLBACK[wit]
        lay = prog.layout(cls)
        if memb in lay:
            return lay[memb][0]
    raise AnalysisError('accessor %s does not expose a member: %s' % (wit, tstr(t)))

FALLBACK = {'wit_osc_phase': ('BaseOscillator', 'phase'), 'wit_osc_freq': ('BaseOscillator', 'freq'), 'wit_mosc_phase': ('BaseModulatedOscillator', 'phase'), 'wit_mosc_freq': ('BaseModulatedOscillator', 'freq'),
            'wit_base_forward': ('BaseModule', 'forwardv'), 'wit_get_state': ('BaseModule', 'state_type'), 'wit_get_chain_info': ('BaseModule', 'chain'),
            'wit_get_info': ('BaseModule', 'info'), 'wit_base_buffer': ('BaseModule', 'buff'), 'wit_backward': ('AudioModule<void, BaseModule*>', 'backwardv'),
            'wit_period': ('PeriodSink', 'periods'), 'wit_cnt_processed': ('Counter', 'm_processed'), 'wit_cnt_samples': ('Counter', 'm_samples'), 'wit_lat_start': ('LatencyModule', 'start_time'),
            'wit_lat_time': ('LatencyModule', 'operation_time'), 'wit_lat_total_time': ('LatencyModule', 'total_operation_time'), 'wit_lat_latency': ('LatencyModule', 'operation_latency'),
            'wit_lat_sum': ('LatencyModule', 'total_operation_latency'), 'wit_tm_sample': ('ChainTimer', 'sample'), 'wit_tm_channels': ('ChainTimer', 'channels'), 'wit_tm_npf': ('ChainTimer', 'nano_frame')}

# ------------------------------------------------------------------ call summaries
def fn_class(f):
    """name of the class a method belongs to (debug-info scope, falling back to the demangled prefix)"""
    sc = norm(f.j.get('scope') or '')
    if sc in f.prog.structs:
        return sc
    d = re.sub(r'^(virtual thunk to |non-virtual thunk to )', '', f.dem)
    k, depth = 0, 0
    head = d
    # cut at the parameter list
    for i, ch in enumerate(d):
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif ch == '(' and depth == 0:
            head = d[:i]
            break
    depth, cut = 0, -1
    for i, ch in enumerate(head):
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif ch == ':' and depth == 0 and head[i:i + 2] == '::':
            cut = i
    pre = head[:cut] if cut > 0 else ''
    pre = norm(pre.split(' ')[-1] if '<' not in pre else pre)
    for k in (pre, pre.split(' ', 1)[-1]):
        if k in f.prog.structs:
            return k
    return pre

def collections(prog, cls):
    """collections of modules held by a class: {(kind): (offset, count or None)}; kind 'inputs' = vector of module pointers, 'params' = array of parameters"""
    out = {}
    try:
        lay = prog.layout(cls)
    except AnalysisError:
        return out
    for k, (o, sz, ty) in lay.items():
        m = re.match(r'std::vector<(\w+)\*', ty)
        if m and 'Module' in m.group(1):
            out.setdefault('inputs' if cls != 'ModuleMixUp' and 'out' not in k.split('.')[-1] else 'outputs', (o, None))
        m = re.match(r'std::array<ModuleParam\*, (\d+)', ty)
        if m:
            out['params'] = (o, int(m.group(1)))
    return out

class Step:
    __slots__ = ('name', 'tgt', 'ev', 'detail', 'nargs')
    def __init__(self, name, tgt, ev, detail=''):
        self.name, self.tgt, self.ev, self.detail = name, tgt, ev, detail
        self.nargs = len(ev.args) if ev.kind == 'vcall' else len(ev.args) - 1
    def __repr__(self):
        return '%s@%s' % (self.name, self.tgt if isinstance(self.tgt, str) else ':'.join(map(str, self.tgt)))
    def where(self):
        return self.ev.where()

def drop_version(t):
    return subst(t, lambda x: ('ld', drop_version(x[1])) if x[0] == 'ld' and len(x) > 2 else None)

def target_of(f, obj, cls=None, loops=()):
    """who a call is made on: self / up (backward link) / fwd (forward link) / inputs / params / param:<i> / chain / other"""
    prog = f.prog
    cls = cls or fn_class(f)
    if obj is None:
        return 'other'
    if f.is_self(obj):
        return 'self'
    th = f.this()
    o = drop_version(obj)
    lay = None
    try:
        lay = prog.layout(cls)
    except AnalysisError:
        return 'other'
    def memb(name):
        return lay[name][0] if name in lay else None
    forms = {th}
    for s_ in subterms(o):
        if s_[0] == 'vb' and s_[1] == th:
            forms.add(s_)
    for base in forms:
        bo = memb('backwardv')
        if bo is not None:
            if lay['backwardv'][2].endswith('*'):
                if o == ('ld', add(base, I(bo))):
                    return 'up'
            elif o == add(base, I(bo)):
                return 'up'
        fo = memb('forwardv')
        if fo is not None and o == ('ld', add(base, I(fo))):
            return 'fwd'
        for kind, (co, n) in collections(prog, cls).items():
            for l in loops:
                if n is None:
                    e = f.elem_of(o, l)
                    if e and (e[0] == add(base, I(co)) and e[1] == 8 and e[2] == 0):
                        return kind
                    if e and e[1] == -8 and e[2] == -8 and e[0] == add(base, I(co + 8)):
                        return kind
                elif o[0] == 'ld':
                    d = sub(o[1], add(base, I(co)))
                    if d == mul(I(8), ('iter', l.header)) or d == add(mul(I(-8), ('iter', l.header)), I(8 * (n - 1))):
                        return kind
            if n is not None and o[0] == 'ld':
                d = sub(o[1], add(base, I(co)))
                if isconst(d) and 0 <= d[1] < 8 * n and d[1] % 8 == 0:
                    return '%s:%d' % (kind[:-1], d[1] // 8)
    return 'other'

def complete_loop(f, it, kind, cls=None):
    """None if loop item it visits every element of collection `kind` exactly once, else the reason"""
    l = it.loop
    cls = cls or fn_class(f)
    co, n = collections(f.prog, cls)[kind]
    if len(l.exits) != 1:
        return 'the loop can leave early (%d exits)' % len(l.exits)
    cnt = l.count()
    if cnt is None:
        return 'the number of iterations is not the size of the collection'
    if cnt[0] == 'max0':
        cnt = cnt[1]
    if n is not None:
        return None if cnt == I(n) else 'the loop runs %s times for %d elements' % (tstr(cnt), n)
    if cnt[0] == 'size' and cnt[2] == 8:
        b = drop_version(cnt[1])
        if isconst(sub(b, add(f.this(), I(co)))) and sub(b, add(f.this(), I(co))) == I(0):
            return None
        for s_ in subterms(b):
            if s_[0] == 'vb' and b == add(s_, I(co)):
                return None
    return 'the loop runs %s times, not once per element' % tstr(cnt)

def steps(f, items, names, cls=None):
    """calls named in `names` along a path, with loops over a whole collection folded into one step on that collection.
    A call in a loop that cannot be proven to cover its collection exactly once gets target 'partial'."""
    out = []
    for it in items:
        if it.kind in ('vcall', 'call'):
            if it.name in names:
                out.append(Step(it.name, target_of(f, it.obj, cls), it))
        elif it.kind == 'loop':
            out += loop_steps(f, it, names, cls)
    return out

def null_skip(f, body, kind, l, cls):
    for c in body:
        if c.kind == 'cond' and c.t[0] == 'icmp' and c.t[1] in ('eq', 'ne') and I(0) in (c.t[2], c.t[3]):
            o = c.t[2] if c.t[3] == I(0) else c.t[3]
            if ((c.t[1] == 'eq') == c.v) and target_of(f, o, cls, (l,)) == kind:
                return True
    return False

def loop_steps(f, it, names, cls=None):
    l = it.loop
    per = []
    for body in l.bodies():
        seq = []
        for x in body:
            if x.kind in ('vcall', 'call') and x.name in names:
                seq.append(Step(x.name, target_of(f, x.obj, cls, (l,)), x))
            elif x.kind == 'loop':
                seq += loop_steps(f, x, names, cls)
        per.append((body, seq))
    tail = [Step(x.name, target_of(f, x.obj, cls, (l,)), x) for x in it.partial if x.kind in ('vcall', 'call') and x.name in names]
    if not tail and not any(s_ for _, s_ in per):
        return []
    kinds = {s_.tgt for _, seq in per for s_ in seq}
    first = next((s_ for _, seq in per for s_ in seq), None) or tail[0]
    if len(kinds) == 1 and list(kinds)[0] in ('inputs', 'params', 'outputs') and not tail:
        kind = list(kinds)[0]
        why = complete_loop(f, it, kind, cls)
        seqs = {tuple(s_.name for s_ in seq) for body, seq in per if not null_skip(f, body, kind, l, cls)}
        if why is None and len(seqs) == 1:
            base = [seq for body, seq in per if seq][0]
            return base
        if why is None:
            why = 'not every iteration makes the same calls'
        return [Step(first.name, 'partial', first.ev, '%s %s: %s' % (first.name, kind, why))]
    if kinds == {'self'} or 'self' in kinds or 'up' in kinds or tail:
        return [Step(s_.name, ('loop', s_.tgt), s_.ev, 'call inside a loop') for _, seq in per for s_ in seq] + \
               [Step(s_.name, ('loop', s_.tgt), s_.ev, 'call in the leaving iteration of a loop') for s_ in tail]
    return [Step(first.name, 'partial', first.ev, 'loop calls on %s' % ', '.join(sorted(map(str, kinds))))]

def ret_paths(f):
    r = [p for p in f.paths() if p[1] is not None and p[1]['o'] == 'ret']
    if not r:
        raise AnalysisError('%s has no returning path' % f.dem)
    return r

def walk_events(items):
    """every event below a path's items, loop bodies included"""
    for x in items:
        if x.kind == 'loop':
            for b in x.loop.bodies():
                yield from walk_events(b)
            yield from walk_events(x.partial)
        elif x.kind != 'cond':
            yield x

def merge_params(st, n):
    """param:0 .. param:n-1 calls of one name, each once, count as one step on params"""
    names = {}
    out = []
    for s_ in st:
        if isinstance(s_.tgt, str) and s_.tgt.startswith('param:'):
            names.setdefault(s_.name, []).append(s_)
            if sorted(x.tgt for x in names[s_.name]) == sorted('param:%d' % i for i in range(n)):
                out.append(Step(s_.name, 'params', s_.ev))
                names[s_.name] = []
            continue
        out.append(s_)
    for l in names.values():
        for s_ in l:
            out.append(Step(s_.name, 'partial', s_.ev, 'only some parameters are reached'))
    return out

def is_param(c):
    return any(b.startswith('BaseParamModule<') for b in c.bases())

def upstream_want(c):
    k = upstream_kind(c)
    return {'source': [], 'mixdown': ['inputs'], 'single': ['up']}[k]
