"""H03 Every object starts in a determined state, copies carry the whole state, and polymorphic objects are destroyed whole."""
from kern import *
LEVEL = 'other'
EXPLANATION = ('Every constructor of every class of the public headers (all inline functions are emitted, used or not; templates are instantiated) and default initialisation of every class is normalised with all its bases, member initialisers and helpers inlined; '
               'on every path each byte of each scalar member (numbers, flags, enumerations, pointers, arrays of these, at any depth of bases and members) must be written, and none may be read before it is written. '
               'A copying or moving constructor or assignment must take each scalar from the same member of its source (or point into the object itself); what every constructor aims at the object itself, a copy aims at itself too, and a module owned by the object points forward at its new owner. Every class with virtual functions must have a virtual destructor.')
ASSUMPTIONS = ['members of standard library class types initialise themselves, as the standard says', 'objects are made by constructors, not by reinterpreting memory']
CTOR = r'^_ZN([0-9]+[A-Z]|3dsp)[0-9A-Za-z_]*C2[EI]'
ASGN = r'^_ZN([0-9]+[A-Z]|3dsp)[0-9A-Za-z_]*aSE(RK|O|[0-9])'
WITS = ('init.cpp', 'hdr/modules.cpp', 'hdr/buffers.cpp', 'hdr/iir.cpp')
PTR = re.compile(r'[*&]$')
NUM = {'bool', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'float', 'double', 'long double', 'wchar_t'}

def scalars(prog, cls, base=0, pre='', seen=()):
    """(offset, size, member) of every scalar inside a class that no standard library constructor sets"""
    s = prog.structs.get(cls)
    out = []
    if s is None or cls in seen:
        return out
    vb = {norm(x) for x in s.get('vbases', [])}      # a virtual base is set by its own constructor, which the complete object's constructor always calls
    for b, o in s['bases']:
        if b not in vb and not b.startswith(('std::', '__gnu')):
            out += scalars(prog, b, base + o, pre, seen + (cls,))
    for n, o, sz, ty in s['members']:
        if n.startswith('_vptr'):
            continue
        out += member(prog, ty, base + o, sz, pre + n, seen + (cls,))
    return out

def member(prog, ty, o, sz, name, seen):
    t = re.sub(r'^(const|volatile) ', '', ty)
    m = re.match(r'(.*?)((\[\d+\])+)$', t)
    if m:
        n = 1
        for k in re.findall(r'\d+', m.group(2)):
            n *= int(k)
        esz = sz // n if n else 0
        return [x for k in range(n) for x in member(prog, m.group(1), o + k * esz, esz, '%s[%d]' % (name, k), seen)]
    if PTR.search(t) or t in NUM or ('enum ' + t) in prog.structs:
        return [(o, sz, name)]
    if t.startswith('std::array<'):
        s = prog.structs.get(t)
        if s and s['members']:
            return member(prog, s['members'][0][3], o, s['members'][0][2], name, seen)
        return []
    if t.startswith(('std::', '__gnu')) or t == 'fn':
        return []
    if t in prog.structs:
        return scalars(prog, t, o, name + '.', seen)
    return [(o, sz, name)] if sz in (1, 2, 4, 8) and t.count('::') <= 4 and not t.startswith('(anon)') else []

def span(f, e, this):
    """(offset, size) of the bytes of the object an event writes"""
    if e.kind == 'store':
        n = e.size
    elif e.kind in ('copy', 'fill') and isconst(e.size):
        n = e.size[1]
    else:
        return None
    d = sub(e.addr, this)
    return (d[1], n) if isconst(d) else None

def loop_span(f, l, e, this):
    """bytes written by a store that walks an array inside the object"""
    c = nonneg(l.count())
    if e.kind != 'store' or c is None or not isconst(c):
        return None
    n = c[1]
    for s in (e.size, -e.size):
        d = sub(sub(e.addr, this), mul(I(s), ('iter', l.header)))
        if isconst(d):
            lo = d[1] if s > 0 else d[1] + s * (n - 1)
            return (lo, n * e.size)
    return None

def judge(prog, f, cls, src=None):
    """(ok, detail, where) for a constructor: everything set, nothing read before"""
    need = scalars(prog, cls)
    this = f.this() if f.is_method() else ('arg', 0)
    for items, ex in ret_paths(f):
        done = set()
        for e in effects_all(f, items):
            ev, loops = e.ev, e.loops
            if ev.kind == 'store':
                for t in subterms(ev.val):
                    if t[0] == 'ld':
                        d = sub(t[1], this)
                        if isconst(d):
                            for o, sz, n in need:
                                if o <= d[1] < o + sz and d[1] not in done:
                                    return False, 'reads %s before it is set' % n, ev.where()
            sp = None
            if not loops and not e.conds:
                sp = span(f, ev, this)
            elif len(loops) == 1 and not e.conds:
                sp = loop_span(f, loops[0], ev, this)
            if sp:
                done |= set(range(sp[0], sp[0] + sp[1]))
        for o, sz, n in need:
            if not set(range(o, o + sz)) <= done:
                return False, '%s starts indeterminate' % n, f.where(None)
    return True, '%d scalar members set on every path' % len(need), f.where(None)

def effects_all(f, items):
    out = []
    for x in items:
        if x.kind == 'loop':
            for b in x.loop.bodies():
                conds = [y for y in b if y.kind == 'cond' and not is_control(y, x.loop)]
                out += [Eff(y, (x.loop,), conds) for y in b if y.kind not in ('cond', 'loop')]
        elif x.kind != 'cond':
            out.append(Eff(x, (), ()))
    return out

def own_pointers(prog, f, cls):
    """offsets of the pointers a constructor aims at the object itself"""
    this = f.this() if f.is_method() else ('arg', 0)
    need = {o: n for o, sz, n in scalars(prog, cls)}
    out = None
    for items, ex in ret_paths(f):
        p = {}
        for e in effects_all(f, items):
            if e.ev.kind == 'store' and not e.loops:
                d = sub(e.ev.addr, this)
                if isconst(d) and d[1] in need:
                    v = sub(drop_version(e.ev.val), this)
                    p[d[1]] = v[1] if isconst(v) else None
        p = {o: v for o, v in p.items() if v is not None}
        out = p if out is None else {o: v for o, v in out.items() if p.get(o) == v}
    return out or {}

def copies(prog, f, cls, own={}):
    """None, or what a copy or move does not carry over"""
    need = scalars(prog, cls)
    this, src = f.this() if f.is_method() else ('arg', 0), ('arg', len(f.j['args']) - 1)      # (a constructor with virtual bases is given a table of its bases in between)
    held = containers(prog, cls)
    for items, ex in ret_paths(f):
        val, moved, aim = {}, set(), {}
        same = False
        for x in items:
            if x.kind == 'cond':        # self assignment
                t = drop_version(x.t)
                if t[0] == 'icmp' and {t[2], t[3]} == {this, src} and ((t[1] == 'eq') == x.v):
                    same = True
        for e in effects_all(f, items):
            ev = e.ev
            if ev.kind == 'call' and len(ev.args) >= 2 and not e.loops:
                d, k = sub(ev.args[0], this), sub(ev.args[1], src)
                if isconst(d) and d == k:
                    moved.add(d[1])
            sp = span(f, ev, this) if not e.loops else None
            if not sp:
                continue
            for k in range(sp[0], sp[0] + sp[1]):
                if ev.kind == 'copy':
                    d = sub(ev.val, src)
                    val[k] = isconst(d) and d[1] == sp[0]
                elif ev.kind == 'store':
                    v = drop_version(ev.val)
                    w = sub(v, this)
                    inside = isconst(w)
                    if inside and k == sp[0]:
                        aim[k] = w[1]
                    d = sub(v[1], src) if v[0] == 'ld' else None
                    val[k] = inside or (d is not None and isconst(d) and d[1] == sp[0])
                else:
                    val[k] = False
                if k == sp[0] and not (ev.kind == 'store' and inside):
                    aim.pop(k, None)
        for o, to in own.items():
            if not same and aim.get(o) != to:
                n = [n for o2, sz, n in need if o2 == o]
                return '%s of a new object points into the object itself, that of the copy does not' % (n[0] if n else 'offset %d' % o)
        for o, sz, n in need:
            if same:
                continue
            if not all(val.get(k) for k in range(o, o + sz)):
                return '%s is not taken from the source' % n
        for o, sz, n in held:
            if not same and o not in moved and not all(val.get(k) for k in range(o, o + 8)):
                return 'the contents of %s are not taken from the source' % n
    return None

def aims(own, prog, f, cls):
    p = own_pointers(prog, f, cls)
    own[cls] = p if cls not in own else {o: v for o, v in own[cls].items() if p.get(o) == v}

def owned_modules(prog, cls, base=0, seen=()):
    """(offset, member) of the modules a class owns by a unique pointer"""
    s = prog.structs.get(cls)
    out = []
    if s is None or cls in seen:
        return out
    for b, o in s['bases']:
        if not b.startswith(('std::', '__gnu')):
            out += owned_modules(prog, b, base + o, seen + (cls,))
    for n, o, sz, ty in s['members']:
        m = re.match(r'^std::unique_ptr<([A-Za-z_]+)', ty)
        if m and m.group(1) in prog.structs:
            out.append((base + o, n))
    return out

def claims(prog, f, cls):
    """None, or the owned module that a moved object does not stand in front of"""
    this, src = f.this() if f.is_method() else ('arg', 0), ('arg', len(f.j['args']) - 1)
    fwd = [o for n, o, sz, ty in prog.structs['BaseModule']['members'] if re.match(r'^BaseModule ?\*$', ty)]
    for o, n in owned_modules(prog, cls):
        mine = (add(src, I(o)), add(this, I(o)))
        for items, ex in ret_paths(f):
            held, ok = None, False
            for x in items:
                if x.kind == 'cond':
                    t = drop_version(x.t)
                    if t[0] == 'icmp' and any(y[0] == 'ld' and y[1] in mine for y in t[2:4]):
                        held = (t[1] == 'ne') == x.v
                elif x.kind == 'vcall' and x.name == 'forward' and len(x.args) == 1 and x.args[0] == this:
                    q = drop_version(x.obj)
                    ok = ok or q[0] == 'ld' and q[1] in mine
                elif x.kind == 'store' and drop_version(x.val) == this:
                    for w in fwd:
                        q = drop_version(sub(x.addr, I(w)))
                        ok = ok or q[0] == 'ld' and q[1] in mine
            if held is not False and not ok:
                return n
    return None

def containers(prog, cls, base=0, pre='', seen=()):
    """(offset, size, member) of the standard library containers and streams a class holds"""
    s = prog.structs.get(cls)
    if s is None or cls in seen:
        return []
    out = []
    vb = {norm(x) for x in s.get('vbases', [])}
    for b, o in s['bases']:
        if b not in vb and not b.startswith(('std::', '__gnu')):
            out += containers(prog, b, base + o, pre, seen + (cls,))
    for n, o, sz, ty in s['members']:
        t = re.sub(r'^(const|volatile) ', '', ty)
        if PTR.search(t) or t.startswith('std::array<') or re.search(r'\]$', t):
            continue
        if t.startswith('std::'):
            if sz >= 8:
                out.append((base + o, sz, pre + n))
        elif t in prog.structs:
            out += containers(prog, t, base + o, pre + n + '.', seen + (cls,))
    return out

def run(ctx):
    prog = ctx.program([CTOR, ASGN, 'wit_(init|copy|move|cassign|massign)I'], wits=WITS, alldecls=True, transparent=[r'^([A-Z]|dsp::)(.*[A-Za-z>])?::(~?[A-Z][A-Za-z]*|operator=)\('])
    n = {'ctor': 0, 'copy': 0, 'init': 0, 'own': 0, 'mods': 0}
    own, todo = {}, []
    for f in sorted(prog.fns.values(), key=lambda f: f.dem):
        if re.match(r'^wit_special<', f.j.get('sname') or ''):
            continue
        m = re.match(r'^wit_(init|copy|move|cassign|massign)<(.*)>$', f.j.get('sname') or '')
        cls = norm(m.group(2)).strip() if m else fn_class(f)
        if cls not in prog.structs or not m and cls.startswith(('std::', '__gnu')):
            if m:
                ctx.ob('starts-determined', cls, False, 'the class is not described by the debug information', f.where(None))
            continue
        ctx.fn(f)
        if m and m.group(1) != 'init':
            s = prog.structs[cls]
            what = {'copy': 'copy', 'move': 'move', 'cassign': 'copy assignment', 'massign': 'move assignment'}[m.group(1)]
            todo.append((f, cls, '%s of %s' % (what, cls), '%s:%d' % (s['file'].split('/repo/')[-1], s['line'])))
            continue
        if m:
            n['init'] += 1
            ok, det, wh = judge(prog, f, cls)
            aims(own, prog, f, cls)
            s = prog.structs[cls]
            ctx.ob('starts-determined', 'default initialisation of ' + cls, ok, det, '%s:%d' % (s['file'].split('/repo/')[-1], s['line']))
            continue
        ps = [norm(t) for t in f.j.get('ditypes', [])]
        args = ps[2:]
        same = len(args) == 1 and re.sub(r'^const ', '', re.sub(r'&+$', '', args[0])) == cls and args[0].endswith('&')
        isasgn = short_name(f.dem) == 'operator='
        if isasgn and not same:
            continue
        if same:
            todo.append((f, cls, f.dem, f.where(None)))
        else:
            n['ctor'] += 1
            ok, det, wh = judge(prog, f, cls)
            aims(own, prog, f, cls)
            ctx.ob('starts-determined', f.dem, ok, det, wh)
    for f, cls, site, wh in todo:
        n['copy'] += 1
        n['own'] += bool(own.get(cls))
        why = copies(prog, f, cls, own.get(cls, {}))
        if owned_modules(prog, cls):
            n['mods'] += 1
            bad = claims(prog, f, cls)
            ctx.ob('stands-before-its-own', site, bad is None, '%s keeps pointing forward at the object it was moved from' % bad if bad else 'the module it owns points forward at the new owner', wh)
        ctx.ob('carries-the-state', site, why is None, why or 'every member comes from the source', wh)
    ctx.need('copies of objects that point into themselves', n['own'], 4)
    ctx.need('moves of objects that own a module', n['mods'], 4)
    ctx.need('constructors', n['ctor'], 100)
    ctx.need('default initialisations', n['init'], 50)
    ctx.need('copies and moves', n['copy'], 15)
    k = 0
    for v in prog.vt.values():
        cls = norm(v['cls'].replace('vtable for ', ''))
        if cls.startswith(('std::', '__', 'wit')) or cls not in prog.structs or 'construction vtable' in cls:
            continue
        k += 1
        own = any(x and re.search(r'D0Ev$', x) for p in v['parts'] for x in p)
        s = prog.structs[cls]
        ctx.ob('destroyed-whole', cls, own, 'its virtual table has a deleting destructor' if own else 'it has virtual functions but no virtual destructor: deleting it through a base pointer is undefined', '%s:%d' % (s['file'].split('/repo/')[-1], s['line']))
    ctx.need('polymorphic classes', k, 40)
