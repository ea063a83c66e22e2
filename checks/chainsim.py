"""Abstract interpretation of one lifecycle, processing or sync entry point on a module whose neighbours are abstract modules.
Used where the path rules cannot follow the form of the code: the entry point is followed from the source for several numbers of neighbours, with every field of every module a symbol, every call that
reaches another module or an own hook recorded, and any branch on an unknown value left undecided (which is no proof)."""
from shape import *
from chainlib import *
VB = 1 << 16
COUNTS = (0, 1, 2, 3, 4, 7, 20, 65)

class Tok(tuple):
    pass

class Sim(Shape):
    def __init__(self, prog, c, f, slots, n=0, same=False, fields=(), num=1, length=3):
        super().__init__(prog)
        self.length = length
        self.c, self.f, self.slots, self.trace = c, f, {v: k for k, v in slots.items()}, []
        self.cls = fn_class(f)
        self.lay = prog.layout(self.cls)
        self.virt = any(b not in ('',) and self.virtual_base(b) for b in c.bases())
        self.BO, self.info, self.chain, self.fwdo, self.state = (member_via(prog, w) for w in ('wit_base_buffer', 'wit_get_info', 'wit_get_chain_info', 'wit_base_forward', 'wit_get_state'))
        bl = prog.layout('BaseModule')
        self.bname, self.bsize = next((v[2], v[1]) for k, v in bl.items() if v[0] == self.BO and v[2].startswith('dsp::buff::Buffer'))
        self.rest = sorted((o, s) for k, (o, s, ty) in prog.layout(self.bname).items() if o >= 24)
        self.ML, self.CL = prog.layout('ModuleInfo'), prog.layout('ChainInfo')
        self.base = VB if self.virt else 0
        self.bo, self.static = None, False
        if 'backwardv' in self.lay:
            self.bo, ty = self.lay['backwardv'][0], self.lay['backwardv'][2]
            self.static = not ty.endswith('*')
        self.version = {}
        self.fields = dict(fields)
        self.module('self', num)
        self.module('up', num)
        self.module('fwd', num)
        if self.bo is not None and not self.static:
            self.mem[('self', self.base + self.bo)] = (('p', 'up', 0), 8)
        self.mem[('self', self.base + self.fwdo)] = (('p', 'fwd', 0), 8)
        col = collections(prog, self.cls)
        self.names = []
        if 'inputs' in col:
            self.names = ['in%d' % (0 if same else k) for k in range(n)]
            for x in dict.fromkeys(self.names):
                self.module(x, num)
            o = self.array('inputs', [('p', x, 0) for x in self.names])
            self.vset(('p', 'self', col['inputs'][0]), 'inputs', 8 * n)
        self.params = []
        if 'params' in col:
            off, k = col['params']
            for j in range(k):
                self.module('param%d' % j, num)
                self.mem[('self', off + 8 * j)] = (('p', 'param%d' % j, 0), 8)
                self.params.append('param%d' % j)
        for k, (o, s, ty) in self.lay.items():
            if re.match(r'std::vector<(dsp::buff::Buffer|AudioBuffer|\w*Buffer\b)', ty):
                p = self.heap(2 * self.bsize)          # buffers of an earlier step
                for j in range(2):
                    self.fresh_buffer((p[1], j * self.bsize), ('old', j))
                self.vset(('p', 'self', o), p[1], 2 * self.bsize)
                self.listo = o
            if ty == 'ChainInfo':
                self.inst = o
                self.record(('self', self.base + o), num, 'record')
                self.mem[('self', self.base + self.chain)] = (('p', 'self', self.base + o), 8)
            if s == 8 and re.search(r'\b\w*(Module|Envelope)\w*\*$', ty) and k.split('.')[-1] not in ('backwardv', 'forwardv') and ('self', o) not in self.mem:
                self.module('held', num)
                self.mem[('self', self.base + o)] = (('p', 'held', 0), 8)
        for off, v in self.fields.items():
            self.mem[('self', self.base + off)] = v
        self.on = None
    def virtual_base(self, b):
        s = self.prog.structs.get(b)
        return bool(s) and b == self.cls and any(x.startswith('AudioModule<') for x, _ in s['bases']) and 'ModuleMix' in b
    def record(self, at, num, nm=None):
        nm = nm or at[0]
        for k, (o, s, ty) in self.CL.items():
            self.mem[(at[0], at[1] + o)] = (num if k == 'module_num' else atom(nm, k) if ty == 'double' else Tok(('tok', nm, k)), s)
    def module(self, name, num):
        o = 0 if name != 'self' else self.base
        self.obj(name, None, lazy=lambda off, n: self.lazy_cell(name, off, n))
        for k, (x, s, ty) in self.ML.items():
            self.mem[(name, o + self.info + x)] = (atom(name, k) if ty == 'double' else Tok(('tok', name, k)), s)
        self.fresh_buffer((name, o + self.BO), (name, 0))
        ch = 'chain of ' + name
        self.obj(ch, None)
        self.record((ch, 0), num)
        self.mem[(name, o + self.chain)] = (('p', ch, 0), 8)
        self.version[name] = 0
    def fresh_buffer(self, at, tag):
        p = self.heap(8 * self.length)
        for k in range(self.length):
            self.mem[(p[1], 8 * k)] = (atom('sample', *(tag + (k,))), 8)
        self.vset(('p',) + at, p[1], 8 * self.length)
        for o, s in self.rest:
            self.mem[(at[0], at[1] + o)] = (Tok(('tok', 'buffer', tag, o)), s)
    def buffer_tag(self, at):
        """which buffer is held at an address: its tag, or None"""
        try:
            o, b = self.vget(('p',) + at)
        except Top:
            return None
        t = self.mem.get((at[0], at[1] + self.rest[0][0]), (None,))[0]
        if not isinstance(t, Tok) or t[1] != 'buffer':
            return None
        tag = t[2]
        if self.cells(('p', o, 0), b // 8) != [atom('sample', *(tag + (k,))) for k in range(self.length)]:
            return None
        for off, s in self.rest:
            if self.mem.get((at[0], at[1] + off), (None,))[0] != Tok(('tok', 'buffer', tag, off)):
                return None
        return tag
    def lazy_cell(self, name, off, n):
        if n == 8 and (off == 0 or name == 'self' and off == self.base):
            return ('p', ('vt', name, off), 0)
        if name == 'self' and self.static and off == self.base + self.bo:
            return ('p', ('vt', 'up', 0), 0)
        return Tok(('tok', name, off))
    def load(self, p, n, t):
        if isinstance(p, tuple) and p[0] == 'p' and isinstance(p[1], tuple) and p[1][0] == 'vt':
            if p[2] < 0:
                return self.base
            return ('p', ('slot', p[1][1], p[1][2], p[2] // 8), 0)
        return super().load(p, n, t)
    def step(self, f, val, i):
        """arithmetic on unknown values gives an unknown value"""
        try:
            return super().step(f, val, i)
        except Top:
            if i['o'] not in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'icmp', 'fcmp', 'zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
                              'fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fpext', 'fptrunc', 'select'):
                raise
            val[i['i']] = Tok(('tok', 'unknown', i['i']))
    def icmp(self, p, x, y, w):
        for q in (x, y):
            if isinstance(q, tuple) and q[0] == 'p' and isinstance(q[1], str) and (q[1].startswith('chain of') or q[1] == 'self' and q[2] not in (0, self.base)):
                raise Top('a branch on the chain record')      # a module may have none
        return super().icmp(p, x, y, w)
    def truth(self, c, i, f):
        if isinstance(c, Tok):
            raise Top('a branch on a field')
        return super().truth(c, i, f)
    def who(self, p):
        if not (isinstance(p, tuple) and p[0] == 'p'):
            return 'other'
        if p[1] == 'self':
            if p[2] in (0, self.base):
                return 'self'
            if self.static and p[2] == self.base + self.bo:
                return 'up'
            return 'other'
        return p[1] if isinstance(p[1], str) and p[1] in self.version and p[2] == 0 else 'other'
    def vcall(self, f, i, args):
        v = f.vcallee(i)
        nm = None
        ar = len(args) - 1
        if v and v[0]:
            nm = self.prog.slot_name(v[0], v[1])
        if nm is None:
            p = self.opv(f, self.now, i['fp'], 'ptr')
            if isinstance(p, tuple) and p[0] == 'p' and isinstance(p[1], tuple) and p[1][0] == 'slot' and (p[1][1] != 'self' or p[1][2] == self.base):
                nm = self.slots.get(p[1][3])
        if isinstance(nm, tuple):
            nm = nm[0]
        if not nm:
            raise Top('a virtual call')
        return self.reach(short_name(nm) if '(' in nm else nm, self.who(args[0]), args)
    def call(self, f, val, i):
        self.now = val
        return super().call(f, val, i)
    def reach(self, nm, tgt, args):
        if tgt == 'other':
            raise Top('%s on something unknown' % nm)
        if any(isinstance(x[1], tuple) and x[1][0] == 'gl' for x in self.mutexes):
            raise Top('%s while a lock shared by all modules is held' % nm)
        at = ('self', self.base + self.BO) if tgt == 'self' else ('self', self.base + self.bo + self.BO) if tgt == 'up' and self.static else (tgt, self.BO)
        if nm == 'get_buffer':
            self.trace.append((nm, tgt))
            return ('p',) + at
        if nm == 'forward' and len(args) == 1:
            if tgt != 'self':
                raise Top('the forward module of a neighbour')
            return ('p', 'fwd', 0)
        if nm == 'forward':
            self.trace.append((nm, tgt, self.who(args[1])))
            return None
        self.trace.append((nm, tgt) + tuple(self.who(a) for a in args[1:]))
        if nm == 'meta_process' and tgt != 'self':
            self.version[tgt] += 1
            self.fresh_buffer(at, (tgt, self.version[tgt]))
        if self.on:
            self.on(nm, tgt)
        return None
    def hook(self, f, i, fn, d, nm, args):
        own = ('process', 'start', 'stop', 'finish', 'done')
        if args and nm in own + ('meta_process', 'meta_start', 'meta_stop', 'meta_finish', 'info_sync', 'meta_info_sync', 'get_buffer', 'forward') and self.who(args[0]) != 'other':
            h = self.prog.fns.get(fn)
            if self.who(args[0]) != 'self':
                return self.reach(nm, self.who(args[0]), args)
            if nm == self.f.short and h is not None and h is not self.f or nm not in own:
                return NotImplemented
            if fn == mangled_overrider(self.prog, self.c, {(k if isinstance(k, tuple) else (k, 0)): v for v, k in self.slots.items()}, nm) or self.derived(d, nm):
                return self.reach(nm, 'self', args)
            if h is None:                   # a step of a base class used as a helper
                return None
        if 'std::chrono::' in d and fn not in self.prog.fns and TW.match(i.get('t', '')):
            return Tok(('tok', 'clock', len(self.trace)))
        return NotImplemented
    def derived(self, d, nm):
        """a hook of a class derived from the one whose entry point is followed (the child named as a template argument)"""
        k = norm(d[:d.rindex('::' + nm)])
        todo, seen = [k, k.split(' ', 1)[-1]], set()
        while todo:
            x = todo.pop()
            if x in self.prog.structs and x not in seen:
                seen.add(x)
                todo += [b for b, _ in self.prog.structs[x]['bases']]
        return self.cls in seen and k != self.cls
    def vec(self, nm, d, args, i):
        m = re.search(r'std::(?:__cxx11::)?vector<(.+?), std::allocator', d)
        if not m or 'Buffer' not in m.group(1):
            return super().vec(nm, d, args, i)
        at, B = args[0], self.bsize
        isptr = lambda x: isinstance(x, tuple) and x[0] == 'p'
        moved = '&&' in (d.split('(', 1)[1] if '(' in d else '')
        empty = lambda: self.obj(('heap', 'empty', self.n), 0)[1]
        def put(p, q, take):
            """make a buffer at p from the one at q"""
            o, b = self.vget(q)
            if take:
                self.vset(p, o, b)
                self.vset(q, empty(), 0)
            else:
                z = self.heap(b)
                self.copy(z, ('p', o, 0), b)
                self.vset(p, z[1], b)
            for x, s in self.rest:
                self.copy(('p', p[1], p[2] + x), ('p', q[1], q[2] + x), s)
        def blank(p):
            self.vset(p, empty(), 0)
            for x, s in self.rest:
                self.mem[(p[1], p[2] + x)] = (Tok(('tok', 'default', x)), s)
        def clone(q):
            o, b = self.vget(q)
            z = self.heap(b)
            for k in range(0, b, B):
                put(('p', z[1], k), ('p', o, k), False)
            return z, b
        def resize(n):
            o, b = self.vget(at)
            if not 0 <= n < 4096:
                raise Top('a list of %s buffers' % n)
            z = self.heap(n * B)
            for k in range(min(n, b // B)):
                put(('p', z[1], k * B), ('p', o, k * B), True)
            for k in range(b // B, n):
                blank(('p', z[1], k * B))
            self.vset(at, z[1], n * B)
        if nm == 'vector':
            if len(args) == 1:
                return self.vset(at, empty(), 0)
            if isinstance(args[1], int) and len(args) <= 3:
                self.vset(at, empty(), 0)
                return resize(args[1])
            if isptr(args[1]) and (len(args) == 2 or len(args) == 3) and 'vector' in d.split('(')[-1]:
                if moved:
                    o, b = self.vget(args[1])
                    self.vset(at, o, b)
                    return self.vset(args[1], empty(), 0)
                z, b = clone(args[1])
                return self.vset(at, z[1], b)
            if isptr(args[1]) and args[1][1][:1] == ('stack',):
                return self.vset(at, empty(), 0)
            raise Top('a list of buffers made in an unknown way')
        if nm == '~vector':
            return
        if nm == 'operator=' and isptr(args[1]):
            if moved:
                o, b = self.vget(args[1])
                if args[1] != at:
                    self.vset(args[1], empty(), 0)
                self.vset(at, o, b)
            else:
                z, b = clone(args[1])
                self.vset(at, z[1], b)
            return at
        if nm == 'resize' and isinstance(args[1], int) and len(args) == 2:
            return resize(args[1])
        if nm in ('push_back', 'emplace_back'):
            n = self.vget(at)[1] // B
            resize(n + 1)
            p = ('p', self.vget(at)[0], n * B)
            if len(args) == 2:
                put(p, args[1], moved or '&&' in d.split('emplace_back', 1)[-1])
            elif len(args) > 2:
                raise Top('a buffer built in place')
            return p
        if nm == 'pop_back':
            return resize(self.vget(at)[1] // B - 1)
        if nm == 'clear':
            return resize(0)
        if nm in ('reserve', 'shrink_to_fit'):
            return
        if nm == 'swap' and isptr(args[1]):
            a, b = self.vget(at), self.vget(args[1])
            self.vset(at, *b)
            return self.vset(args[1], *a)
        raise Top('calls vector::%s' % nm)
    def go(self):
        self.run(self.f, [('p', 'self', 0 if self.this_primary() else self.base)])
        return self.trace
    def this_primary(self):
        return True

def variants(prog, c, f, slots, few=False, **kw):
    """one run for each number of inputs, also with one module linked several times"""
    col = collections(prog, fn_class(f))
    if few:
        yield Sim(prog, c, f, slots, **kw)
    elif 'inputs' in col:
        for n in COUNTS:
            yield Sim(prog, c, f, slots, n, **kw)
        for n in (0, 1):
            yield Sim(prog, c, f, slots, 3, same=True, length=n, **kw)
    else:
        for n in (3, 0, 1):
            yield Sim(prog, c, f, slots, length=n, **kw)

def either(first, second):
    """the path rule, and where it cannot see the form of the code, the abstract interpretation"""
    if first[0]:
        return first
    ok, det = second()
    return (True, det) + tuple(first[2:]) if ok else (first[0], first[1] + (' [%s]' % det if 'cannot be followed' not in det else '')) + tuple(first[2:])

def follow(prog, c, f, slots, test, **kw):
    """(ok, detail): test(sim) raises Top or returns a complaint for a run"""
    n = 0
    try:
        for s in variants(prog, c, f, slots, **kw):
            bad = test(s)
            if bad:
                return False, bad
            n += 1
    except (Top, Unknown, AnalysisError) as t:
        return False, 'cannot be followed: %s' % t
    except (KeyError, TypeError, AttributeError, IndexError, StopIteration, ValueError, RecursionError) as t:
        return False, 'cannot be followed (%s %s)' % (type(t).__name__, t)
    return True, 'followed for %d numbers and arrangements of neighbours, with all their values symbolic' % n

def wanted(s, c):
    k = upstream_want(c)
    return ['up'] if k == ['up'] else list(s.names) if k == ['inputs'] else []

def lifecycle(prog, c, f, slots, meta, hook, state=None):
    """every upstream neighbour asked once, then the own hook once, in the requested state"""
    def test(s):
        bad = []
        def on(nm, tgt):
            if nm == hook and tgt == 'self' and state is not None and s.mem.get(('self', s.base + s.state), (None,))[0] != state:
                bad.append('the own %s hook runs in another state' % hook)
        s.on = on
        tr = [t[:2] for t in s.go() if not t[1].startswith('param')]
        if bad:
            return bad[0]
        if state is not None:
            if s.mem.get(('self', s.base + s.state), (None,))[0] != state:
                return 'the module is left in another state'
            return None
        if sorted(tr[:-1]) != sorted((meta, x) for x in wanted(s, c)) or tr[-1:] != [(hook, 'self')]:
            return 'with %d inputs the calls are %s' % (len(s.names), tr[:6])
    return follow(prog, c, f, slots, test)

def handoff(prog, c, f, slots, periods=None):
    """pull, take and adopt the whole buffer, then process: once for each neighbour and period"""
    k = upstream_want(c)
    held = fn_class(f) == 'DurationEnvelope'       # hands on the envelope it manages
    def test(s):
        bad, rounds = [], periods if periods is not None else 1
        done = []
        def on(nm, tgt):
            if (nm, tgt) != ('process', 'self'):
                return
            done.append(1)
            if k == ['up']:
                at = ('self', s.base + s.BO)
                if s.buffer_tag(at) != ('up', len(done)):
                    bad.append('own buffer when processing: %s' % (s.buffer_tag(at),))
            elif k == ['inputs']:
                o, b = s.vget(('p', 'self', s.listo))
                tags = [s.buffer_tag((o, x)) for x in range(0, b, s.bsize)]
                want, ver = [], {}
                for x in s.names:
                    ver[x] = ver.get(x, 0) + 1
                    want.append((x, ver[x]))
                if sorted(map(str, tags)) != sorted(map(str, want)):
                    bad.append('%d buffers are kept for %d inputs' % (len([t for t in tags if t in want]), len(want)))
        s.on = on
        tr = [t[:2] for t in s.go() if not t[1].startswith('param')]
        if bad:
            return bad[0]
        if k == ['inputs']:
            own = [t for t in tr if t == ('process', 'self')]
            for x in dict.fromkeys(s.names):
                seq = [t[0] for t in tr if t[1] == x]
                if seq != ['meta_process', 'get_buffer'] * s.names.count(x):
                    return 'an input sees the calls %s' % seq[:5]
            ok = own == tr[-1:] and len(own) == 1 and all(t in own or t[1] in s.names for t in tr)
        elif held:
            at = s.buffer_tag(('self', s.base + s.BO))
            if at != ('held', 1):
                return 'own buffer after processing: %s' % (at,)
            ok = tr == [('meta_process', 'held'), ('get_buffer', 'held')]
        else:
            ok = tr == ([('meta_process', 'up'), ('get_buffer', 'up'), ('process', 'self')] if k else [('process', 'self')]) * rounds
        return None if ok else 'the calls are %s' % (tr[:8],)
    fields = {}
    if periods is not None:
        fields = {member_via(prog, 'wit_period'): (periods, 4)}
    return follow(prog, c, f, slots, test, fields=fields)

def handoff_any(prog, c, f, slots):
    if 'PeriodSink' in c.bases():
        for p in (0, 1, 2, 3, 4, 9, 33):
            r = handoff(prog, c, f, slots, p)
            if not r[0]:
                return r
        return r
    return handoff(prog, c, f, slots)

def given(prog, c, f, slots):
    """a function (module, buffer) that makes the buffer the module's own"""
    def test(s):
        s.obj('given', s.bsize)
        s.fresh_buffer(('given', 0), ('given', 1))
        s.run(f, [('p', 'self', 0), ('p', 'given', 0)])
        t = s.buffer_tag(('self', s.BO))
        return None if t == ('given', 1) else 'the own buffer is %s' % (t,)
    g = overrider(prog, c, slots, 'meta_process')
    return follow(prog, c, g, slots, test)

def propagates(prog, c, f, slots):
    bs = backward_static(c, prog)
    def test(s):
        tr = [t for t in s.go() if not t[1].startswith('param')]
        tr = [t for t in tr if not (t[0] == 'get_buffer')]
        linked = any(t == ('forward', 'up', 'self') for t in tr)
        core_ = [t[:2] for t in tr if t[0] != 'forward']
        if core_[:1] != [('info_sync', 'self')] or sorted(core_[1:]) != sorted(('meta_info_sync', x) for x in wanted(s, c)):
            return 'with %d inputs the calls are %s' % (len(s.names), core_[:6])
        if bs and bs[1] and wanted(s, c) and not (linked and tr.index(('forward', 'up', 'self')) < tr.index(('meta_info_sync', 'up'))):
            return 'a static neighbour is not linked first'
        if any(t[0] == 'forward' and t[2] != 'self' for t in tr):
            return 'a neighbour is given another forward module'
    return follow(prog, c, f, slots, test)

def untouched(s, before, but):
    return [k for k, v in before.items() if k not in but and s.mem.get(k) != v and not (isinstance(k[0], tuple) and k[0][0] in ('stack', 'heap'))]

def own_sync(prog, c, f, slots):
    for num in (0, 1, 2, 5, 77, 5000):
        def test(s):
            s.go()
            for k, (o, sz, ty) in s.ML.items():
                if s.mem.get(('self', s.base + s.info + o)) != s.mem[('fwd', s.info + o)] or s.mem[('fwd', s.info + o)][0] != (atom('fwd', k) if ty == 'double' else Tok(('tok', 'fwd', k))):
                    return 'the %s is not the one of the forward module' % k
            if s.mem.get(('self', s.base + s.chain), (None,))[0] != ('p', 'chain of fwd', 0):
                return 'the chain record is not the one of the forward module'
            for k, (o, sz, ty) in s.CL.items():
                v = s.mem[('chain of fwd', o)][0]
                w = num + 1 if k == 'module_num' else atom('chain of fwd', k) if ty == 'double' else Tok(('tok', 'chain of fwd', k))
                if v != w:
                    return 'the %s of the chain record becomes %s' % (k, v)
        r = follow(prog, c, f, slots, test, num=num)
        if not r[0]:
            return r
    return r

FROM = {'sample_rate': 'sample_rate', 'in_buffer': 'buffer_size', 'out_buffer': 'buffer_size', 'channels': 'channels'}
def sink_sync(prog, c, f, slots, fields=True):
    for num in (0, 1, 2, 5, 77, 5000):
        def test(s):
            s.go()
            b = s.base + s.inst
            for k, (o, sz, ty) in s.CL.items():
                w = 1 if k == 'module_num' else atom('record', k) if ty == 'double' else Tok(('tok', 'record', k))
                if s.mem[('self', b + o)][0] != w:
                    return 'the %s of the chain record becomes %s' % (k, s.mem[('self', b + o)][0])
            for k, (o, sz, ty) in s.ML.items():
                v = s.mem[('self', s.base + s.info + o)][0]
                if fields and v != (atom('record', FROM[k]) if ty == 'double' else Tok(('tok', 'record', FROM[k]))):
                    return 'the %s of the sink becomes %s' % (k, v)
        r = follow(prog, c, f, slots, test, num=num)
        if not r[0]:
            return r
    return r

def dump(s):
    """the fields of the module followed"""
    s.written.clear()
    return {k: v for k, v in s.mem.items() if k[0] in ('self', 'inputs')}

def changed(s, before, but=()):
    """fields that differ from before"""
    return [k for k, v in before.items() if s.mem.get(k) != v and k not in but] + [k for k in s.written if k[0] in ('self', 'inputs') and k not in before and k not in but]

def links(prog, c, f, slots):
    bs = backward_static(c, prog)
    kind = upstream_kind(c)
    fixed = bool(bs and bs[1] and kind != 'mixdown')
    def test(s):
        s.module('new', 1)
        for who in ('new', 'new') + (tuple(dict.fromkeys(s.names))[:2] * 2 if kind == 'mixdown' else ('up', 'up', 'fwd', 'new') if not fixed else ()):
            del s.trace[:]
            before = dump(s)
            r = s.run(f, [('p', 'self', 0), ('p', who, 0)])
            tr = [t for t in s.trace if not t[1].startswith('param')]
            if fixed:
                if tr or changed(s, before) or not (isinstance(r, tuple) and r[:2] == ('p', 'null')):
                    return 'a module with a static neighbour accepts a dynamic link'
                continue
            if tr != [('forward', who, 'self')]:
                return 'the calls are %s' % tr[:4]
            if s.who(r) != who:
                return 'link returns %s' % (r,)
            if kind == 'mixdown':
                at = ('p', 'self', collections(prog, s.cls)['inputs'][0])
                got = [s.who(x) for x in s.vcells(at)]
                if got != s.names + [who]:
                    return 'the inputs become %s' % got[:6]
                s.names = got
            else:
                if s.mem[('self', s.base + s.bo)][0] != ('p', who, 0):
                    return 'the backward module is %s' % (s.mem[('self', s.base + s.bo)][0],)
                if changed(s, before, [('self', s.base + s.bo)]):
                    return 'linking changes something else'
    return follow(prog, c, f, slots, test)

def forward_set(prog, c, f, slots, outputs=None):
    def test(s):
        s.module('new', 1)
        if outputs is not None:
            s.array('outs', [('p', 'fwd', 0)] * 2)
            s.vset(('p', 'self', outputs), 'outs', 16)
        at = ('self', s.base + s.fwdo)
        given = []
        for x in ('new', 'new', 'fwd', 'self', 'new', 'null', 'up', 'up'):
            before = dump(s)
            x = ('p', x, s.base if x == 'self' else 0)
            given.append(x)
            s.run(f, [('p', 'self', 0), x])
            if s.mem[at][0] not in (x, 0 if x[1] == 'null' else x):
                return 'the forward module is %s' % (s.mem[at][0],)
            own = [at] + [('self', outputs + k) for k in (0, 8, 16)] if outputs is not None else [at]
            if changed(s, before, own):
                return 'something else changes'
            if outputs is not None and s.vcells(('p', 'self', outputs)) != [('p', 'fwd', 0)] * 2 + given:
                return 'the outputs become %s' % (s.vcells(('p', 'self', outputs)),)
            if [t for t in s.trace if t[1] != 'self']:
                return 'calls %s' % s.trace[:3]
    return follow(prog, c, f, slots, test)

def forward_get(prog, c, f, slots):
    def test(s):
        for x in ('fwd', 'null', 'up', 'self'):
            x = ('p', x, s.base if x == 'self' else 0)
            s.mem[('self', s.base + s.fwdo)] = (x, 8)
            before = dump(s)
            if s.run(f, [('p', 'self', 0)]) != x or changed(s, before) or s.trace:
                return 'does not return the forward module'
    return follow(prog, c, f, slots, test)

def sink_assign(prog, c, f, slots):
    """assigning one sink to another, also to itself"""
    def test(s):
        s.module('other', 1)
        s.record(('other', s.inst), 1, 'record of other')
        s.mem[('other', s.chain)] = (('p', 'other', s.inst), 8)
        s.mem[('other', s.fwdo)] = (('p', 'fwd', 0), 8)
        s.mem[('other', s.bo)] = (('p', 'up', 0), 8)
        for b in ('self', 'other'):
            s.run(f, [('p', 'self', 0), ('p', b, 0)])
            v = s.mem[('self', s.chain)][0]
            if v != ('p', 'self', s.inst):
                return 'the chain pointer of the sink is %s' % (v,)
    return follow(prog, c, overrider(prog, c, slots, 'info_sync'), slots, test)

def mixes(prog, c, f, slots):
    """sums of several sets of buffers, position by position"""
    def test(s):
        ob, ch = s.case[0]
        for k, v in (('out_buffer', ob), ('channels', ch), ('in_buffer', ob + 7)):
            s.mem[('self', s.base + s.info + s.ML[k][0])] = (v, s.ML[k][1])
        p = s.heap(len(s.case[1]) * s.bsize)
        want = [num_of(0)] * (ob * ch)
        for j, n in enumerate(s.case[1]):
            cells = [atom('sample', j, k) for k in range(n)]
            s.vector(('p', p[1], j * s.bsize), cells)
            for o, z in s.rest:
                s.mem[(p[1], j * s.bsize + o)] = (Tok(('tok', 'buffer', j, o)), z)
            want = [w + cells[k] if k < n else w for k, w in enumerate(want)]
        s.vset(('p', 'self', s.listo), p[1], len(s.case[1]) * s.bsize)
        s.run(f, [('p', 'self', 0)])
        at = ('p', 'self', s.base + s.BO)
        got = s.vcells(at)
        if len(got) != len(want) or any(not isinstance(g, Poly) and g != 0 or Poly.of(g) != w for g, w in zip(got, want)):
            return 'with %d inputs and %d samples the mix is %s' % (len(s.case[1]), len(want), got[:3])
        BL = prog.layout(s.bname)
        if s.mem[('self', s.base + s.BO + BL['nchannels'][0])][0] != ch or s.mem[('self', s.base + s.BO + BL['sample_rate'][0])][0] != atom('self', 'sample_rate'):
            return 'the mix does not carry the configured channels and sample rate'
        if s.trace:
            return 'calls %s' % s.trace[:3]
    n = 0
    for ob, ch in ((3, 1), (1, 1), (2, 2), (5, 3), (0, 1), (17, 2)):
        z = ob * ch
        for lens in ((), (z,), (z, z), (z + 3, z), (z, max(0, z - 1)), (0, z), (0, 0, z + 1, 1), (z,) * 7, (z + 1, z + 2, z, max(0, z - 2), 0, z)):
            def one(s):
                s.case = ((ob, ch), lens)
                return test(s)
            r = follow(prog, c, f, slots, one, few=True)
            if not r[0]:
                return r
            n += 1
    return True, 'followed for %d sets of buffers, for all sample values' % n

def copies(prog, c, f, slots):
    """every consumer gets a whole copy and the own buffer stays"""
    def test(s):
        own = ('self', s.base + s.BO)
        k = next((o for kk, (o, z, ty) in s.lay.items() if kk.split('.')[-1] == 'tbuff'), None)
        if k is not None:
            s.fresh_buffer(('self', k), ('old', 0))
        for n in range(3):
            if n == 2:
                s.fresh_buffer(own, ('self', 1))
            r = s.run(f, [('p', 'self', 0)])
            if r[:2] == ('p', 'self') and r[2] == own[1]:
                return 'the own buffer itself is handed out'
            a, b = s.buffer_tag((r[1], r[2])), s.buffer_tag(own)
            if a != b or a != ('self', 1 if n == 2 else 0) or r[1] in s.dead:
                return 'hands out %s and keeps %s' % (a, b)
    return follow(prog, c, f, slots, test)
