"""W07 the memory streams transfer exactly the bytes asked for, inside their array."""
from bits import *
from fin import *
import itertools
LEVEL = 'other'
EXPLANATION = ('read and write of the memory streams are interpreted abstractly: the bytes of the array and of the caller stay symbolic, array size, position and count range over every combination up to a bound (all relative orders of position, end and count). '
               'Every byte moved is traced to the byte it comes from, every access is checked against the current array (a reallocated array invalidates old pointers) and the caller\'s count, and the final array, position and state are compared with the specification.')
ASSUMPTIONS = ['std::vector behaves as the standard says', 'counts are not negative when writing']
T = ('arg', 0)

class Arr(Interp):
    """the array is object ('arr', generation) of st.x['n'] bytes; the vector is at this+voff"""
    def __init__(self, f, voff, ioff, n, index, num, cap=None):
        super().__init__(f, args={2: cint(num & 0xffffffff, 32)}, limit=60000)
        self.voff, self.ioff, self.n, self.index, self.cap = voff, ioff, n, index, cap if cap is not None else n
    def place(self, st, n, gen):
        st.x['n'], st.x['gen'] = [n], [gen]
        for k, o in ((0, 0), (8, n), (16, max(n, self.cap))):
            st.store(('p', T, self.voff + k), ('p', ('arr', gen), o) if n or gen or True else None, 8)
    def run(self):
        st = State()
        self.place(st, self.n, 0)
        st.store(('p', T, self.ioff), cint(self.index, 64), 8)
        st.store(('p', T, 8), cint(1, 32), 4)
        return super().run(init=st)
    def step(self, st, i):
        if i['o'] in ('load', 'store'):
            p = self.opv(st, i['a'][0 if i['o'] == 'load' else 1], 'ptr')
            self.inside(st, p, i.get('ssz', 8))
        return super().step(st, i)
    def inside(self, st, p, n):
        if p[0] != 'p':
            raise Top('access through an unknown pointer')
        if p[1][0] == 'arr':
            if n and p[1] != ('arr', st.x['gen'][0]):
                raise Top('access through a pointer into an array that was reallocated')
            if p[2] is None or (n and not 0 <= p[2] <= st.x['n'][0] - n):
                raise Top('access at %s of an array of %d bytes' % (p[2], st.x['n'][0]))
        if p[1] == ('arg', 1) and n:
            num = value(self.args[2])
            if p[2] is None or not 0 <= p[2] <= num - n:
                raise Top('access at %s of the %d bytes of the caller' % (p[2], num))
    def resize(self, st, n, fill=None):
        old, gen = st.x['n'][0], st.x['gen'][0]
        if n > old:
            bs = [st.byte(('arr', gen), k) for k in range(old)]
            if n > self.cap:
                gen += 1
            for k, b in enumerate(bs):
                st.mem[(('arr', gen), k)] = b
            for k in range(old, n):
                st.mem[(('arr', gen), k)] = fill or ('raw', (0,) * 8)
            self.cap = max(self.cap, n)
        self.place(st, n, gen)
    def call(self, st, i):
        f = i.get('f', '')
        if re.match(r'llvm\.(memcpy|memmove)', f):
            a = [self.opv(st, x) for x in i['a'][:3]]
            n = value(a[2])
            if n is None:
                raise Top('copies an unknown number of bytes')
            self.inside(st, a[0], n)
            self.inside(st, a[1], n)
        if f.startswith('llvm.usub.sat'):
            x, y = [value(self.opv(st, q)) for q in i['a'][:2]]
            if x is not None and y is not None:
                st.val[i['i']] = cint(max(0, x - y), f and len(self.opv(st, i['a'][0])[1]))
                return
        return super().call(st, i)
    def on_call(self, st, i, args):
        d = i.get('d', '')
        if not i.get('f'):
            e = self.f.event(i)
            nm = e.name.split('::')[-1] if e.name else '?'
            st.x.setdefault('ops', []).append((nm,))
            if nm == 'stop':
                st.store(('p', T, 8), cint(2, 32), 4)
                return
            raise Top('calls %s' % nm)
        if re.search(r'C?har[IO]Stream::stop|BaseM\w*::stop', d):
            st.x.setdefault('ops', []).append(('stop',))
            st.store(('p', T, 8), cint(2, 32), 4)
            return
        if '::vector' in d and args[0] == ('p', T, self.voff):
            m = re.search(r'vector<.*?>>::(~?[\w=\[\] ]+)(<.*>)?\(', d)
            nm = m.group(1) if m else '?'
            n, gen = st.x['n'][0], st.x['gen'][0]
            if nm in ('push_back', 'emplace_back'):
                self.inside(st, args[1], 1)
                b = st.byte(args[1][1], args[1][2])
                self.resize(st, n + 1, b)
                return
            if nm in ('resize', '_M_default_append', '_M_erase_at_end') and len(args) >= 2:
                k = value(args[1]) if args[1][0] == 'i' else args[1][2] if args[1][1] == ('arr', gen) else None
                if k is None:
                    raise Top('resizes to an unknown size')
                fill = None
                if len(args) > 2 and args[2][0] == 'p':
                    fill = st.byte(args[2][1], args[2][2])
                self.resize(st, n + k if nm == '_M_default_append' else k, fill)
                return
            if nm == 'reserve':
                k = value(args[1])
                if k is None:
                    raise Top('reserves an unknown size')
                if k > self.cap:
                    old, self.cap = [st.byte(('arr', gen), q) for q in range(n)], k
                    for q, b in enumerate(old):
                        st.mem[(('arr', gen + 1), q)] = b
                    self.place(st, n, gen + 1)
                return
            if nm in ('insert', '_M_range_insert', '_M_insert_aux', '_M_fill_insert', '_M_assign_aux', 'assign') and len(args) >= 3:
                at, rng = (0, args[1:3]) if 'assign' in nm else (args[1][2] if args[1][0] == 'p' and args[1][1] == ('arr', gen) else None, args[2:4])
                if at is None:
                    raise Top('inserts at an unknown place')
                if rng[0][0] == 'p' and len(rng) > 1 and rng[1][0] == 'p' and rng[0][1] == rng[1][1]:
                    k = rng[1][2] - rng[0][2]
                    self.inside(st, rng[0], k)
                    new = [st.byte(rng[0][1], rng[0][2] + q) for q in range(k)]
                elif rng[0][0] == 'i' and len(rng) > 1 and rng[1][0] == 'p' and value(rng[0]) is not None:
                    new = [st.byte(rng[1][1], rng[1][2])] * value(rng[0])
                elif len(rng) == 1 and rng[0][0] == 'p':
                    new = [st.byte(rng[0][1], rng[0][2])]
                else:
                    raise Top('inserts something unknown')
                old = [st.byte(('arr', gen), q) for q in range(n)]
                full = new if 'assign' in nm else old[:at] + new + old[at:]
                self.resize(st, max(n, len(full)))
                self.resize(st, len(full))
                for q, b in enumerate(full):
                    st.mem[(('arr', st.x['gen'][0]), q)] = b
                if i.get('t') == 'ptr':
                    st.val[i['i']] = ('p', ('arr', st.x['gen'][0]), at)
                return
            if nm == 'clear':
                self.resize(st, 0)
                return
            raise Top('calls vector::%s' % nm)
        if re.match(r'^std::(__throw|__glibcxx)', d):
            return 'stop'
        if any(a[0] == 'p' and (a[1] == T or a[1][0] == 'arr') for a in args):
            raise Top('calls %s' % d[:80])

def offset(prog, name):
    f = prog.one('^%s$' % name)
    r = [drop_version(f.op(ex['a'][0])) for items, ex in ret_paths(f)]
    b = base_off(r[0])
    return b[1]

def constants(f):
    r = set()
    for b in f.blocks.values():
        for i in b['ins']:
            for o in i['a']:
                if isinstance(o, (list, tuple)) and o and o[0] == 'c' and isinstance(o[1], int) and 2 <= abs(o[1]) <= 1200:
                    r.add(abs(o[1]))
    return sorted(r)

def run(ctx):
    prog = ctx.program([r'^Char[IO]Stream::(read|write)\(', '^wit_c[io]_'], wits=('stream.cpp',), opaque=[r'^std::vector<.*>::(push_back|emplace_back|resize|reserve|insert|assign|clear|_M_\w*(insert|append|erase|assign)\w*|vector|~vector)'],
                       transparent=['^BaseM[IO]?Stream', '^Char[IO]Stream'], keep=[])
    A = lambda obj, k: ('raw', tuple(((('m', obj, k)), q) for q in range(8)))
    sizes = (0, 1, 3, 4) if ctx.tier == 'quick' else (0, 1, 2, 3, 4, 5, 9)
    for cls, io, wit in (('CharIStream', 'read', 'ci'), ('CharOStream', 'write', 'co')):
        voff = offset(prog, 'wit_%s_arr' % wit)
        f = prog.one('^wit_%s_seek$' % wit)
        ctx.fn(f)
        st = [e for b, e in f.all_events()]
        ok = len(st) == 1 and st[0].kind == 'store' and base_off(drop_version(st[0].addr))[0] == T
        ioff = base_off(drop_version(st[0].addr))[1] if ok else 40
        ctx.ob('seek', cls + '::seek', ok and drop_version(st[0].val) in (('arg', 1), ('sext', ('arg', 1)), ('sext64', ('arg', 1))) and st[0].ins.get('ssz') == 8, 'moves to the given position: %s' % st, f.where(None))
        for c, nbytes in (('ctor', 0), ('ctor_n', None)):
            f = prog.one('^wit_%s_%s$' % (wit, c))
            ctx.fn(f)
            for items, ex in ret_paths(f):
                es = list(walk_events(items))
                z = {base_off(drop_version(e.addr))[1]: drop_version(e.val) for e in es if e.kind == 'store' and base_off(drop_version(e.addr))[0] == T}
                v = [e for e in es if e.kind == 'call' and e.name == 'vector']
                ctx.ob('begin', cls + ' constructor', z.get(8) == I(0) and z.get(ioff) == I(0), 'begins in the initial state at position 0', f.where(None))
                if c == 'ctor_n':
                    ctx.ob('begin', cls + ' constructor', len(v) == 1 and drop_version(v[0].args[1]) in (('arg', 1), ('sext', ('arg', 1))), 'an array of the given size', f.where(None))
        f = prog.one(r'^%s::%s\(' % (cls, io))
        ctx.fn(f)
        cases = 0
        lits = constants(f)        # sizes around every constant the code compares with
        grid = [(n, sorted({0, 1, n - 1, n, n + 1, n + 3} - {-1}), sizes + ((-1, 7) if io == 'read' else (7,)), (0, 3)) for n in sizes]
        grid += [(70, (0, 5, 33, 69, 70, 71), (0, 1, 36, 40, 70, 200), (0, 100))]
        grid += [(2 * c + 4, (0, c - 1, c, c + 1, 2 * c + 4), (0, 1, c - 1, c, c + 1, 2 * c + 5), (0,)) for c in lits]
        for n, ixs, nums, slacks in grid:
            bad = {}
            for index, num, slack in itertools.product(ixs, nums, slacks):
                cases += 1
                d = None
                try:
                    a = Arr(f, voff, ioff, n, index, num, n + slack)
                    res = a.run()
                    if a.cut or len(res) != 1:
                        raise Top('%d ways' % len(res))
                    st = res[0][0]
                    g, m = ('arr', st.x['gen'][0]), st.x['n'][0]
                    now = [st.byte(g, k) for k in range(m)]
                    pos = value(st.load(('p', T, ioff), 8, 'i64', None))
                    state = value(st.load(('p', T, 8), 4, 'i32', None))
                    orig = [A(('arr', 0), k) for k in range(n)]
                    out = {k[1]: b for k, b in st.mem.items() if k[0] == ('arg', 1)}
                    if io == 'read':
                        cnt = min(max(num, 0), max(0, n - index))
                        if out != {k: orig[index + k] for k in range(cnt)}:
                            d = 'delivers other bytes than the next %d' % cnt
                        elif now != orig:
                            d = 'changes the array'
                        elif pos != index + cnt:
                            d = 'moves to %s' % pos
                        elif (state == 2) != (cnt < num or num < 0) or state not in (1, 2):
                            d = 'leaves state %s after %d of %d bytes' % (state, cnt, num)
                    else:
                        num_ = max(num, 0)
                        want = (orig + [('raw', (0,) * 8)] * max(0, index - n))[:index] + [A(('arg', 1), k) for k in range(num_)] + orig[index + num_:]
                        if num_ == 0 and now == orig:
                            want = orig            # nothing to write: the gap need not be filled
                        if out:
                            d = 'changes the bytes of the caller'
                        elif now != want:
                            d = 'the array becomes %d bytes instead of %d' % (len(now), len(want)) if len(now) != len(want) else 'byte %d of the array is wrong' % next(k for k in range(len(now)) if now[k] != want[k])
                        elif pos != index + num_:
                            d = 'moves to %s' % pos
                        elif state != 1:
                            d = 'leaves state %s' % state
                except Top as t:
                    d = str(t)
                if d:
                    bad.setdefault(d, 'at %d, %d bytes: %s' % (index, num, d))
            ctx.ob(io, '%s::%s array of %d bytes' % (cls, io, n), not bad, '; '.join(list(bad.values())[:3]) or 'bytes, array, position and state as specified', f.where(None))
        ctx.need('cases of %s' % io, cases, 40)
