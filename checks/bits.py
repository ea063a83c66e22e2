"""Bit-provenance abstract interpretation of IR functions: every integer is a vector of bits, each 0, 1, a named input bit or unknown;
memory is a map from (object, offset) to bytes.  Branches on unknown bits fork.  Nothing is executed: inputs stay symbolic bits."""
from genlib import *

class Top(Exception):
    pass

def cint(v, w):
    return ('i', tuple((v >> k) & 1 for k in range(w)))
def sym(name, w):
    return ('i', tuple((name, k) for k in range(w)))
def unk(w):
    return ('i', (None,) * w)
def value(v):
    """the constant of an abstract integer or None"""
    if v[0] != 'i' or any(b not in (0, 1) for b in v[1]):
        return None
    return sum(b << k for k, b in enumerate(v[1]))
def signed(v):
    n = value(v)
    return None if n is None else n - (1 << len(v[1])) if v[1] and v[1][-1] == 1 else n
def linear(v):
    """linear form {name: coefficient, 1: constant} (mod 2^w) of an abstract integer, or None"""
    w, b = len(v[1]), v[1]
    n = value(v)
    if n is not None:
        return {1: n}
    if any(x in (0, 1, None) for x in b):
        return None
    nm, k0 = b[0]
    if k0 != 0:
        return None
    if isinstance(nm, tuple) and nm[0] in ('m', 'in') and w > 8 and w % 8 == 0:
        if all(b[8 * q + k] == (nm[:-1] + (nm[-1] + q,), k) for q in range(w // 8) for k in range(8)):
            return {nm + (w,): 1}
        return None
    if b != tuple((nm, k) for k in range(w)):
        return None
    if isinstance(nm, tuple) and nm[0] == 'lin' and nm[1] == w:
        return dict(nm[2])
    return {nm + (w,) if isinstance(nm, tuple) and nm[0] in ('m', 'in') else nm: 1}
def lin(d, w):
    M = 1 << w
    d = {k: c % M for k, c in d.items() if c % M}
    if not d:
        return cint(0, w)
    if set(d) == {1}:
        return cint(d[1], w)
    if len(d) == 1 and list(d.values()) == [1]:
        nm = list(d)[0]
        if isinstance(nm, tuple) and nm[0] in ('m', 'in') and nm[-1] == w:
            return ('i', tuple((nm[:-2] + (nm[-2] + q,), k) for q in range(w // 8) for k in range(8)))
        return sym(nm, w)
    return sym(('lin', w, tuple(sorted(d.items(), key=repr))), w)
def bytes_of(v):
    return [v[1][k:k + 8] for k in range(0, len(v[1]), 8)]

TW = re.compile(r'^i(\d+)$')

OPP = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
def canon(c):
    """(bit, negated) of an abstract truth value"""
    b, neg = c[1][0], 0
    while isinstance(b, tuple) and isinstance(b[0], tuple) and b[0][0] == 'not':
        b, neg = b[0][1], 1 - neg
    if isinstance(b, tuple) and isinstance(b[0], tuple) and b[0][0] == 'op' and b[0][1] in ('ne', 'sge', 'sgt', 'uge', 'ugt'):
        b, neg = ((('op', OPP[b[0][1]]) + b[0][2:]), b[1]), 1 - neg
    return b, neg
def decided(st, c):
    """truth of a condition already decided on this path"""
    if c[0] != 'i' or len(c[1]) != 1 or c[1][0] in (0, 1, None):
        return None
    b, neg = canon(c)
    v = st.x.get('known', {}).get(b)
    return None if v is None else v ^ neg
def decide(st, c, v):
    if c[0] == 'i' and len(c[1]) == 1 and c[1][0] not in (0, 1, None):
        b, neg = canon(c)
        st.x.setdefault('known', {})[b] = v ^ neg

class Interp:
    def __init__(self, f, args=None, limit=4000, vec_summary=True):
        self.f, self.args, self.limit, self.cut = f, args or {}, limit, []

    def run(self, start=None, stops=(), skip=None, init=None):
        """[(state, return value, conditions)] for every path; state has .mem, .events.
        With start, interpretation begins at that block (values computed before it are symbolic); a path ends with ('to', block, from) when it
        reaches a block of stops.  skip maps headers of loops that are summarised elsewhere to (exit block, target); they are recorded as ('loop', header)."""
        st = init or State()
        skip = skip or {}
        for a in self.f.j['args']:
            k = self.f.argidx[a['id']]
            m = TW.match(a['t'])
            st.val[a['id']] = self.args[k] if k in self.args else ('p', ('arg', k), 0) if a['t'] == 'ptr' else sym(('arg', k), int(m.group(1))) if m else ('o', ('arg', k))
        if start is not None:
            reach, td = set(), [start]
            while td:
                b = td.pop()
                if b not in reach:
                    reach.add(b)
                    td += self.f.succ[b]
            for b in sorted(self.f.blocks):
                if b not in reach or b == start or b in stops:
                    for i in self.f.blocks[b]['ins']:
                        if b != start and i['o'] in ('getelementptr', 'load', 'sext', 'zext', 'trunc', 'freeze', 'bitcast', 'add', 'sub', 'mul', 'shl', 'icmp', 'alloca', 'sdiv', 'udiv'):
                            self.step(st, i)        # hoisted out of the loop: fields it reads do not change inside
                        elif 't' in i and (b != start or i['o'] == 'phi'):
                            m = TW.match(i['t'])
                            nm = (i['o'] if i['o'] in ('phi', 'alloca') else 'pre', i['i'])
                            st.val.setdefault(i['i'], ('p', nm, 0) if i['t'] == 'ptr' else sym(nm, int(m.group(1))) if m else ('o', nm))
        out, todo, steps = [], [(min(self.f.blocks) if start is None else start, None, st)], 0
        while todo:
            b, prev, st = todo.pop()
            while True:
                steps += 1
                if steps > self.limit:
                    raise Top('too many steps in %s' % self.f.dem)
                ph, nxt = {}, None
                for i in self.f.blocks[b]['ins']:
                    if i['o'] == 'phi' and prev is not None:
                        o = next(x[0] for x in i['a'] if x[1] == prev)
                        ph[i['i']] = self.opv(st, o, i['t'])
                st.val.update(ph)
                stop = False
                for i in self.f.blocks[b]['ins']:
                    if i['o'] == 'phi':
                        continue
                    if 'su' in i or i['o'] in ('ret', 'unreachable', 'resume'):
                        if i['o'] == 'ret':
                            r = self.opv(st, i['a'][0], self.f.j['ret']) if i['a'] else None
                            out.append((st, r, st.conds))
                            stop = True
                        elif i['o'] == 'br' and len(i['su']) == 2:
                            c = self.opv(st, i['a'][0], 'i1')
                            n = value(c)
                            if n is None:
                                n = decided(st, c)
                            if n is None:
                                h = st.forks.get(b, 0)
                                if h >= 3:          # a loop of unknown length: the analysed prefix ends here
                                    st.cut = True
                                    self.cut.append(st)
                                    stop = True
                                    break
                                st.forks[b] = h + 1
                                s2 = st.clone()
                                s2.conds = s2.conds + [(i, c, 0)]
                                decide(s2, c, 0)
                                decide(st, c, 1)
                                todo.append((i['su'][1], b, s2))
                                st.conds = st.conds + [(i, c, 1)]
                                nxt = i['su'][0]
                                if len(todo) > 64:
                                    raise Top('too many paths in %s' % self.f.dem)
                            else:
                                nxt = i['su'][0 if n else 1]
                        elif i['o'] == 'br':
                            nxt = i['su'][0]
                        elif i['o'] == 'switch':
                            c = self.opv(st, i['a'][0], 'i32')
                            n = signed(c)
                            if n is None:
                                if self.opaque_switch(st, i, c):
                                    for v, tg in i['cases']:
                                        s2 = st.clone()
                                        s2.conds = s2.conds + [(i, c, ('case', v))]
                                        todo.append((tg, b, s2))
                                    st.conds = st.conds + [(i, c, ('other', tuple(v for v, _ in i['cases'])))]
                                    nxt = i['def']
                                else:
                                    raise Top('switch on unknown')
                            else:
                                nxt = dict(i['cases']).get(n, i['def'])
                        elif i['o'] == 'invoke':
                            self.call(st, i)
                            nxt = i['su'][0]
                        elif i['o'] in ('unreachable', 'resume'):
                            stop = True
                        else:
                            raise Top('terminator %s' % i['o'])
                        break
                    if self.step(st, i) == 'stop':
                        stop = True
                        break
                if stop:
                    break
                prev, b = b, nxt
                if b in skip:
                    st.x.setdefault('ops', []).append(('loop', b, None, None, None))
                    self.skipped(st, b)
                    for i in self.f.blocks[b]['ins']:
                        if i['o'] == 'phi':
                            st.val[i['i']] = self.loopphi(st, i)
                    prev, b = skip[b]
                if b in stops:
                    out.append((st, ('to', b, prev), st.conds))
                    break
        return out

    def opaque_switch(self, st, i, c):
        return False
    def diff(self, st, x, y, w):
        return sym(('diff', x[1:], y[1:]), w)
    def skipped(self, st, header):
        pass
    def loopphi(self, st, i):
        m = TW.match(i['t'])
        return unk(int(m.group(1))) if m else ('o', ('phi', i['i']))
    def other(self, st, i, o, w, *xs):
        """value of an operation outside the exact domain"""
        return unk(w)

    # ---- operands
    def opv(self, st, o, ty='i64'):
        k = o[0]
        if k == 'v':
            if o[1] not in st.val:
                return ('o', ('undef', o[1]))
            return st.val[o[1]]
        if k == 'c':
            return cint(o[1], o[2])
        if k == 'n':
            return ('p', ('null',), 0)
        if k == 'g':
            return ('p', ('gl', o[1]), 0)
        if k == 'e' and o[1] == 'gepc':
            b = self.opv(st, o[2][0], 'ptr')
            return ('p', b[1], None if b[2] is None else b[2] + o[2][1][1])
        if k in ('u', 'p', 'z'):
            m = TW.match(ty)
            return (cint(0, int(m.group(1))) if k == 'z' else unk(int(m.group(1)))) if m else ('o', (k,))
        return ('o', tuple(map(str, o)))

    def width(self, i, k=0):
        return self.f.width(i['a'][k])

    # ---- instructions
    def step(self, st, i):
        o, a = i['o'], i['a']
        t = i.get('t', '')
        w = TW.match(t)
        w = int(w.group(1)) if w else None
        if o in ('call',):
            return self.call(st, i)
        if o == 'store':
            p = self.opv(st, a[1], 'ptr')
            st.store(p, self.opv(st, a[0], i.get('st', '')), i.get('ssz', 8), i)
            return
        if o == 'load':
            p = self.opv(st, a[0], 'ptr')
            st.val[i['i']] = st.load(p, i.get('ssz', 8), t, i)
            return
        if o == 'alloca':
            st.val[i['i']] = ('p', ('alloca', i['i']), 0)
            return
        if o == 'getelementptr':
            p = self.opv(st, a[0], 'ptr')
            if p[0] != 'p' or 'gep' not in i:
                st.val[i['i']] = ('o', ('gep', i['i']))
                return
            off = p[2]
            if off is not None:
                off += i['gep'][0]
                for x, s in i['gep'][1]:
                    n = signed(self.opv(st, x))
                    if n is None:
                        off = None
                        break
                    off += n * s
            st.val[i['i']] = ('p', p[1], off)
            return
        if o in ('bitcast', 'freeze', 'addrspacecast', 'ptrtoint', 'inttoptr'):
            st.val[i['i']] = self.opv(st, a[0], t)
            return
        if w is None and o != 'select':
            st.val[i['i']] = ('o', ('ins', i['i']))
            return
        x = self.opv(st, a[0], t) if a else None
        y = self.opv(st, a[1], t) if len(a) > 1 else None
        r = None
        if o == 'select':
            n = value(x)
            z = self.opv(st, a[2], t)
            if n is not None:
                r = y if n else z
            elif y == z:
                r = y
            elif w is not None and y[0] == z[0] == 'i':
                r = ('i', tuple(p if p == q else None for p, q in zip(y[1], z[1])))
                if None in r[1]:
                    q = self.other(st, i, 'select', w, x, y, z)
                    r = q if None not in q[1] else r
            else:
                r = ('o', ('ins', i['i']))
            st.val[i['i']] = r
            return
        if x is None or x[0] != 'i' or (y is not None and y[0] != 'i'):
            if o == 'icmp' and x and y and x[0] == 'p' and y[0] == 'p':
                r = self.pcmp(i['p'], x, y)
            elif o == 'sub' and x and y and x[0] == 'p' and y[0] == 'p' and x[1] == y[1] and None not in (x[2], y[2]):
                r = cint(x[2] - y[2], w)
            elif o == 'sub' and x and y and x[0] == 'p' and y[0] == 'p' and None not in (x[2], y[2]):
                r = self.diff(st, x, y, w)
            st.val[i['i']] = r or unk(w)
            return
        X = x[1]
        if o == 'zext':
            r = ('i', X + (0,) * (w - len(X)))
        elif o == 'sext':
            r = ('i', X + (X[-1],) * (w - len(X)))
        elif o == 'trunc':
            r = ('i', X[:w])
        elif o in ('shl', 'lshr', 'ashr'):
            n = value(y)
            if n is not None and n < w:
                r = ('i', ((0,) * n + X[:w - n]) if o == 'shl' else X[n:] + ((0 if o == 'lshr' else X[-1]),) * n)
        elif o in ('and', 'or', 'xor'):
            def g(p, q):
                if o == 'and':
                    return 0 if 0 in (p, q) else q if p == 1 else p if q == 1 else p if p == q else None
                if o == 'or':
                    return 1 if 1 in (p, q) else q if p == 0 else p if q == 0 else p if p == q else None
                return q if p == 0 else p if q == 0 else (0 if p is not None and p == q else (p ^ q) if p in (0, 1) and q in (0, 1) else None)
            r = ('i', tuple(g(p, q) if None not in (p, q) or o != 'xor' else None for p, q in zip(X, y[1])))
        elif o in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem'):
            n, m = value(x), value(y)
            if n is not None and m is not None:
                sn, sm = signed(x), signed(y)
                if o in ('udiv', 'sdiv', 'urem', 'srem') and m == 0:
                    raise Top('division by zero')
                v = n + m if o == 'add' else n - m if o == 'sub' else n * m if o == 'mul' else n // m if o == 'udiv' else n % m if o == 'urem' else \
                    (int(abs(sn) // abs(sm)) * (1 if (sn < 0) == (sm < 0) else -1)) if o == 'sdiv' else sn - sm * (int(abs(sn) // abs(sm)) * (1 if (sn < 0) == (sm < 0) else -1))
                r = cint(v & ((1 << w) - 1), w)
            elif o == 'add' and all(0 in (p, q) for p, q in zip(X, y[1])):      # no carries
                r = ('i', tuple(q if p == 0 else p for p, q in zip(X, y[1])))
            elif o in ('add', 'sub') and m == 0:
                r = x
            elif o == 'add' and n == 0:
                r = y
            elif o == 'mul' and m is not None and m & (m - 1) == 0 and m:
                k = m.bit_length() - 1
                r = ('i', (0,) * k + X[:w - k])
            elif o == 'mul' and n is not None and n & (n - 1) == 0 and n:
                k = n.bit_length() - 1
                r = ('i', (0,) * k + y[1][:w - k])
            elif o == 'udiv' and m is not None and m & (m - 1) == 0 and m:
                k = m.bit_length() - 1
                r = ('i', X[k:] + (0,) * k)
            elif o == 'urem' and m is not None and m & (m - 1) == 0 and m:
                k = m.bit_length() - 1
                r = ('i', X[:k] + (0,) * (w - k))
            if r is None and o in ('add', 'sub', 'mul'):
                p, q = linear(x), linear(y)
                if p is not None and q is not None:
                    if o == 'mul' and (set(p) == {1} or set(q) == {1}):
                        if set(p) == {1}:
                            p, q = q, p
                        r = lin({k: c * q.get(1, 0) for k, c in p.items()}, w)
                    elif o != 'mul':
                        s = -1 if o == 'sub' else 1
                        r = lin({k: p.get(k, 0) + s * q.get(k, 0) for k in set(p) | set(q)}, w)
                    else:
                        r = self.other(st, i, 'mul', w, x, y)
                        if None in r[1]:
                            a_, b_ = sorted([repr(sorted(p.items(), key=repr)), repr(sorted(q.items(), key=repr))])
                            r = sym(('prod', a_, b_), w)
        elif o == 'icmp':
            n, m = value(x), value(y)
            p = i['p']
            if n is not None and m is not None:
                if p[0] == 's':
                    n, m = signed(x), signed(y)
                v = {'eq': n == m, 'ne': n != m}.get(p)
                if v is None:
                    v = {'lt': n < m, 'le': n <= m, 'gt': n > m, 'ge': n >= m}[p[1:]]
                r = cint(int(v), 1)
            elif p in ('eq', 'ne'):
                if any(s in (0, 1) and t in (0, 1) and s != t for s, t in zip(X, y[1])):
                    r = cint(int(p == 'ne'), 1)
                elif x == y and None not in X:
                    r = cint(int(p == 'eq'), 1)
        if r is None or None in r[1]:
            q = self.other(st, i, i['p'] if o == 'icmp' else o, w, x, y) if y is not None else None
            r = q if q is not None and None not in q[1] else r
        st.val[i['i']] = r or unk(w)

    def pcmp(self, p, x, y):
        if x == y and x[2] is not None:
            return cint(int(p in ('eq', 'ule', 'uge', 'sle', 'sge')), 1)
        if x[1] == y[1] and None not in (x[2], y[2]):
            n, m = x[2], y[2]
            v = {'eq': n == m, 'ne': n != m}.get(p)
            if v is None:
                v = {'lt': n < m, 'le': n <= m, 'gt': n > m, 'ge': n >= m}[p[1:]]
            return cint(int(v), 1)
        if p in ('eq', 'ne') and ('null',) in (x[1], y[1]) and any(z[1][0] == 'alloca' for z in (x, y)):
            return cint(int(p == 'ne'), 1)
        return unk(1)

    # ---- calls
    def call(self, st, i):
        if i.get('noret'):
            return 'stop'
        f, d = i.get('f', ''), i.get('d', '')
        w = TW.match(i.get('t', ''))
        args = [self.opv(st, x) for x in i['a']]
        if f.startswith('llvm.'):
            b = re.sub(r'\.(i\d+|f\d+|p\d+)(?=\.|$)', '', f)[5:]
            if b in ('memcpy', 'memmove', 'memcpy.inline'):
                n = value(args[2])
                st.copy(args[0], args[1], n, i)
                return
            if b == 'memset':
                n = value(args[2])
                st.fill(args[0], args[1], n, i)
                return
            if b.endswith('invariant.group'):
                st.val[i['i']] = args[0]
                return
            if b == 'bswap' and args[0][0] == 'i':
                bs = bytes_of(args[0])
                st.val[i['i']] = ('i', tuple(x for y in reversed(bs) for x in y))
                return
            if b in ('umin', 'umax', 'smin', 'smax') and None not in (value(args[0]), value(args[1])):
                n, m = (signed(args[0]), signed(args[1])) if b[0] == 's' else (value(args[0]), value(args[1]))
                st.val[i['i']] = cint((min if b.endswith('min') else max)(n, m) & ((1 << int(w.group(1))) - 1), int(w.group(1)))
                return
            if b == 'fshl' and None not in (value(args[2]),):
                n, W = value(args[2]), int(w.group(1))
                n %= W
                z = args[1][1] + args[0][1]
                st.val[i['i']] = ('i', z[W - n:2 * W - n] if n else args[0][1])
                return
            if b == 'expect':
                st.val[i['i']] = args[0]
                return
            if b == 'type.test' or b == 'public.type.test':
                st.val[i['i']] = cint(1, 1)
                return
            if b in ('lifetime.start', 'lifetime.end', 'assume', 'experimental.noalias.scope.decl', 'stackrestore'):
                return
            if b in ('umin', 'umax', 'smin', 'smax', 'abs') and w:
                st.val[i['i']] = self.other(st, i, b, int(w.group(1)), *args[:2])
                return
        st.val.pop(i['i'], None)
        self.on_call(st, i, args)
        if 't' in i and i['i'] not in st.val:
            st.val[i['i']] = unk(int(w.group(1))) if w else ('p', ('ret', i['i'], len(st.events)), 0) if i['t'] == 'ptr' else ('o', ('ins', i['i']))

    def on_call(self, st, i, args):
        st.events.append((i, args, dict(st.mem)))

class State:
    def __init__(self):
        self.val, self.mem, self.events, self.conds, self.gen, self.whole, self.forks, self.x = {}, {}, [], [], 0, {}, {}, {}
    def clone(self):
        s = State()
        s.val, s.mem, s.events, s.conds, s.gen, s.whole = dict(self.val), dict(self.mem), list(self.events), list(self.conds), self.gen, dict(self.whole)
        s.forks, s.x = dict(self.forks), {k: list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v for k, v in self.x.items()}
        return s
    def byte(self, base, off):
        m = self.mem.get((base, off))
        if m is not None:
            return m
        if self.whole.get(base):
            return ('raw', (None,) * 8)
        return ('raw', tuple((('m', base, off), k) for k in range(8)))
    def store(self, p, v, n, i=None):
        if p[0] != 'p' or p[2] is None:
            if p[0] == 'p':
                self.havoc(p[1])
                return
            raise Top('store through an unknown pointer')
        if v[0] == 'i':
            b = v[1] + (0,) * (8 * n - len(v[1]))
            for k in range(n):
                self.mem[(p[1], p[2] + k)] = ('raw', tuple(b[8 * k:8 * k + 8]))
        else:
            for k in range(n):
                self.mem[(p[1], p[2] + k)] = ('part', v, k, n)
    def load(self, p, n, t, i):
        m = TW.match(t)
        if p[0] != 'p' or p[2] is None:
            return unk(int(m.group(1))) if m else ('o', ('ld', i['i']))
        bs = [self.byte(p[1], p[2] + k) for k in range(n)]
        if bs[0][0] == 'part' and all(b[0] == 'part' and b[1] == bs[0][1] and b[2] == k and b[3] == n for k, b in enumerate(bs)):
            return bs[0][1]
        if m:
            r = []
            for b in bs:
                r += list(b[1]) if b[0] == 'raw' else [None] * 8
            return ('i', tuple(r[:int(m.group(1))]))
        if t == 'ptr':
            if all(b[0] == 'raw' and b[1][0] not in (0, 1, None) for b in bs) and bs[0][1][0][0] == ('m', p[1], p[2]):
                return ('p', ('deref', p[1], p[2]), 0)
            if all(b[0] == 'raw' and b[1] == (0,) * 8 for b in bs):
                return ('p', ('null',), 0)
        return ('o', ('ld', i['i']))
    def havoc(self, base):
        self.whole[base] = True
        for k in [k for k in self.mem if k[0] == base]:
            del self.mem[k]
    def copy(self, d, s, n, i):
        if d[0] != 'p':
            raise Top('copy to an unknown pointer')
        if n is None or d[2] is None or s[0] != 'p' or s[2] is None:
            self.havoc(d[1])
            return
        bs = [self.byte(s[1], s[2] + k) for k in range(n)]
        for k in range(n):
            self.mem[(d[1], d[2] + k)] = bs[k]
    def fill(self, d, v, n, i):
        if d[0] != 'p':
            raise Top('fill of an unknown pointer')
        if n is None or d[2] is None or n > 1 << 16:
            self.havoc(d[1])
            return
        for k in range(n):
            self.mem[(d[1], d[2] + k)] = ('raw', v[1][:8]) if v[0] == 'i' else ('raw', (None,) * 8)

# ---- models of the library objects the stream code uses
def cstr(prog, g):
    return prog.globals.get(g, {}).get('str')

class StreamInterp(Interp):
    """adds std::string contents and the stream interface: read() yields numbered stream bytes, write() appends the bytes written"""
    def __init__(self, f, args=None, keepnames=()):
        super().__init__(f, args)
        self.prog = f.prog

    def strp(self, p):
        return ('str', p[1], p[2])

    def on_call(self, st, i, args):
        d, f = i.get('d', ''), i.get('f')
        x = st.x
        if f is None:
            e = self.f.event(i)
            if e.kind == 'vcall' and e.name:
                nm = e.name.split('::')[-1]
                if nm == 'read' and len(args) == 3:
                    n, pos = value(args[2]), x.get('pos', 0)
                    x.setdefault('ops', []).append(('read', pos, args[1], n if n is not None else args[2], i))
                    if n is None or pos is None:
                        if args[1][0] == 'p':
                            st.havoc(args[1][1])
                        x['pos'] = None
                    else:
                        for k in range(n):
                            st.mem[(args[1][1], args[1][2] + k)] = ('raw', tuple((('in', pos + k), q) for q in range(8)))
                        x['pos'] = pos + n
                    return
                if nm == 'write' and len(args) == 3:
                    n = value(args[2])
                    bs = None
                    if n is not None and args[1][0] == 'p' and args[1][2] is not None:
                        bs = [st.byte(args[1][1], args[1][2] + k) for k in range(n)]
                    x.setdefault('ops', []).append(('write', bs, args[1], n if n is not None else args[2], i))
                    return
                x.setdefault('ops', []).append((nm, None, args[0], args[1] if len(args) > 1 else None, i))
                return
            x.setdefault('ops', []).append(('?', None, None, None, i))
            return
        if 'basic_string' in d and not d.startswith('std::operator'):
            if self.string(st, i, args, d):
                return
        elif d.startswith(('std::operator==', 'bool std::operator==', 'std::operator!=')):
            return
        elif d.startswith(('std::allocator', 'std::__new_allocator', 'std::char_traits', 'operator delete', 'std::length', 'memcmp', 'strlen')):
            return
        x.setdefault('ops', []).append(('call', d, args, None, i))

    def string(self, st, i, args, d):
        m = re.match(r'^.*basic_string<.*?>::(~?[\w=\[\] ]+?)(<.*>)?\((.*)\)', re.sub(r'basic_string<char, std::char_traits<char>, std::allocator<char>\s?>', 'basic_string<C>', d))
        if not m or not args or args[0][0] != 'p':
            return False
        nm, par = m.group(1).strip(), m.group(3)
        S = self.strp(args[0])
        L = st.x.setdefault('len', {})
        def setb(bs):
            for k, b in enumerate(bs):
                st.mem[(S, k)] = b
            L[S] = len(bs)
        def content(p):
            o = self.strp(p)
            n = L.get(o)
            return [st.byte(o, k) for k in range(n if n is not None else 16)], n
        if nm in ('data', 'c_str', 'begin', 'cbegin', 'front', '_M_data'):
            st.val[i['i']] = ('p', S, 0)
            return True
        if nm in ('operator[]', 'at'):
            n = value(args[1])
            st.val[i['i']] = ('p', S, n)
            return True
        if nm in ('size', 'length'):
            n = L.get(S)
            st.val[i['i']] = cint(n, 64) if n is not None else sym(('len', S), 64)
            return True
        if nm in ('basic_string', 'operator=', 'assign', '_M_assign'):
            if len(args) >= 2 and args[1][0] == 'p' and 'char const*' in par:
                src = args[1]
                n = value(args[2]) if len(args) > 2 and args[2][0] == 'i' else None
                if src[1][0] == 'gl':
                    t = cstr(self.prog, src[1][1])
                    if t is not None:
                        t = t[src[2]:]
                        setb([('raw', cint(ord(c), 8)[1]) for c in (t if n is None else t[:n])])
                        if nm != 'basic_string':
                            st.val[i['i']] = args[0]
                        return True
                if n is not None and src[2] is not None:
                    setb([st.byte(src[1], src[2] + k) for k in range(n)])
                    if nm != 'basic_string':
                        st.val[i['i']] = args[0]
                    return True
            elif len(args) >= 2 and args[1][0] == 'p' and 'basic_string' in par:
                bs, n = content(args[1])
                for k, b in enumerate(bs):
                    st.mem[(S, k)] = b
                if n is None:
                    L.pop(S, None)
                else:
                    L[S] = n
                if nm != 'basic_string':
                    st.val[i['i']] = args[0]
                return True
            elif len(args) == 1:
                L[S] = 0
                return True
            st.havoc(S)
            return True
        if nm.startswith('~'):
            return True
        return False


# ---- symbolic operations and their value for given inputs
class SegInterp(StreamInterp):
    """keeps operations outside the exact domain as symbolic terms over their abstract operands; strings compared with literals become symbolic bits"""
    def __init__(self, f, args=None, total=None, skipname=None):
        super().__init__(f, args)
        self.total, self.skipname = total, skipname
    def other(self, st, i, o, w, *xs):
        if any(x is None or x[0] != 'i' or None in x[1] for x in xs):
            return unk(w)
        return sym(('op', o, w) + tuple(xs), w)
    def opaque_switch(self, st, i, c):
        return c[0] == 'i' and None not in c[1]
    def diff(self, st, x, y, w):
        a, b = x[1], y[1]
        if a[0] == b[0] == 'deref' and a[1] == b[1] and a[2] == b[2] + 8 and x[2] == y[2] == 0:
            n = st.x.get('vec', {}).get((b[1], b[2]))       # end - begin of a vector of bytes sized on this path
            if n is not None:
                return n
        return super().diff(st, x, y, w)
    def on_call(self, st, i, args):
        d = i.get('d', '')
        lit = None
        if i.get('f') and ('::vector(' in d or '::resize(' in d) and 'std::vector<char' in d and len(args) > 1 and args[0][0] == 'p' and args[1][0] == 'i':
            st.x.setdefault('vec', {})[args[0][1:]] = args[1]
        if i.get('f') and ('operator==' in d or 'operator!=' in d or '::compare(' in d) and 'basic_string' in d and len(args) >= 2:
            for a, b in ((args[0], args[1]), (args[1], args[0])):
                if b[0] == 'p' and b[1][0] == 'gl':
                    lit, p = cstr(self.prog, b[1][1]), a
            if lit is not None and p[0] == 'p':
                L = self.strp(p)
                v = ('streq', tuple(st.byte(L, k) for k in range(len(lit))), lit)
                w = int(TW.match(i['t']).group(1))
                if 'compare(' in d:
                    st.val[i['i']] = ('i', ((('not', (v, 0)), 0),) + (0,) * (w - 1))
                else:
                    st.val[i['i']] = ('i', ((v, 0),)) if 'operator==' in d else ('i', ((('not', (v, 0)), 0),))
                return
        if i.get('f') and self.skipname and re.search(self.skipname, d):
            st.x.setdefault('ops', []).append(('skip', args[1], args[0], None, i))
            if args[0] == ('p', self.total[0], 0) and self.total:
                p = ('p', self.total[0], self.total[1])
                old = st.load(p, 4, 'i32', i)
                n = args[1]
                a, b = linear(old), linear(n) if n[0] == 'i' else None
                st.store(p, lin({k: a.get(k, 0) + b.get(k, 0) for k in set(a) | set(b)}, 32) if a is not None and b is not None else self.other(st, i, 'add', 32, old, n), 4)
            return
        super().on_call(st, i, args)

def number(v, env, sgn=False):
    """numeric value of abstract integer v; env(name) -> int for named inputs.  Unknown bits raise Top"""
    n, memo = 0, getattr(env, 'memo', None)
    if memo is None:
        memo = {}
        try:
            env.memo = memo
        except AttributeError:
            pass
    for k, b in enumerate(v[1]):
        if b is None:
            raise Top('unknown bit')
        if b in (0, 1):
            n |= b << k
            continue
        nm, q = b
        m = memo.get(id(nm))
        if m is None:
            m = memo[id(nm)] = (nm, named(nm, env))      # keeps nm alive, so its id stays unique
        n |= ((m[1] >> q) & 1) << k
    w = len(v[1])
    return n - (1 << w) if sgn and n >> (w - 1) else n

def named(nm, env):
    if isinstance(nm, tuple):
        if nm[0] == 'lin':
            t = 0
            for k, c in nm[2]:
                t += c if k == 1 else c * lname(k, env)
            return t & ((1 << nm[1]) - 1)
        if nm[0] == 'not':
            return 1 - ((named(nm[1][0], env) >> nm[1][1]) & 1)
        if nm[0] == 'streq':
            return int(bytes(number(('i', b[1]), env) if b[0] == 'raw' else 256 for b in nm[1]) == nm[2].encode())
        if nm[0] == 'op':
            o, w, xs = nm[1], nm[2], nm[3:]
            M = (1 << w) - 1
            if o == 'select':
                return number(xs[1] if number(xs[0], env) else xs[2], env)
            sg = o in ('sdiv', 'srem', 'smin', 'smax', 'ashr', 'abs') or (o in CMPS and o[0] == 's')
            x = [number(v, env, sg) for v in xs]
            if o in CMPS:
                return int(CMPS[o](x[0], x[1]))
            if o in ('sdiv', 'udiv', 'srem', 'urem'):
                if x[1] == 0:
                    raise Top('division by zero')
                q = abs(x[0]) // abs(x[1]) * (1 if (x[0] < 0) == (x[1] < 0) else -1)
                return (q if 'div' in o else x[0] - q * x[1]) & M
            f = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'smin': min, 'umin': min, 'smax': max, 'umax': max, 'and': lambda a, b: a & b,
                 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b, 'shl': lambda a, b: a << b, 'lshr': lambda a, b: a >> b, 'ashr': lambda a, b: a >> b, 'abs': lambda a, b: abs(a)}.get(o)
            if f is None:
                raise Top('operation %s' % o)
            return f(x[0], x[1]) & M
    r = env(nm)
    if r is None:
        raise Top('depends on %s' % (nm,))
    return r

def lname(k, env):
    """names inside linear forms carry their width when they are memory or stream bytes"""
    if isinstance(k, tuple) and k[0] in ('m', 'in') and len(k) == (4 if k[0] == 'm' else 3):
        w = k[-1]
        t = 0
        for q in range(w // 8):
            r = env(k[:-2] + (k[-2] + q,))
            if r is None:
                raise Top('depends on %s' % (k,))
            t |= (r & 255) << (8 * q)
        return t
    return named(k, env)

CMPS = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'slt': lambda a, b: a < b, 'ult': lambda a, b: a < b, 'sle': lambda a, b: a <= b, 'ule': lambda a, b: a <= b,
        'sgt': lambda a, b: a > b, 'ugt': lambda a, b: a > b, 'sge': lambda a, b: a >= b, 'uge': lambda a, b: a >= b}

def feasible(conds, env):
    for i, c, v in conds:
        n = number(c, env)
        if isinstance(v, tuple):
            m = n & ((1 << len(c[1])) - 1)
            vs = [x & ((1 << len(c[1])) - 1) for x in ([v[1]] if v[0] == 'case' else v[1])]
            if (m in vs) != (v[0] == 'case'):
                return False
        elif bool(n) != bool(v):
            return False
    return True
