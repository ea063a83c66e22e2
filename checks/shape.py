"""Abstract interpretation of numeric code in the domain of polynomials over the samples.
Sizes, counts and indices are enumerated; every sample and parameter is a symbol, so the result of a function is, for each shape, one polynomial per output cell,
valid for all sample values.  Memory is a map of cells of sized objects; every access is checked against its object."""
import functools
from evalt import *

class Top(Exception):
    pass

class Poly:
    __slots__ = ('d',)
    def __init__(self, d):
        self.d = {m: c for m, c in d.items() if c != 0}
    @staticmethod
    def of(x):
        return x if isinstance(x, Poly) else Poly({(): x})
    def const(self):
        if not self.d:
            return Fraction(0)
        return self.d[()] if len(self.d) == 1 and () in self.d else None
    def __add__(self, o):
        r = dict(self.d)
        for m, c in Poly.of(o).d.items():
            r[m] = addc(r.get(m, 0), c)
        return Poly(r)
    __radd__ = __add__
    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})
    def __sub__(self, o):
        return self + -Poly.of(o)
    def __rsub__(self, o):
        return Poly.of(o) - self
    def __mul__(self, o):
        r = {}
        for m, c in self.d.items():
            for n, e in Poly.of(o).d.items():
                k = tuple(sorted(m + n, key=repr))
                r[k] = addc(r.get(k, 0), mulc(c, e))
        return Poly(r)
    __rmul__ = __mul__
    def key(self):
        return tuple(sorted(self.d.items(), key=repr))
    def __eq__(self, o):
        o = Poly.of(o)
        return all(close(self.d.get(m, 0), o.d.get(m, 0)) for m in set(self.d) | set(o.d))
    def __hash__(self):
        return hash(self.key())
    def __repr__(self):
        s = ' + '.join(('%s*' % round(float(c), 9) if c != 1 or not m else '') + '*'.join(str(a) if not isinstance(a, tuple) else '%s[%s]' % (a[0], ','.join(map(str, a[1:]))) for a in m) for m, c in sorted(self.d.items(), key=repr)[:6])
        return (s or '0').replace('* +', ' +').rstrip('*') + (' + ...' if len(self.d) > 6 else '')

def addc(a, b):
    if isinstance(a, float) or isinstance(b, float):
        r = float(a) + float(b)
        return 0 if abs(r) < 1e-13 * max(1.0, abs(float(a))) else r
    return a + b
def mulc(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return float(a) * float(b)
    return a * b
def close(a, b):
    return a == b or abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(a)), abs(float(b)))

def atom(*name):
    return Poly({(name if len(name) > 1 else name[0],): Fraction(1)})
def num_of(x):
    return Poly({(): Fraction(x) if not isinstance(x, float) else x})

def inverse(y):
    """1/y as a symbol that does not depend on the order or the scale in which y was computed"""
    r6 = lambda c: float('%.8g' % float(c))
    ms = sorted(y.d.items(), key=lambda t: repr(t[0]))
    big = max(abs(float(c)) for m, c in ms)
    ms = [(m, c) for m, c in ms if abs(float(c)) > 1e-11 * big]
    if not ms[1:] and len(ms[0][0]):
        r = num_of(Fraction(1) / ms[0][1] if not isinstance(ms[0][1], float) else 1.0 / ms[0][1])
        for a in ms[0][0]:
            r = r * (Poly({(a[1],): Fraction(1)}) if isinstance(a, tuple) and a[0] == '1/' and len(a) == 2 else atom('1/', a))
        return r
    lead = ms[0][1]
    return atom('1/sum', tuple((m, r6(c / lead if not isinstance(c, float) else c / float(lead))) for m, c in ms)) * num_of(Fraction(1) / lead if not isinstance(lead, float) else 1.0 / lead)

def ckey(y):
    return tuple((m, float('%.9g' % float(c))) for m, c in sorted(y.d.items(), key=lambda t: repr(t[0])))
def function(nm, *xs):
    """a function of symbols; odd and even functions take their argument with a positive first coefficient"""
    sign = 1
    if nm in ('sin', 'cos', 'tan', 'fabs') and ckey(xs[0])[0][1] < 0:
        xs, sign = (-xs[0],), 1 if nm in ('cos', 'fabs') else -1
    return atom('fn', nm, tuple(ckey(x) for x in xs)) * num_of(sign)

TW = re.compile(r'^i(\d+)$')
def wrap(v, w):
    if w == 1:
        return v & 1
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v
def uns(v, w):
    return v & ((1 << w) - 1)

def elem(d):
    """(size, kind) of the elements of the vector a function belongs to"""
    m = re.search(r'std::(?:__cxx11::)?vector<(.+?), std::allocator', d)
    t = m.group(1).strip() if m else '?'
    if re.match(r'std::(__cxx11::)?vector<(double|std::complex<double>|int|long|float|unsigned)', t):
        return 24, 'v' + ('16' if 'complex' in t else '4' if re.search(r'<(int|float|unsigned)$', t) else '8')
    if t == 'double' or t == 'long' or t == 'unsigned long' or t.endswith('*'):
        return 8, 'f' if t == 'double' else 'i'
    if t.startswith('std::complex<double'):
        return 16, 'f'
    if t in ('int', 'unsigned int', 'float'):
        return 4, 'i' if t != 'float' else 'f'
    if t in ('char', 'unsigned char', 'signed char'):
        return 1, 'i'
    if t in ('short', 'unsigned short'):
        return 2, 'i'
    raise Top('a vector of %s' % t)

VEC = re.compile(r'(^|\s)std::(__cxx11::)?vector::')
@functools.lru_cache(None)
def outer(d):
    """a demangled name without template arguments and parameters"""
    d = d.replace('operator<<', 'operatorLL').replace('operator<=', 'operatorLE').replace('operator<', 'operatorL').replace('operator->', 'operatorA').replace('operator>', 'operatorG')
    r, k = [], 0
    for c in d:
        if c == '<':
            k += 1
        elif c == '>':
            k -= 1
        elif k == 0:
            if c == '(':
                break
            r.append(c)
    return ''.join(r)

class Shape:
    def __init__(self, prog, limit=400000):
        self.prog, self.limit, self.steps = prog, limit, 0
        self.mem, self.size, self.dead, self.n, self.calls = {}, {}, set(), 0, []
        self.decide = None              # decide(poly condition) for comparisons of symbols
        self.reads, self.depth, self.vecs, self.written = set(), 0, {}, set()
        self.mutexes, self.lockers = set(), {}               # mutexes held
        self.lazy = {}                  # object -> function giving the initial value of a cell

    # ---- objects
    def obj(self, name, size=None, lazy=None):
        self.size[name] = size
        if lazy:
            self.lazy[name] = lazy
        return ('p', name, 0)
    def heap(self, size):
        self.n += 1
        return self.obj(('heap', self.n), size)
    def put(self, p, v, n=8):
        """set a cell from outside"""
        self.mem[(p[1], p[2])] = (v, n)
    def get(self, p):
        return self.mem.get((p[1], p[2]), (None,))[0]
    def array(self, name, cells, n=8):
        p = self.obj(name, n * len(cells))
        for k, c in enumerate(cells):
            self.mem[(name, n * k)] = (c, n)
        return p
    def cells(self, p, count, n=8):
        return [self.mem.get((p[1], p[2] + n * k), (None,))[0] for k in range(count)]
    def vector(self, at, cells, n=8, name=None):
        """a vector object at an address, holding the given 8-byte cells"""
        if name is None:
            p = self.heap(n * len(cells))
        else:
            p = self.obj(name, n * len(cells))
        for k, c in enumerate(cells):
            self.mem[(p[1], n * k)] = (c, n)
        self.vset(at, p[1], n * len(cells))
    def vset(self, at, o, nbytes):
        for k, b in ((0, 0), (8, nbytes), (16, nbytes)):
            self.mem[(at[1], at[2] + k)] = (('p', o, b), 8)
    def vget(self, at):
        """(object, bytes) of the vector at an address"""
        a, b = self.get(at), self.get(('p', at[1], at[2] + 8))
        if a is None or b is None:
            raise Top('a vector that was never constructed')
        return a[1], b[2] - a[2]
    def vcells(self, at, n=8):
        o, b = self.vget(at)
        return self.cells(('p', o, 0), b // n, n)

    # ---- memory
    def check(self, p, n, what):
        if not isinstance(p, tuple) or p[0] != 'p':
            raise Top('%s through something that is no pointer' % what)
        if p[1] == 'null':
            raise Top('%s through a null pointer' % what)
        if p[1] in self.dead:
            raise Top('%s an object that was freed' % what)
        s = self.size.get(p[1])
        if p[1] in self.size and s is not None and not 0 <= p[2] <= s - n:
            raise Top('%s at byte %d of an object of %d bytes' % (what, p[2], s))
    def load(self, p, n, t):
        self.check(p, n, 'reads')
        c = self.mem.get((p[1], p[2]))
        if c is None and isinstance(p[1], tuple) and p[1][0] == 'gl' and p[1][1] in self.prog.vt:
            e = [x for part in self.prog.vt[p[1][1]]['parts'] for x in part]
            x = e[p[2] // 8] if p[2] % 8 == 0 and 0 <= p[2] < 8 * len(e) else None
            if x is None or x == '#':
                raise Top('reads entry %s of a table of virtual functions' % p[2])
            return ('p', ('gl', x), 0)
        if c is None and p[1] in self.lazy:
            v = self.lazy[p[1]](p[2], n)
            if v is not None:
                c = (v, n)
                self.mem[(p[1], p[2])] = c
        if c is None:
            for k in range(1, 16):          # part of a bigger integer cell
                q = self.mem.get((p[1], p[2] - k))
                if q and q[1] > k and isinstance(q[0], int) and k + n <= q[1]:
                    return wrap(q[0] >> (8 * k), 8 * n)
            raise Top('reads memory that was never set (%s + %s)' % (p[1], p[2]))
        self.reads.add((p[1], p[2]))
        v, m = c
        if isinstance(v, int) and t and TW.match(t):
            if n < m:
                return wrap(v, 8 * n)
            if n > m:                       # several smaller cells
                r, k = 0, 0
                while k < n:
                    q = self.mem.get((p[1], p[2] + k))
                    if not q or not isinstance(q[0], int):
                        raise Top('reads a part of memory that was never set')
                    r |= uns(q[0], 8 * q[1]) << (8 * k)
                    k += q[1]
                return wrap(r, 8 * n)
            return wrap(v, 8 * n)
        if isinstance(v, int) and t == 'double':
            if v == 0:
                return Poly({})
            raise Top('reads an integer as a sample')
        if isinstance(v, int) and t == 'ptr' and v == 0:
            return ('p', 'null', 0)
        if isinstance(v, Poly) and t and TW.match(t):
            if v.const() == 0:
                return 0
            return ('bits', v)
        return v
    def store(self, p, v, n):
        self.check(p, n, 'writes')
        for k in range(1, 8):               # split cells it overlaps
            q = self.mem.get((p[1], p[2] - k))
            if q and q[1] > k:
                if isinstance(q[0], int):
                    del self.mem[(p[1], p[2] - k)]
                    for j in range(q[1]):
                        self.mem[(p[1], p[2] - k + j)] = (q[0] >> (8 * j) & 255, 1)
                else:
                    self.mem.pop((p[1], p[2] - k))
        old = self.mem.get((p[1], p[2]))
        if old and old[1] > n and isinstance(old[0], int):
            for j in range(n, old[1]):
                self.mem[(p[1], p[2] + j)] = (old[0] >> (8 * j) & 255, 1)
        for k in range(1, n):
            self.mem.pop((p[1], p[2] + k), None)
        if isinstance(v, tuple) and v[0] == 'bits':
            v = v[1]
        self.mem[(p[1], p[2])] = (v, n)
        self.written.add((p[1], p[2]))
    def copy(self, d, s, n):
        if n == 0:
            return
        self.check(d, n, 'writes')
        self.check(s, n, 'reads')
        new = {}
        if s[1] in self.lazy:
            for k in range(0, n, 8):
                if (s[1], s[2] + k) not in self.mem:
                    self.load(('p', s[1], s[2] + k), 8, None)
        for k in range(n):
            c = self.mem.get((s[1], s[2] + k))
            if c:
                new[k] = c
                if k + c[1] > n:
                    raise Top('copies a part of a value')
        for k in range(n):
            self.mem.pop((d[1], d[2] + k), None)
        for k, c in new.items():
            self.mem[(d[1], d[2] + k)] = c
            self.written.add((d[1], d[2] + k))
    def fill(self, p, n, v=0):
        if n == 0:
            return
        self.check(p, n, 'writes')
        if v:
            raise Top('fills memory with %s' % v)
        for k in range(n):
            self.mem.pop((p[1], p[2] + k), None)
        for k in range(0, n - n % 8, 8):
            self.mem[(p[1], p[2] + k)] = (0, 8)
            self.written.add((p[1], p[2] + k))
        for k in range(n - n % 8, n):
            self.mem[(p[1], p[2] + k)] = (0, 1)

    # ---- execution of one function
    def opv(self, f, val, o, ty='i64'):
        k = o[0]
        if k == 'v':
            if o[1] not in val:
                raise Top('value %d of %s is not available' % (o[1], f.dem))
            return val[o[1]]
        if k == 'c':
            return wrap(o[1], o[2])
        if k == 'f':
            return Poly({(): Fraction(num(o))}) if num(o) == num(o) else Top
        if k in ('n', 'z') and ty == 'ptr' or k == 'n':
            return ('p', 'null', 0)
        if k == 'z':
            return 0 if TW.match(ty) else Poly({}) if ty in ('double', 'float') else ('agg', {})
        if k == 'g':
            return ('p', ('gl', o[1]), 0)
        if k == 'e' and o[1] == 'gepc':
            b = self.opv(f, val, o[2][0], 'ptr')
            return ('p', b[1], b[2] + o[2][1][1])
        if k in ('u', 'p', 'm'):
            return ('undef',)
        raise Top('operand %s' % (o,))

    def run(self, f, args):
        self.depth += 1
        if self.depth > 40:
            raise Top('recursion too deep')
        try:
            return self.frame(f, args)
        finally:
            self.depth -= 1

    def frame(self, f, args):
        val, frame = {}, []
        for k, a in enumerate(f.j['args']):
            val[a['id']] = args[k]
        b, prev = min(f.blocks), None
        while True:
            ph = {}
            for i in f.blocks[b]['ins']:
                if i['o'] != 'phi':
                    break
                o = next(x[0] for x in i['a'] if x[1] == prev)
                ph[i['i']] = self.opv(f, val, o, i['t'])
            val.update(ph)
            for i in f.blocks[b]['ins']:
                self.steps += 1
                if self.steps > self.limit:
                    raise Top('too many steps in %s' % f.dem)
                o = i['o']
                if o == 'phi':
                    continue
                if o == 'ret':
                    for x in frame:
                        self.dead.add(x)
                    return self.opv(f, val, i['a'][0], f.j['ret']) if i['a'] else None
                if o == 'br':
                    if len(i['su']) == 1:
                        nxt = i['su'][0]
                    else:
                        nxt = i['su'][0 if self.truth(self.opv(f, val, i['a'][0], 'i1'), i, f) else 1]
                    break
                if o == 'switch':
                    c = self.opv(f, val, i['a'][0], 'i32')
                    if not isinstance(c, int):
                        raise Top('a switch on samples')
                    nxt = dict(i['cases']).get(c, i['def'])
                    break
                if o == 'invoke':
                    r = self.call(f, val, i)
                    if 't' in i:
                        val[i['i']] = r
                    nxt = i['su'][0]
                    break
                if o in ('unreachable', 'resume'):
                    raise Top('an unreachable or throwing path')
                if o == 'alloca':
                    self.n += 1
                    nm = ('stack', self.n)
                    frame.append(nm)
                    val[i['i']] = self.obj(nm, i.get('asz'))
                    continue
                self.step(f, val, i)
            prev, b = b, nxt

    def truth(self, c, i, f):
        if isinstance(c, int):
            return bool(c)
        if isinstance(c, tuple) and c[0] == 'fcmp' and self.decide:
            r = self.decide(c)
            if r is not None:
                return r
        raise Top('a branch that depends on sample values')

    def fcmp(self, p, x, y):
        if p == 'uno':
            return 0
        if p == 'ord':
            return 1
        a, b = (x - y).const() if isinstance(x, Poly) and isinstance(y, Poly) else None, 0
        if a is None:
            return ('fcmp', p, x, y)
        return int(CMP[p](a, b))

    def step(self, f, val, i):
        o, a = i['o'], i['a']
        t = i.get('t', '')
        w = TW.match(t)
        w = int(w.group(1)) if w else None
        g = lambda k, ty=None: self.opv(f, val, a[k], ty or t)
        if o == 'call':
            r = self.call(f, val, i)
            if t:
                val[i['i']] = r
            return
        if o == 'store':
            p, v = g(1, 'ptr'), self.opv(f, val, a[0], i.get('st', ''))
            if isinstance(v, tuple) and v[0] == 'undef':
                return
            if isinstance(v, tuple) and v[0] == 'agg':
                for k, x in v[1].items():
                    self.store(('p', p[1], p[2] + 8 * k), x, 8)
                return
            self.store(p, v, i.get('ssz', 8))
            return
        if o == 'load':
            p = g(0, 'ptr')
            if t.startswith('{'):
                val[i['i']] = ('agg', {k: self.load(('p', p[1], p[2] + 8 * k), 8, x.strip()) for k, x in enumerate(t.strip('{} ').split(','))})
                return
            val[i['i']] = self.load(p, i.get('ssz', 8), t)
            return
        if o == 'getelementptr':
            p = g(0, 'ptr')
            if 'gep' not in i or not isinstance(p, tuple) or p[0] != 'p':
                raise Top('address arithmetic on %s' % (p,))
            off = p[2] + i['gep'][0]
            for x, s in i['gep'][1]:
                n = self.opv(f, val, x)
                if not isinstance(n, int):
                    raise Top('an address that depends on samples')
                off += n * s
            val[i['i']] = ('p', p[1], off)
            return
        if o in ('freeze', 'addrspacecast'):
            val[i['i']] = g(0)
            return
        if o in ('bitcast', 'ptrtoint', 'inttoptr'):
            v = g(0, 'ptr')
            if o == 'bitcast' and isinstance(v, tuple) and v[0] == 'bits' and t == 'double':
                v = v[1]
            elif o == 'bitcast' and isinstance(v, Poly):
                v = ('bits', v)
            val[i['i']] = v
            return
        if o == 'select':
            c = self.opv(f, val, a[0], 'i1')
            val[i['i']] = g(1) if self.truth(c, i, f) else g(2)
            return
        if o == 'extractvalue':
            v = g(0)
            if v[0] != 'agg' or len(i['ix']) != 1:
                raise Top('a nested aggregate')
            val[i['i']] = v[1].get(i['ix'][0], 0)
            return
        if o == 'insertvalue':
            v = g(0)
            d = dict(v[1]) if v[0] == 'agg' else {}
            d[i['ix'][0]] = self.opv(f, val, a[1], 'i64')
            val[i['i']] = ('agg', d)
            return
        if o in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'frem'):
            x = self.real(g(0))
            y = self.real(g(1)) if len(a) > 1 else None
            val[i['i']] = self.arith(o, x, y)
            if t == 'float':
                raise Top('single precision arithmetic')
            return
        if o in ('sitofp', 'uitofp'):
            v = self.opv(f, val, a[0])
            if not isinstance(v, int):
                raise Top('converts %s' % (v,))
            sw = f.width(a[0]) or 64
            v = uns(v, sw) if o[0] == 'u' else v
            if abs(v) > 1 << 53:        # a conversion no double can hold rounds
                v = int(float(v))
            val[i['i']] = Poly({(): Fraction(v)})
            return
        if o in ('fptosi', 'fptoui'):
            v = self.real(g(0, 'double'))
            c = v.const()
            if c is None:
                raise Top('rounds a sample to an integer')
            val[i['i']] = wrap(int(c), w)
            return
        if o in ('fpext', 'fptrunc'):
            raise Top('changes the precision of a sample')
        if o == 'fcmp':
            val[i['i']] = self.fcmp(i['p'], self.real(g(0, 'double')), self.real(g(1, 'double')))
            return
        if o == 'icmp':
            x, y = self.opv(f, val, a[0], 'ptr' if self.isptr(f, a) else 'i64'), self.opv(f, val, a[1], 'ptr' if self.isptr(f, a) else 'i64')
            val[i['i']] = self.icmp(i['p'], x, y, f.width(a[0]) or f.width(a[1]) or 64)
            return
        x = g(0)
        y = g(1) if len(a) > 1 else None
        sw = f.width(a[0]) or w
        if o in ('zext', 'sext', 'trunc'):
            if isinstance(x, tuple) and x[0] == 'fcmp' and o == 'zext':
                x = int(self.truth(x, i, f))
            if not isinstance(x, int):
                raise Top('%s of %s' % (o, x))
            val[i['i']] = wrap(uns(x, sw), w) if o == 'zext' else (wrap(x, w) if o == 'trunc' else (-x if sw == 1 else x))
            return
        if isinstance(x, tuple) and isinstance(y, tuple) and o == 'sub' and x[0] == y[0] == 'p' and x[1] == y[1]:
            val[i['i']] = x[2] - y[2]
            return
        if o in ('add', 'sub') and isinstance(x, tuple) and x[0] == 'p' and isinstance(y, int):
            val[i['i']] = ('p', x[1], x[2] + (y if o == 'add' else -y))
            return
        if w == 1 and o in ('and', 'or', 'xor') and not (isinstance(x, int) and isinstance(y, int)):
            x = int(self.truth(x, i, f)) if not isinstance(x, int) else x
            y = int(self.truth(y, i, f)) if not isinstance(y, int) else y
        if not isinstance(x, int) or not isinstance(y, int):
            raise Top('integer arithmetic on %s and %s' % (x, y))
        if o in ('udiv', 'sdiv', 'urem', 'srem') and y == 0:
            raise Top('division by zero')
        if o in ('udiv', 'urem', 'lshr'):
            x, y = uns(x, w), uns(y, w)
        if o in ('shl', 'lshr', 'ashr') and not 0 <= y < w:
            raise Top('a shift by %d' % y)
        r = x + y if o == 'add' else x - y if o == 'sub' else x * y if o == 'mul' else x // y if o == 'udiv' else x % y if o == 'urem' else tdiv(x, y) if o == 'sdiv' else \
            x - y * tdiv(x, y) if o == 'srem' else x << y if o == 'shl' else x >> y if o in ('lshr', 'ashr') else x & y if o == 'and' else x | y if o == 'or' else x ^ y if o == 'xor' else None
        if r is None:
            raise Top('operation %s' % o)
        val[i['i']] = wrap(r, w)

    def isptr(self, f, a):
        for o in a:
            if o[0] == 'n' or o[0] == 'g':
                return True
            if o[0] == 'v':
                i = f.ins.get(o[1])
                t = i['t'] if i else next((x['t'] for x in f.j['args'] if x['id'] == o[1]), None)
                return t == 'ptr'
        return False
    def real(self, v):
        if isinstance(v, int) and v == 0:
            return Poly({})
        if isinstance(v, tuple) and v[0] == 'bits':
            return v[1]
        if not isinstance(v, Poly):
            raise Top('arithmetic on %s' % (v,))
        return v
    def arith(self, o, x, y):
        if o == 'fneg':
            return -x
        if o == 'fadd':
            return x + y
        if o == 'fsub':
            return x - y
        if o == 'fmul':
            return x * y
        c = y.const()
        if o == 'fdiv':
            if c is None:
                return x * inverse(y)
            if c == 0:
                raise Top('division by zero')
            return x * (Fraction(1) / c if not isinstance(c, float) else 1.0 / c)
        raise Top('fmod')
    def icmp(self, p, x, y, w):
        if isinstance(x, tuple) or isinstance(y, tuple):
            if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'p':
                if x[1] == y[1]:
                    x, y, w = x[2], y[2], 64
                elif p in ('eq', 'ne'):
                    return int(p == 'ne')
                else:
                    raise Top('compares pointers into different objects')
            else:
                raise Top('compares a pointer with a number')
        if p[0] == 'u':
            x, y = uns(x, w), uns(y, w)
        return int({'eq': x == y, 'ne': x != y}[p] if p in ('eq', 'ne') else {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p[1:]])

    # ---- calls
    def math(self, nm, xs):
        cs = [x.const() for x in xs]
        if None in cs:
            return function(nm, *xs)
        v = [float(c) for c in cs]
        if nm in ('sin', 'cos', 'tan', 'exp', 'log', 'sqrt', 'atan', 'log2', 'log10'):
            return num_of(getattr(math, nm)(v[0]))
        if nm == 'pow':
            return num_of(v[0] ** v[1])
        if nm == 'atan2':
            return num_of(math.atan2(*v))
        if nm in ('floor', 'ceil', 'trunc', 'rint', 'nearbyint'):
            return num_of(Fraction({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}.get(nm, round)(cs[0])))
        if nm == 'round':
            return num_of(Fraction(math.floor(abs(cs[0]) + Fraction(1, 2)) * (1 if cs[0] >= 0 else -1)))
        if nm == 'fabs':
            return num_of(abs(cs[0]))
        if nm in ('fmin', 'minnum'):
            return num_of(min(cs))
        if nm in ('fmax', 'maxnum'):
            return num_of(max(cs))
        raise Top('calls %s' % nm)

    def call(self, f, val, i):
        fn, d, t = i.get('f', ''), i.get('d', ''), i.get('t', '')
        args = [self.opv(f, val, x) for x in i['a']]
        if i.get('noret'):
            raise Top('ends in %s' % (short_name(d or fn)))
        if not fn:
            p = self.opv(f, val, i['fp'], 'ptr') if 'fp' in i else None
            if p is not None and p[0] == 'p' and isinstance(p[1], tuple) and p[1][0] == 'gl':
                fn = p[1][1]
                h = self.prog.fns.get(fn)
                if h is not None:
                    return self.run(h, args)
                r = self.vnamed(f, i, fn, args)
                if r is not NotImplemented:
                    return r
            return self.vcall(f, i, args)
        if fn.startswith('llvm.'):
            b = re.sub(r'\.(i\d+|f\d+|p\d+)(?=\.|$)', '', fn)[5:]
            if b in ('memcpy', 'memmove', 'memcpy.inline'):
                return self.copy(args[0], args[1], args[2])
            if b == 'memset':
                return self.fill(args[0], args[2], args[1])
            if b in ('lifetime.start', 'lifetime.end', 'assume', 'experimental.noalias.scope.decl', 'stackrestore', 'prefetch'):
                return None
            if b.endswith('invariant.group') or b in ('expect', 'stacksave'):
                return args[0] if args else ('p', 'null', 0)
            if b in ('type.test', 'public.type.test'):
                return 1
            w = TW.match(t)
            if b in ('umin', 'umax', 'smin', 'smax') and all(isinstance(x, int) for x in args[:2]):
                W = int(w.group(1))
                k = (lambda x: uns(x, W)) if b[0] == 'u' else (lambda x: x)
                return (min if b.endswith('min') else max)(args[:2], key=k)
            if b == 'abs' and isinstance(args[0], int):
                return wrap(abs(args[0]), int(w.group(1)))
            if b == 'usub.sat' and all(isinstance(x, int) for x in args[:2]):
                W = int(w.group(1))
                return wrap(max(0, uns(args[0], W) - uns(args[1], W)), W)
            if b == 'fmuladd' or b == 'fma':
                x, y, z = map(self.real, args[:3])
                return x * y + z
            if b in ('sin', 'cos', 'exp', 'log', 'sqrt', 'pow', 'floor', 'ceil', 'trunc', 'round', 'fabs', 'minnum', 'maxnum', 'rint', 'nearbyint', 'log2', 'log10'):
                return self.math(b, [self.real(x) for x in args])
            if b == 'powi' and isinstance(args[1], int):
                x, r = self.real(args[0]), num_of(1)
                for _ in range(abs(args[1])):
                    r = r * x
                return r if args[1] >= 0 else self.arith('fdiv', num_of(1), r)
            if b == 'ctpop':
                return bin(uns(args[0], int(w.group(1)))).count('1')
            if b in ('cttz', 'ctlz'):
                W, x = int(w.group(1)), uns(args[0], int(w.group(1)))
                return W if x == 0 else ((x & -x).bit_length() - 1 if b == 'cttz' else W - x.bit_length())
            if b == 'is.fpclass':
                return 0
            raise Top('calls %s' % fn)
        h = self.prog.fns.get(fn)
        nm = short_name(d or fn)
        r = self.hook(f, i, fn, d, nm, args)
        if r is not NotImplemented:
            return r
        if nm in MATH or nm in ('atan2', 'atan', 'tan', 'exp', 'log', 'fabs', 'round', 'log2', 'log10', 'fmin', 'fmax', 'sin', 'cos'):
            if h is None:
                return self.math(nm, [self.real(x) for x in args])
        if fn in ('__muldc3', '__divdc3'):
            raise Top('complex arithmetic outside its finite path')
        if re.match(r'^_Zn[wa]', fn):
            return self.heap(args[0])
        if re.match(r'^_Zd[la]', fn):
            if args[0][1] != 'null':
                self.dead.add(args[0][1])
            return None
        if fn in ('__cxa_guard_release', '__cxa_guard_abort', '__clang_call_terminate', '__cxa_atexit'):
            return None
        if fn == '__cxa_guard_acquire':
            return 1
        if re.search(r'std::(lock_guard|scoped_lock|unique_lock)<', d) and nm.lstrip('~') in ('lock_guard', 'scoped_lock', 'unique_lock') and len(args) in (1, 2) and h is None:
            if nm[0] == '~':
                self.unlock(self.lockers.pop(args[0], None))
            else:
                self.lockers[args[0]] = self.lock(args[1], d) if len(args) == 2 else None
            return None
        if fn in ('pthread_mutex_lock', 'pthread_mutex_unlock') or nm in ('lock', 'unlock') and re.match(r'(void )?std::(recursive_)?mutex::', d):
            self.unlock(args[0]) if nm.endswith('unlock') else self.lock(args[0], d)
            return 0
        if 'std::vector<' in d and VEC.search(outer(d)) and args and isinstance(args[0], tuple):
            return self.vec(nm, d, args, i)
        if d.startswith('std::allocator') or '~allocator' in d or '~' in nm and 'std::' in d:
            return None
        if h is not None:
            return self.run(h, args)
        return self.unknown(f, i, d or fn, args)

    def lock(self, at, d):
        if at in self.mutexes and 'recursive' not in d:
            raise Top('locks a mutex it already holds')
        self.mutexes.add(at)
        return at
    def unlock(self, at):
        self.mutexes.discard(at)
    def hook(self, f, i, fn, d, nm, args):
        return NotImplemented
    def vnamed(self, f, i, fn, args):
        """a call through a pointer to a known function that is not analysed"""
        return NotImplemented
    def vcall(self, f, i, args):
        raise Top('a virtual call')
    def unknown(self, f, i, d, args):
        raise Top('calls %s' % d.split('(')[0])

    def vec(self, nm, d, args, i):
        """the standard vector"""
        at = args[0]
        esz, kind = elem(d)
        zero = Poly({}) if kind == 'f' else 0
        cell = min(esz, 8)
        def fresh(n):
            return self.heap(n * esz)
        def clone(n):
            """the elements of another vector, copied"""
            o, b = n
            p = self.heap(b)
            if kind[0] != 'v':
                self.copy(p, ('p', o, 0), b)
            else:
                for k in range(0, b, 24):
                    o2, b2 = self.vget(('p', o, k))
                    q = self.heap(b2)
                    self.copy(q, ('p', o2, 0), b2)
                    self.vset(('p', p[1], k), q[1], b2)
            return p
        def zeros(p, lo, hi, v=None):
            if kind[0] == 'v':
                for k in range(lo * 24, hi * 24, 24):
                    q = self.heap(v[1] if v else 0)
                    if v:
                        self.copy(q, ('p', v[0], 0), v[1])
                    self.vset(('p', p, k), q[1], v[1] if v else 0)
                return
            for k in range(lo * esz, hi * esz, cell):
                self.mem[(p, k)] = (zero if v is None else v[(k % esz) // cell], cell)
        def value(p):
            if kind[0] == 'v':
                return self.vget(p)
            return [self.load(('p', p[1], p[2] + k), cell, 'double' if kind == 'f' else 'i%d' % (8 * cell)) for k in range(0, esz, cell)]
        def resize(n, v=None):
            if not 0 <= n <= 1 << 16:
                raise Top('a vector of %d elements' % n)
            o, b = self.vget(at)
            cap = self.get(('p', at[1], at[2] + 16))
            m = b // esz
            if n * esz > (cap[2] if cap else b):
                p = fresh(n)
                self.copy(p, ('p', o, 0), b)
                self.dead.add(o)
                zeros(p[1], m, n, v)
                self.vset(at, p[1], n * esz)
            else:
                zeros(o, m, n, v)
                self.mem[(at[1], at[2] + 8)] = (('p', o, n * esz), 8)
        isptr = lambda x: isinstance(x, tuple) and x[0] == 'p'
        moved = bool(re.search(r'&&', d.split('(', 1)[1] if '(' in d else ''))
        if nm == 'vector':
            if len(args) == 1 or isptr(args[1]) and args[1][1][:1] == ('stack',) and len(args) == 2 and 'allocator' in d.split('(')[-1] and 'vector' not in d.split('(')[-1]:
                self.vset(at, self.obj(('heap', 'empty', self.n), 0)[1], 0)
                return
            if isptr(args[1]) and len(args) > 2 and isptr(args[2]) and args[1][1] == args[2][1]:
                n = args[2][2] - args[1][2]
                p = self.heap(n)
                if kind[0] == 'v':
                    raise Top('a vector of vectors made from a range')
                self.copy(p, args[1], n)
                self.vset(at, p[1], n)
                return
            if isptr(args[1]):
                o, b = self.vget(args[1])
                if moved:
                    self.vset(at, o, b)
                    self.vset(args[1], self.obj(('heap', 'empty', self.n), 0)[1], 0)
                    return
                p = clone((o, b))
                self.vset(at, p[1], b)
                return
            if not isinstance(args[1], int) or not 0 <= args[1] <= 1 << 16:
                raise Top('a vector of %s elements' % (args[1],))
            p = fresh(args[1])
            zeros(p[1], 0, args[1], value(args[2]) if len(args) > 3 and isptr(args[2]) else None)
            self.vset(at, p[1], args[1] * esz)
            return
        if nm == '~vector':
            return
        if nm == 'operator=' and isptr(args[1]):
            o, b = self.vget(args[1])
            if moved:
                self.vset(at, o, b)
                if args[1] != at:
                    self.vset(args[1], self.obj(('heap', 'empty', self.n), 0)[1], 0)
            elif args[1] != at:
                p = clone((o, b))
                self.vset(at, p[1], b)
            return at
        if nm == 'resize':
            return resize(uns(args[1], 64), value(args[2]) if len(args) > 2 and isptr(args[2]) else None)
        if nm in ('_M_default_append',):
            o, b = self.vget(at)
            return resize(b // esz + args[1])
        if nm == '_M_erase_at_end':
            o, b = self.vget(at)
            return resize(args[1][2] // esz)
        if nm in ('push_back', 'emplace_back'):
            v = value(args[1]) if len(args) > 1 else None
            o, b = self.vget(at)
            resize(b // esz + 1, v)
            o, b = self.vget(at)
            return ('p', o, b - esz)
        if nm == 'clear':
            return resize(0)
        if nm in ('reserve', 'shrink_to_fit'):
            return
        if nm in ('assign', '_M_assign_aux') and isptr(args[1]) and isptr(args[2]):
            n = args[2][2] - args[1][2]
            if args[1][1] != args[2][1] or n < 0:
                raise Top('assigns an invalid range')
            p = self.heap(n)
            self.copy(p, args[1], n)
            self.vset(at, p[1], n)
            return
        if nm == 'assign' and isinstance(args[1], int):
            v = value(args[2])
            p = fresh(args[1])
            zeros(p[1], 0, args[1], v)
            self.vset(at, p[1], args[1] * esz)
            return
        if nm == 'swap' and isptr(args[1]):
            for k in (0, 8, 16):
                x, y = (at[1], at[2] + k), (args[1][1], args[1][2] + k)
                self.mem[x], self.mem[y] = self.mem[y], self.mem[x]
            return
        raise Top('calls vector::%s' % nm)
