"""Analysis core over the normalised IR dumped by mirdump: canonical terms, events, loop summaries, path traces.
Purely static: nothing here evaluates the program."""
import json, re
from collections import defaultdict

class AnalysisError(Exception):
    """The analysis lost an anchor or met a construct it cannot model: an error exit, never a verdict."""

# ---------------------------------------------------------------- terms
def P(t):
    """term -> {monomial: coef}"""
    if t[0] == 'i':
        return {(): t[1]} if t[1] else {}
    if t[0] == 'P':
        return dict(t[1])
    return {(t,): 1}

def fromP(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ('i', 0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return ('i', c)
        if c == 1 and len(m) == 1:
            return m[0]
    return ('P', tuple(sorted(d.items(), key=repr)))

def add(a, b, k=1):
    d = P(a)
    for m, c in P(b).items():
        d[m] = d.get(m, 0) + k * c
    return fromP(d)

def sub(a, b):
    return add(a, b, -1)

def mul(a, b):
    d = {}
    for m1, c1 in P(a).items():
        for m2, c2 in P(b).items():
            m = tuple(sorted(m1 + m2, key=repr))
            d[m] = d.get(m, 0) + c1 * c2
    return fromP(d)

def I(n):
    return ('i', n)

def isconst(t):
    return t[0] == 'i'

def div(a, n):
    """division by a positive constant"""
    d = P(a)
    if n == 1:
        return a
    if all(c % n == 0 for c in d.values()):
        return simp_size(fromP({m: c // n for m, c in d.items()}))
    if isconst(a):
        return I(a[1] // n)
    # (end - begin)/esz of a vector
    v = vec_of_diff(a)
    if v is not None:
        return ('size', v, n)
    # size(V) * k / n
    return ('div', a, I(n))

def simp_size(t):
    return t

def vec_of_diff(t):
    """ld(V+8) - ld(V+0) -> V"""
    d = P(t)
    if len(d) != 2:
        return None
    pos = [m for m, c in d.items() if c == 1 and len(m) == 1]
    neg = [m for m, c in d.items() if c == -1 and len(m) == 1]
    if len(pos) == 1 and len(neg) == 1:
        p, n = pos[0][0], neg[0][0]
        if p[0] == 'ld' and n[0] == 'ld' and sub(p[1], n[1]) == I(8):
            return n[1]
    return None

COMM = {'fadd', 'fmul', 'and', 'or', 'xor', 'smax', 'smin', 'umax', 'umin', 'llvm.fmuladd'}
SWAP = {'sgt': 'slt', 'sge': 'sle', 'ugt': 'ult', 'uge': 'ule', 'ogt': 'olt', 'oge': 'ole', 'ugt_f': 'ult_f'}

NEUTRAL = {'fadd': 0, 'fsub': 0, 'fmul': 1, 'fdiv': 1}
def isf(t, v):
    if t[0] != 'f':
        return False
    try:
        return float(t[1]) == v
    except ValueError:
        return False

def mk(op, *a):
    if op in ('fptoui', 'fptosi') and a[0][0] in ('uitofp', 'sitofp'):
        return a[0][1]                     # exact for magnitudes below 2^53 (sizes and sample counts)
    if op in ('udiv', 'sdiv', 'urem', 'srem') and len(a) == 2:
        if a[0] == ('i', 0):
            return ('i', 0)
        if a[1] == ('i', 1):
            return a[0] if op.endswith('div') else ('i', 0)
    if op in NEUTRAL and len(a) == 2:          # up to the sign of a zero
        if isf(a[1], NEUTRAL[op]):
            return a[0]
        if op in COMM and isf(a[0], NEUTRAL[op]):
            return a[1]
    if op in COMM:
        a = tuple(sorted(a, key=repr))
    return (op,) + tuple(a)

def subterms(t):
    yield t
    if t[0] == 'P':
        for m, c in t[1]:
            for x in m:
                yield from subterms(x)
        return
    for x in t[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            yield from subterms(x)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple) and y and isinstance(y[0], str):
                    yield from subterms(y)

def subst(t, f):
    r = f(t)
    if r is not None:
        return r
    if t[0] == 'P':
        acc = I(0)
        for m, c in t[1]:
            p = I(c)
            for x in m:
                p = mul(p, subst(x, f))
            acc = add(acc, p)
        return acc
    out = [t[0]]
    for x in t[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            out.append(subst(x, f))
        elif isinstance(x, tuple):
            out.append(tuple(subst(y, f) if isinstance(y, tuple) and y and isinstance(y[0], str) else y for y in x))
        else:
            out.append(x)
    if out[0] == 'div' and out[2][0] == 'i':
        return div(out[1], out[2][1])
    return mk(*out)

def base_off(t):
    """pointer term -> (base atom or None, const offset, other)"""
    d = P(t)
    c = d.pop((), 0)
    bases = [m for m, k in d.items() if k == 1 and len(m) == 1]
    if len(d) == 1 and bases:
        return bases[0][0], c
    return None, c

# ---------------------------------------------------------------- program
def norm(n):
    return n.replace(' *', '*').replace(' &', '&').replace('> >', '>>')

class Prog:
    def __init__(self, path):
        self.j = json.load(open(path, encoding='utf-8', errors='replace')) if isinstance(path, str) else path
        self.fns = {f['name']: Fn(self, f) for f in self.j['functions']}
        self.structs = {}
        for k, v in self.j['structs'].items():
            if not k.startswith('enum '):
                v['bases'] = [(norm(b), o) for b, o in v['bases']]
                v['members'] = [(n, o, z, norm(t)) for n, o, z, t in v['members']]
            self.structs[norm(k)] = v
        self.vt = self.j['vtables']
        self._virtuals = None
        self.globals = self.j['globals']
        self.inventory = {x['name']: x for x in self.j['inventory']}
        self._slots = {}
        self.cls_of_ts = {}
        for n, v in self.vt.items():
            self.cls_of_ts['_ZTS' + n[4:]] = n

    def layout(self, cls):
        """flattened member -> (offset, size, type) for class"""
        s = self.structs.get(cls)
        if s is None:
            raise AnalysisError('no layout for class %s' % cls)
        out = {}
        for b, o in s['bases']:
            if b in self.structs:
                for k, (bo, sz, ty) in self.layout(b).items():
                    out.setdefault(k, (bo + o, sz, ty))
        for n, o, sz, ty in s['members']:
            out[n] = (o, sz, ty)
            if ty in self.structs and not ty.startswith('std::'):
                for k, (bo, bsz, bty) in self.layout(ty).items():
                    out.setdefault(n + '.' + k, (bo + o, bsz, bty))
        return out

    def off(self, cls, member):
        l = self.layout(cls)
        if member not in l:
            raise AnalysisError('class %s has no member %s' % (cls, member))
        return l[member][0]

    def slot_name(self, ts, slot):
        """method name at virtual slot of the class with typeid name ts (mangled _ZTS...)"""
        key = (ts, slot)
        if key in self._slots:
            return self._slots[key]
        name = None
        cands = []
        vt = self.cls_of_ts.get(ts)
        if vt:
            cands.append(vt)
        cands += [n for n, v in self.vt.items() if any(t[1] == ts for t in v['types'])]
        for n in cands:
            v = self.vt[n]
            for off, t in v['types']:
                if t != ts:
                    continue
                # address point offset -> index within flattened parts
                flat = [x for p in v['parts'] for x in p]
                idx = off // 8 + slot
                if 0 <= idx < len(flat):
                    x = flat[idx]
                    if x and x not in ('__cxa_pure_virtual', '#'):
                        name = self.short(x)
                        break
            if name:
                break
        self._slots[key] = name or '?%d' % slot
        return self._slots[key]

    def short(self, mangled):
        f = self.inventory.get(mangled)
        d = f['dem'] if f else demangle(mangled)
        return short_name(d)

    def only_step(self, f):
        """a non-virtual function that other functions of the library call as one of their steps: what it does is judged in them"""
        if self._virtuals is None:
            self._virtuals = {x for v in self.vt.values() for p in v['parts'] for x in p if x}
        cs = [c for c in self.j.get('callers', {}).get(f.name, []) if c != f.name]
        return bool(cs) and f.name not in self._virtuals and all(c in self.inventory for c in cs)

    def find(self, regex):
        r = re.compile(regex)
        return [f for f in self.fns.values() if r.search(f.dem)]

    def one(self, regex):
        l = [f for f in self.find(regex) if 'thunk to' not in f.dem]
        if len(l) > 1:                      # lambdas inside the function are not the function
            l = [f for f in l if not LAMBDA.search(f.dem)]
        if len(l) != 1:
            raise AnalysisError('anchor %s: expected exactly one function, found %d %s' % (regex, len(l), [f.dem for f in l][:5]))
        return l[0]

LAMBDA = re.compile(r"^_ZZ.*\$_\d|::(\$_\d+|'lambda\d*'|\{lambda)")
_dem = {}
def demangle(n):
    if n not in _dem:
        import subprocess
        r = subprocess.run(['llvm-cxxfilt-18', n] if _has('llvm-cxxfilt-18') else ['c++filt', n], capture_output=True, text=True)
        _dem[n] = r.stdout.strip() or n
    return _dem[n]

def _has(x):
    import shutil
    return shutil.which(x) is not None

def strip_targs(d):
    out, k = [], 0
    i = 0
    while i < len(d):
        c = d[i]
        if c == '<' and not d[:i].endswith('operator') and not d[:i].endswith('operator<'):
            k += 1
        elif c == '>' and k > 0:
            k -= 1
            i += 1
            continue
        if k == 0:
            out.append(c)
        i += 1
    return ''.join(out)

def short_name(d):
    d = re.sub(r'^(virtual thunk to |non-virtual thunk to )', '', d)
    s = strip_targs(d)
    s = s.split('(')[0] if 'operator()' not in s else s.replace('operator()', 'operator_call').split('(')[0]
    s = s.split(' ')[-1]
    return s.split('::')[-1]

class Ev:
    """An observable step: vcall / call / store / copy"""
    __slots__ = ('kind', 'cls', 'name', 'obj', 'args', 'ins', 'fn', 'full', 'val', 'addr', 'size')
    def __init__(self, kind, ins, fn, **k):
        self.kind, self.ins, self.fn = kind, ins, fn
        for s in ('cls', 'name', 'obj', 'args', 'full', 'val', 'addr', 'size'):
            setattr(self, s, k.get(s))
    def __repr__(self):
        if self.kind == 'vcall':
            return 'vcall %s(%s)' % (self.name, ', '.join(map(tstr, (self.obj,) + tuple(self.args))))
        if self.kind == 'call':
            return 'call %s(%s)' % (self.name, ', '.join(map(tstr, self.args)))
        if self.kind == 'store':
            return 'store [%s] := %s' % (tstr(self.addr), tstr(self.val))
        return self.kind
    def where(self):
        return self.fn.where(self.ins)

class Cond:
    __slots__ = ('t', 'v', 'ins', 'fn')
    kind = 'cond'
    def __init__(self, t, v, ins, fn):
        self.t, self.v, self.ins, self.fn = t, v, ins, fn
    def __repr__(self):
        return '%s%s' % ('' if self.v else '!', tstr(self.t))

class LoopItem:
    kind = 'loop'
    def __init__(self, loop, partial, exit_block):
        self.loop, self.partial, self.exit = loop, partial, exit_block
    def __repr__(self):
        return 'loop@%d{%s}' % (self.loop.header, ' | '.join(str(p) for p in self.loop.bodies()))

def tstr(t, depth=0):
    if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
        return str(t)
    if depth > 6:
        return '…'
    k = t[0]
    if k == 'i':
        return str(t[1])
    if k == 'arg':
        return 'this' if t[1] == 0 and len(t) > 2 and t[2] == 'this' else 'arg%d' % t[1]
    if k == 'P':
        return '(' + ' + '.join((str(c) if not m else ('' if c == 1 else '%d*' % c) + '*'.join(tstr(x, depth + 1) for x in m)) for m, c in t[1]) + ')'
    if k == 'ld':
        return '[%s]' % tstr(t[1], depth + 1)
    return k + '(' + ', '.join(tstr(x, depth + 1) if isinstance(x, tuple) else str(x) for x in t[1:]) + ')'

def foldc(t):
    """fold comparisons and selections over constants"""
    if not isinstance(t, tuple):
        return t
    if t[0] == 'icmp':
        a, b = foldc(t[2]), foldc(t[3])
        if isconst(a) and isconst(b):
            x, y = a[1], b[1]
            k = t[1]
            if k in ('eq', 'ne'):
                return I(int((x == y) == (k == 'eq')))
            if x >= 0 and y >= 0:
                return I(int({'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[k[-2:]]))
        if isconst(b) and b[1] == 0 and a[0] == 'icmp' and t[1] in ('eq', 'ne'):
            return a if t[1] == 'ne' else ('not', a)
        return ('icmp', t[1], a, b)
    if t[0] == 'not':
        a = foldc(t[1])
        return I(1 - a[1]) if isconst(a) else ('not', a)
    if t[0] == 'ite':
        c = foldc(t[1])
        if isconst(c):
            return foldc(t[2] if c[1] else t[3])
    if t[0] in ('and', 'or') and len(t) == 3:
        a, b = foldc(t[1]), foldc(t[2])
        for p, q in ((a, b), (b, a)):
            if isconst(p):
                if t[0] == 'and':
                    if p[1] == 0:
                        return I(0)
                elif p[1] == 0:
                    return q
        if isconst(a) and isconst(b):
            return I(a[1] & b[1] if t[0] == 'and' else a[1] | b[1])
    return t

class Loop:
    def __init__(self, fn, j):
        self.fn, self.header, self.blocks = fn, j['header'], set(j['blocks'])
        self.latch, self.pre, self.parent = j.get('latch'), j.get('pre'), j.get('parent')
        self.j = j
        self._bodies = None
        self.exits = [e[0] for e in j['exits']]
    def count(self):
        """number of complete body executions when the loop leaves through its counted exit, or None"""
        c = self.fn.scev(self.j['btc'])
        if c is None:
            if len(self.exits) == 1:
                return self._header_count()
            return None
        if self.exits == [self.header]:
            return c
        if self.exits == [self.latch]:
            return add(c, I(1))
        return None
    def _header_count(self):
        """counted loop whose bound is re-read every iteration: continue while iter < bound (bound's memory not written by this function)"""
        if self.exits != [self.header]:
            return None
        f = self.fn
        t = f.blocks[self.header]['ins'][-1]
        if t['o'] != 'br' or len(t['su']) != 2:
            return None
        c = f.lift(f.op(t['a'][0]))
        stay = t['su'][0] in self.blocks
        if c[0] != 'icmp':
            return None
        p, x, y = c[1], c[2], c[3]
        it = ('iter', self.header)
        if (p == 'ne' and stay) or (p == 'eq' and not stay):
            for a, b in ((x, y), (y, x)):
                d = sub(b, a)                     # bound - current
                k = P(d).get((it,), 0)
                if k < 0:
                    r = add(d, mul(I(-k), it))
                    if not any(s == it or s[0] in ('phi', 'self') for s in subterms(r)):
                        return div(r, -k)
            return None
        # p in slt/sle/ult/ule (canonical): x < y
        if not stay:
            neg = {'slt': ('sle', True), 'sle': ('slt', True), 'ult': ('ule', True), 'ule': ('ult', True)}
            if p not in neg:
                return None
            p, x, y = neg[p][0], y, x
        d = sub(y, x)
        k = P(d).get((it,), 0)
        if k != -1:
            return None
        r = add(d, it)
        if p in ('sle', 'ule'):
            r = add(r, I(1))
        elif p not in ('slt', 'ult'):
            return None
        if any(s == it or s[0] in ('phi', 'self') for s in subterms(r)):
            return None
        return ('max0', r) if p.startswith('s') and r[0] not in ('size', 'i') else r
    def counted_exit(self, block):
        for b, e in self.j['exits']:
            if b == block:
                c = self.fn.scev(e)
                return c
        return None
    def bodies(self):
        """list of item-lists: all acyclic paths header -> latch (one full iteration)"""
        if self._bodies is None:
            self._bodies = self.fn._paths(self.header, lambda b: False, within=self, target=self.header)
        return self._bodies
    def where(self):
        return self.fn.block_where(self.header)

class Fn:
    def __init__(self, prog, j):
        self.prog, self.j = prog, j
        self.name, self.dem = j['name'], j['dem']
        self.file, self.line = j.get('file', ''), j.get('line', 0)
        self.ins, self.block_of = {}, {}
        self.blocks = {}
        for b in j['blocks']:
            self.blocks[b['b']] = b
            for i in b['ins']:
                self.ins[i['i']] = i
                self.block_of[i['i']] = b['b']
        self.argidx = {a['id']: k for k, a in enumerate(j['args'])}
        self.succ = {b: (v['ins'][-1].get('su', []) if v['ins'] else []) for b, v in self.blocks.items()}
        self.pred = defaultdict(list)
        for b, ss in self.succ.items():
            for s in ss:
                self.pred[s].append(b)
        self.loops = {l['header']: Loop(self, l) for l in j['loops']}
        self._t, self._stored, self._ev = {}, None, {}
        self.short = short_name(self.dem)
        self.sret = bool(j['args']) and j['args'][0].get('sret')

    # -------- where
    def where(self, ins):
        l = ins.get('l') if ins else None
        if l and l[0]:
            return '%s:%d' % (l[0].split('/repo/')[-1], l[1])
        return '%s:%d' % (self.file.split('/repo/')[-1], self.line)
    def block_where(self, b):
        for i in self.blocks[b]['ins']:
            if i.get('l') and i['l'][0]:
                return self.where(i)
        return self.where(None)

    # -------- innermost loop for block
    def loop_of(self, b):
        best = None
        for l in self.loops.values():
            if b in l.blocks and (best is None or len(l.blocks) < len(best.blocks)):
                best = l
        return best

    # -------- terms
    def this(self):
        k = 1 if self.sret else 0
        return ('arg', k, 'this')

    def op(self, o):
        k = o[0]
        if k == 'v':
            return self.term(o[1])
        if k == 'c':
            return I(o[1])
        if k == 'f':
            return ('f', o[1])
        if k == 'n':
            return I(0)
        if k == 'g':
            return ('gl', o[1])
        if k in ('u', 'p'):
            return ('undef',)
        if k == 'z':
            return ('zero',)
        if k == 'e':
            if o[1] == 'gepc':
                return add(self.op(o[2][0]), self.op(o[2][1]))
            return mk('ce_' + o[1], *[self.op(x) for x in o[2]])
        if k == 'a':
            return ('agg',) + tuple(self.op(x) for x in o[1])
        if k == 'm':
            return ('md', o[1])
        return ('k', str(o))

    def term(self, v):
        if v in self._t:
            return self._t[v]
        if v in self.argidx:
            k = self.argidx[v]
            this = (k == (1 if self.sret else 0)) and self.is_method()
            t = ('arg', k, 'this') if this else ('arg', k)
            self._t[v] = t
            return t
        self._t[v] = ('phi' if self.ins[v]['o'] == 'phi' else 'self', v)     # cycle guard (phi)
        t = self._term(self.ins[v])
        self._t[v] = t
        return t

    def is_method(self):
        d = self.j.get('ditypes') or []
        return bool(self.j.get('scope')) and len(d) > 1 and d[1].endswith('*') and self.j['args'] and \
            self.j['args'][1 if self.sret and len(self.j['args']) > 1 else 0]['n'] in ('this', 'this1') or \
            (self.j['args'] and self.j['args'][1 if self.sret and len(self.j['args']) > 1 else 0]['n'] == 'this')

    def _term(self, i):
        o, a = i['o'], i['a']
        if o == 'phi':
            vals = {self.op(x[0]) for x in a if x[0] != ['v', i['i']]}
            if len(vals) == 1:
                v = vals.pop()
                if not any(s == ('phi', i['i']) for s in subterms(v)):
                    return v
            return ('phi', i['i'])
        if o == 'getelementptr':
            t = self.op(a[0])
            if 'gep' in i:
                t = add(t, I(i['gep'][0]))
                for x, s in i['gep'][1]:
                    t = add(t, mul(self.op(x), I(s)))
                return self.vbase(t)
            return ('gep', i['i'])
        if o == 'load':
            ad = self.op(a[0])
            return ('ld', ad) if not self.is_stored(ad, i) else ('ld', ad, i['i'])
        if o in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            return self.op(a[0])
        if o in ('zext', 'sext'):
            x = self.op(a[0])
            src = self.width(a[0])
            if src == 1:
                return ('b2i', x) if o == 'zext' else mul(I(-1), ('b2i', x))
            if src is not None and src < 32:
                return (o + str(src), x)
            return x
        if o == 'trunc':
            w = int(i['t'][1:])
            x = self.op(a[0])
            if w >= 32:
                return x
            return ('trunc', w, x)
        if o == 'add':
            return add(self.op(a[0]), self.op(a[1]))
        if o == 'sub':
            return sub(self.op(a[0]), self.op(a[1]))
        if o == 'mul':
            return mul(self.op(a[0]), self.op(a[1]))
        if o == 'or' and i.get('t') in ('i64', 'i32') and a[1][0] == 'c':
            pass
        if o == 'shl' and a[1][0] == 'c':
            return mul(self.op(a[0]), I(1 << a[1][1]))
        if o in ('ashr', 'lshr') and a[1][0] == 'c' and i['t'] in ('i64', 'i32'):
            return div(self.op(a[0]), 1 << a[1][1])
        if o in ('sdiv', 'udiv') and a[1][0] == 'c' and a[1][1] > 0:
            return div(self.op(a[0]), a[1][1])
        if o in ('icmp', 'fcmp'):
            p, x, y = i['p'], self.op(a[0]), self.op(a[1])
            if p in SWAP:
                p, x, y = SWAP[p], y, x
            if p in ('eq', 'ne', 'oeq', 'une') and repr(x) > repr(y):
                x, y = y, x
            return (o, p, x, y)
        if o == 'select':
            return ('ite', self.op(a[0]), self.op(a[1]), self.op(a[2]))
        if o == 'call':
            f = i.get('f', '')
            if f.startswith('llvm.'):
                b = re.sub(r'\.(i\d+|f\d+|p\d+)(?=\.|$)', '', f)[5:]
                if b in ('smax', 'smin', 'umax', 'umin', 'abs', 'fabs', 'floor', 'ceil', 'round', 'trunc', 'rint', 'lround', 'sqrt', 'sin', 'cos', 'exp', 'log', 'pow', 'fmuladd', 'minnum', 'maxnum', 'ctpop', 'ctlz', 'cttz', 'fshl', 'bswap', 'launder.invariant.group', 'strip.invariant.group', 'copysign'):
                    if b.endswith('invariant.group'):
                        return self.op(a[0])
                    return mk(b, *[self.op(x) for x in a])
                return ('call', i['i'], f)
            return ('call', i['i'], i.get('d', '*'))
        if o == 'alloca':
            return ('alloca', i['i'])
        if o in ('extractvalue',):
            return ('xv', self.op(a[0])) + tuple(I(k) for k in i['ix'])
        if o == 'fneg':
            return ('fneg', self.op(a[0]))
        return mk(o, *[self.op(x) for x in a])

    def width(self, o):
        if o[0] == 'c':
            return o[2]
        if o[0] == 'v':
            i = self.ins.get(o[1])
            t = i['t'] if i else next((a['t'] for a in self.j['args'] if a['id'] == o[1]), None)
            if t and re.fullmatch(r'i\d+', t):
                return int(t[1:])
        return None

    def vbase(self, t):
        """X + [[X] - k]  (virtual-base adjustment)  ->  vb(X)"""
        d = P(t)
        for m, c in d.items():
            if c == 1 and len(m) == 1 and m[0][0] == 'ld':
                ad = P(m[0][1])
                k = ad.get((), 0)
                inner = [mm for mm in ad if mm]
                if k < 0 and len(inner) == 1 and len(inner[0]) == 1 and inner[0][0][0] == 'ld':
                    X = inner[0][0][1]
                    r = sub(t, add(X, m[0]))
                    if not any(s == m[0] for s in subterms(r)):
                        return add(('vb', X, I(k)), r)
        return t

    def is_self(self, t):
        th = self.this()
        return t == th or (t[0] == 'vb' and t[1] == th)

    def stored_addrs(self):
        if self._stored is None:
            self._stored = set()
            todo = []
            for b in self.blocks.values():
                for i in b['ins']:
                    if i['o'] == 'store':
                        todo.append((i['a'][1], i.get('ssz', 8)))
                    elif i['o'] == 'call' and i.get('f', '').startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                        n = i['a'][2]
                        todo.append((i['a'][0], n[1] if n[0] == 'c' else 1 << 40))
                    elif i['o'] in ('atomicrmw', 'cmpxchg'):
                        todo.append((i['a'][0], 8))
            self._stored = []
            for o, n in todo:
                # avoid recursion trouble: raw address terms computed with current memo
                self._stored.append((self.op(o), n))
            # terms were computed while _stored was incomplete; recompute cleanly
            st = self._stored
            self._t = {}
            self._stored = st
            self._stored = [(self.op(o), n) for o, n in todo]
            self._t = {}
        return self._stored

    def is_stored(self, ad, i):
        n = i.get('ssz', 8)
        if self._stored is None:
            self.stored_addrs()
        for s, sn in self._stored:
            d = sub(s, ad)
            if isconst(d) and -sn < d[1] < n:
                return True
        return False

    # -------- scev
    def scev(self, s):
        k = s[0]
        if k == 'c':
            return I(s[1])
        if k == 'val':
            return self.lift(self.op(s[1]))
        if k in ('trunc', 'zext', 'sext'):
            r = self.scev(s[2])
            if r is not None and s[1] < 32 and k == 'trunc':
                return ('trunc', s[1], r)
            return r
        if k == 'ptrtoint':
            return self.scev(s[1])
        if k == 'add':
            r = I(0)
            for x in s[1:]:
                y = self.scev(x)
                if y is None:
                    return None
                r = add(r, y)
            return r
        if k == 'mul':
            r = I(1)
            for x in s[1:]:
                y = self.scev(x)
                if y is None:
                    return None
                r = mul(r, y)
            return r
        if k == 'udiv':
            x, y = self.scev(s[1]), self.scev(s[2])
            if x is None or y is None:
                return None
            if isconst(y) and y[1] > 0:
                return div(x, y[1])
            return ('div', x, y)
        if k in ('smax', 'umax', 'smin', 'umin'):
            xs = [self.scev(x) for x in s[1:]]
            if any(x is None for x in xs):
                return None
            xs = list(dict.fromkeys(xs))
            if k in ('smax', 'umax') and len(xs) == 2 and I(0) in xs:
                o = [x for x in xs if x != I(0)]
                return ('max0', o[0]) if o[0][0] not in ('size',) else o[0]
            if len(xs) == 1:
                return xs[0]
            return mk(k, *xs)
        if k == 'rec':
            xs = [self.scev(x) for x in s[2:]]
            if any(x is None for x in xs):
                return None
            if len(xs) == 2:
                # affine: start + step * iter(header)
                return add(xs[0], mul(xs[1], ('iter', s[1])))
            return ('rec', s[1]) + tuple(xs)
        return None

    def sterm(self, o):
        """term of an operand through scalar evolution if it varies in a loop"""
        if o[0] == 'v':
            s = self.j['scev'].get(str(o[1]))
            if s is not None:
                r = self.scev(s)
                if r is not None:
                    return self.vbase(r)
        return self.lift(self.op(o))

    def lift(self, t):
        """replace phis inside a term by their scalar-evolution form"""
        def f(x):
            if x[0] == 'phi':
                s = self.j['scev'].get(str(x[1]))
                if s is not None and s[0] != 'val':
                    r = self.scev(s)
                    if r is not None:
                        return r
                return self.closed_phi(x[1])
            return None
        return subst(t, f)

    def closed_phi(self, v):
        """value derived from a counter: phi = [A from outside, B(iter) from the latch] with B(-1) == A is B(iter - 1)"""
        if not hasattr(self, '_cp'):
            self._cp = {}
        if v in self._cp:
            return self._cp[v]
        self._cp[v] = None                    # cycle guard
        i = self.ins[v]
        l = self.loops.get(self.block_of[v])
        if l is None or i['o'] != 'phi' or len(i['a']) != 2:
            return None
        out = [x for x in i['a'] if x[1] not in l.blocks]
        inn = [x for x in i['a'] if x[1] in l.blocks]
        if len(out) != 1 or len(inn) != 1:
            return None
        A = self.vbase(self.lift(self.op(out[0][0])))
        B = self.vbase(self.lift(self.op(inn[0][0])))
        it = ('iter', l.header)
        if any(s == ('phi', v) for s in subterms(B)):
            d = sub(B, ('phi', v))            # plain recurrence with an invariant step the compiler did not see
            if not any(s[0] in ('phi', 'iter', 'self') or (s[0] == 'ld' and len(s) > 2) or s[0] == 'call' for s in subterms(d)):
                r = add(A, mul(d, it))
                self._cp[v] = r
                return r
            return None
        if any(s[0] in ('phi', 'self') for s in subterms(B)):
            return None
        first = subst(B, lambda x: I(-1) if x == it else None)
        if first == A:
            r = subst(B, lambda x: sub(it, I(1)) if x == it else None)
            self._cp[v] = r
            return r
        return None

    # -------- events
    def vcallee(self, i):
        """(class ts, slot, obj term) of an indirect call, or None"""
        fp = i.get('fp')
        if not fp or fp[0] != 'v':
            return None
        l = self.ins.get(fp[1])
        if not l or l['o'] != 'load':
            return None
        ad = self.op(l['a'][0])
        # ad = [obj] + 8*slot
        base, off = base_off(ad)
        if base is None or base[0] != 'ld' or off % 8:
            return None
        obj = base[1]
        # type from llvm.type.test on the same vtable value
        ts = self.vtypes().get(base)
        return ts, off // 8, obj

    def vtypes(self):
        if not hasattr(self, '_vty'):
            self._vty = {}
            for b in self.blocks.values():
                for i in b['ins']:
                    if i['o'] == 'call' and i.get('f', '') in ('llvm.type.test', 'llvm.public.type.test'):
                        self._vty[self.op(i['a'][0])] = i['a'][1][1]
        return self._vty

    def event(self, i):
        if i['i'] in self._ev:
            return self._ev[i['i']]
        e = self._event(i)
        self._ev[i['i']] = e
        return e

    def _event(self, i):
        o = i['o']
        if o == 'store':
            return Ev('store', i, self, addr=self.sterm(i['a'][1]), val=self.lift(self.op(i['a'][0])), size=i.get('ssz'))
        if o == 'call':
            f = i.get('f')
            if f:
                if f.startswith('llvm.'):
                    if f.startswith(('llvm.memcpy', 'llvm.memmove')):
                        return Ev('copy', i, self, addr=self.sterm(i['a'][0]), val=self.sterm(i['a'][1]), size=self.lift(self.op(i['a'][2])), name='memcpy')
                    if f.startswith('llvm.memset'):
                        return Ev('fill', i, self, addr=self.sterm(i['a'][0]), val=self.op(i['a'][1]), size=self.lift(self.op(i['a'][2])), name='memset')
                    return None
                args = tuple(self.sterm(x) for x in i['a'])
                return Ev('call', i, self, name=short_name(i['d']), full=i['d'], args=args, obj=args[0] if args else None)
            v = self.vcallee(i)
            args = tuple(self.sterm(x) for x in i['a'])
            if v:
                ts, slot, obj = v
                k = 1 if i.get('sret') else 0
                return Ev('vcall', i, self, cls=ts, name=self.prog.slot_name(ts, slot) if ts else '?%d' % slot,
                          obj=args[k] if len(args) > k else obj, args=args[k + 1:], full='%s slot %d' % (ts, slot))
            return Ev('icall', i, self, name='?', args=args, full='indirect')
        if o in ('atomicrmw', 'cmpxchg', 'fence'):
            return Ev('atomic', i, self, name=o, addr=self.sterm(i['a'][0]) if i['a'] else None, args=tuple(self.op(x) for x in i['a'][1:]))
        return None

    # -------- paths
    LIMIT = 20000
    def paths(self):
        """All paths entry -> exit over the CFG with loops collapsed. Each path: (items, exit_ins)"""
        if not hasattr(self, '_pp'):
            self._pp = self._paths(0, None)
        return self._pp

    def phi_env(self, b, prev, env):
        """values of merged values along the path taken into block b"""
        if prev is None or b in self.loops:
            return env
        new = None
        for i in self.blocks[b]['ins']:
            if i['o'] != 'phi':
                break
            for o, pb in i['a']:
                if pb == prev:
                    new = new if new is not None else dict(env)
                    new[i['i']] = self.in_env(self.lift(self.op(o)), env)
        return env if new is None else new

    def in_env(self, t, env):
        if not env:
            return t
        hit = [False]
        def g(x):
            if x[0] == 'phi' and x[1] in env:
                hit[0] = True
                return env[x[1]]
            return None
        r = subst(t, g)
        return foldc(r) if hit[0] else t

    def _paths(self, start, _x, within=None, target=None):
        """within: a Loop; then enumerate header -> (back edge to header) paths as item lists."""
        res = []
        count = [0]
        def blockitems(b):
            out = []
            for i in self.blocks[b]['ins']:
                e = self.event(i)
                if e:
                    out.append(e)
            return out
        def consistent(items, c):
            if c.t[0] == 'not':
                c = Cond(c.t[1], not c.v, c.ins, c.fn)
            for x in items:
                if x.kind == 'cond' and x.t == c.t and x.v != c.v:
                    return False
            return True
        def walk(b, items, first, prev=None, env={}):
            count[0] += 1
            env = self.phi_env(b, prev, env)
            if count[0] > self.LIMIT:
                raise AnalysisError('path bound exceeded in %s' % self.dem)
            if within is not None:
                if b == target and not first:
                    res.append(items)
                    return
                if b not in within.blocks:
                    return
            l = self.loops.get(b)
            if l and not (within is not None and l is within):
                # collapse: leave through each exiting edge
                if within is not None and within.header == b:
                    pass
                for eb in l.exits:
                    for s in self.succ[eb]:
                        if s in l.blocks:
                            continue
                        for part in self._partial(l, eb, s):
                            walk(s, items + [LoopItem(l, part, eb)], False, eb, env)
                if not l.exits:
                    if within is None:
                        res.append((items + [LoopItem(l, [], None)], None))
                return
            its = items + blockitems(b)
            term = self.blocks[b]['ins'][-1]
            if term['o'] == 'ret':
                if within is None:
                    res.append((its, term))
                return
            if term['o'] == 'unreachable':
                if within is None:
                    res.append((its, term))
                return
            if term['o'] == 'br' and len(term['su']) == 2 and term['su'][0] != term['su'][1]:
                c = self.lift(self.op(term['a'][0]))
                # LLVM operand order: cond, false, true ; successors order: true, false
                cf = self.in_env(c, env)
                for s, v in ((term['su'][0], True), (term['su'][1], False)):
                    cc = Cond(c, v, term, self)
                    if isconst(cf) and bool(cf[1]) != v:
                        continue
                    if consistent(items, cc) and (cf is c or consistent(items, Cond(cf, v, term, self))):
                        walk(s, its + [cc], False, b, env)
                return
            if term['o'] == 'switch':
                c = self.lift(self.op(term['a'][0]))
                cf = self.in_env(c, env)
                for val, s in term['cases']:
                    if not isconst(cf) or cf[1] == val:
                        walk(s, its + [Cond(('icmp', 'eq', c, I(val)), True, term, self)], False, b, env)
                if not isconst(cf) or cf[1] not in [v for v, _ in term['cases']]:
                    walk(term['def'], its + [Cond(('switchdef', c, tuple(v for v, _ in term['cases'])), True, term, self)], False, b, env)
                return
            for s in term.get('su', []):
                walk(s, its, False, b, env)
        import sys
        sys.setrecursionlimit(20000)
        walk(start, [], True)
        return res

    def _partial(self, l, eb, s):
        """item lists for header -> exiting block eb (within one iteration), ending with the exit condition"""
        key = ('partial', l.header, eb, s)
        if not hasattr(self, '_pc'):
            self._pc = {}
        if key in self._pc:
            return self._pc[key]
        out = []
        def walk(b, items, seen, prev=None, env={}):
            if b in seen:
                return
            env = self.phi_env(b, prev, env)
            if len(out) > 2000:
                raise AnalysisError('partial path bound in %s' % self.dem)
            ll = self.loops.get(b)
            if ll and ll is not l and ll.blocks < l.blocks:
                if eb in ll.blocks:
                    # leaves straight out of a nested loop
                    out.append(items + [LoopItem(ll, [], eb)])
                    return
                for e2 in ll.exits:
                    for s2 in self.succ[e2]:
                        if s2 in ll.blocks or s2 not in l.blocks:
                            continue
                        walk(s2, items + [LoopItem(ll, [], e2)], seen | {b}, e2, env)
                return
            its = list(items)
            for i in self.blocks[b]['ins']:
                e = self.event(i)
                if e:
                    its.append(e)
            term = self.blocks[b]['ins'][-1]
            conds = {}
            if term['o'] == 'br' and len(term['su']) == 2:
                c = self.lift(self.op(term['a'][0]))
                conds = {term['su'][0]: Cond(c, True, term, self), term['su'][1]: Cond(c, False, term, self)}
            cf = self.in_env(next(iter(conds.values())).t, env) if conds else None
            def dead(n):
                return n in conds and isconst(cf) and bool(cf[1]) != conds[n].v
            if b == eb:
                if not dead(s):
                    out.append(its + ([conds[s]] if s in conds else []))
                return
            for n in self.succ[b]:
                if n in l.blocks and n != l.header and not dead(n):
                    walk(n, its + ([conds[n]] if n in conds else []), seen | {b}, b, env)
        walk(l.header, [], frozenset())
        self._pc[key] = out
        return out

    def all_events(self):
        for b in sorted(self.blocks):
            if not self.blocks[b].get('reach', True):
                continue
            for i in self.blocks[b]['ins']:
                e = self.event(i)
                if e:
                    yield b, e

    # -------- foreach recognition
    def foreach(self, l):
        """If loop l visits every element of vector V once: (V addr term, elem size); else None."""
        c = l.count()
        if c is None:
            return None
        if c[0] == 'max0':
            c = c[1]
        if c[0] == 'size':
            return c[1], c[2]
        return None

    def elem_of(self, t, l):
        """Is term t = load(begin(V) + k*iter) for loop l? returns (V, stride, start offset)"""
        if t[0] != 'ld':
            return None
        return self.elem_addr(t[1], l)

    def elem_addr(self, a, l):
        d = P(a)
        it = ('iter', l.header)
        stride = d.pop((it,), None)
        if stride is None:
            return None
        c = d.pop((), 0)
        bs = [m for m, k in d.items() if k == 1 and len(m) == 1 and m[0][0] == 'ld']
        if len(d) == 1 and bs:
            return bs[0][0][1], stride, c
        return None
