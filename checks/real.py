"""Real-arithmetic normal form of terms: Laurent polynomials over atoms (rounding ignored), piecewise-affine forms, intervals."""
from kern import *
from fractions import Fraction

def flt(x):
    try:
        return Fraction(x) if 'e' not in x.lower() and 'x' not in x.lower() else Fraction(float(x))
    except Exception:
        return Fraction(float(x))

def rmono(m):
    return tuple(sorted(((a, e) for a, e in m.items() if e), key=repr))

def radd(a, b, k=1):
    d = dict(a)
    for m, c in b.items():
        d[m] = d.get(m, 0) + k * c
        if d[m] == 0:
            del d[m]
    return d

def rmul(a, b):
    d = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            e = dict(m1)
            for x, k in m2:
                e[x] = e.get(x, 0) + k
            m = rmono(e)
            d[m] = d.get(m, 0) + c1 * c2
    return {m: c for m, c in d.items() if c}

def rconst(c):
    return {(): Fraction(c)} if c else {}

def ratom(t):
    return {((t, 1),): Fraction(1)}

def rinv(a):
    if len(a) == 1:
        (m, c), = a.items()
        return {rmono({x: -e for x, e in m}): 1 / c}
    # normalise the leading coefficient so that equal denominators agree
    ms = sorted(a.items(), key=repr)
    lead = ms[0][1]
    return {((('sum', tuple((m, c / lead) for m, c in ms)), -1),): 1 / lead}

INTCAST = {'sitofp', 'uitofp'}

def R(t, leaf=None, sub_=None):
    """normal form; leaf(term) may return a replacement normal form or None"""
    if leaf is not None:
        r = leaf(t)
        if r is not None:
            return r
    k = t[0]
    rec = lambda x: R(x, leaf)
    if k == 'f':
        try:
            return rconst(flt(t[1]))
        except Exception:
            return ratom(t)
    if k == 'i':
        return rconst(t[1])
    if k == 'fadd' or k == 'fsub':
        return radd(rec(t[1]), rec(t[2]), 1 if k == 'fadd' else -1)
    if k == 'fmul':
        return rmul(rec(t[1]), rec(t[2]))
    if k == 'fneg':
        return rmul(rconst(-1), rec(t[1]))
    if k == 'fdiv':
        d = rec(t[2])
        if not d:
            return ratom(t)
        return rmul(rec(t[1]), rinv(d))
    if k in INTCAST:
        return rec(t[1])
    if k == 'P':
        acc = {}
        for m, c in t[1]:
            p = rconst(c)
            for x in m:
                p = rmul(p, rec(x))
            acc = radd(acc, p)
        return acc
    return ratom(t)

# ------------------------------------------------------------ piecewise affine functions of one atom
def rsub_atom(r, atom, p):
    """substitute the rational p for atom"""
    d = {}
    for m, c in r.items():
        e = dict(m)
        k = e.pop(atom, 0)
        if k < 0 and p == 0:
            raise AnalysisError('division by zero at a piece point')
        c = c * (Fraction(p) ** k)
        mm = rmono(e)
        d[mm] = d.get(mm, 0) + c
    return {m: c for m, c in d.items() if c}

PRED = {'olt': lambda v: v < 0, 'ult': lambda v: v < 0, 'ole': lambda v: v <= 0, 'ule': lambda v: v <= 0, 'oeq': lambda v: v == 0, 'ueq': lambda v: v == 0,
        'une': lambda v: v != 0, 'one': lambda v: v != 0}

def cond_at(c, atom, p):
    """truth of a comparison at atom = p, or None if it does not only depend on the atom"""
    if c[0] == 'fcmp' and c[1] in PRED:
        d = rsub_atom(radd(R(resolve(c[2], atom, p)), R(resolve(c[3], atom, p)), -1), atom, p)
        if set(d) <= {()}:
            return PRED[c[1]](d.get((), Fraction(0)))
    if c[0] == 'xor' and ('i', -1) in c[1:] or c[0] == 'xor' and ('i', 1) in c[1:]:
        o = [x for x in c[1:] if x[0] != 'i'][0]
        v = cond_at(o, atom, p)
        return None if v is None else not v
    if c[0] in ('and', 'or'):
        vs = [cond_at(x, atom, p) for x in c[1:]]
        if None in vs:
            return None
        return all(vs) if c[0] == 'and' else any(vs)
    if c[0] == 'i':
        return bool(c[1])
    return None

def resolve(t, atom, p):
    def f(x):
        if x[0] == 'ite':
            v = cond_at(x[1], atom, p)
            if v is not None:
                return resolve(x[2] if v else x[3], atom, p)
        return None
    return subst(t, f)

def thresholds(terms, atom):
    out = set()
    for t in terms:
        for s in subterms(t):
            if s[0] == 'fcmp':
                d = radd(R(s[2]), R(s[3]), -1)
                k = {}
                ok = True
                for m, c in d.items():
                    if m == ():
                        k[0] = c
                    elif m == ((atom, 1),):
                        k[1] = c
                    else:
                        ok = False
                if ok and k.get(1):
                    out.add(-k.get(0, Fraction(0)) / k[1])
    return out

def pieces(paths, atom, lo, hi):
    """paths: [(conds, value)] -> [(a, b, normal form)] over (lo, hi); conds are (term, bool)"""
    th = thresholds([c for cs, v in paths for c, _ in cs] + [v for cs, v in paths], atom)
    pts = sorted({Fraction(lo), Fraction(hi)} | {x for x in th if lo < x < hi})
    out = []
    for a, b in zip(pts, pts[1:]):
        mid = (a + b) / 2
        vals = []
        for cs, v in paths:
            tv = [(cond_at(c, atom, mid), w) for c, w in cs]
            if any(x is None for x, w in tv):
                return None
            if all(x == w for x, w in tv):
                vals.append(R(resolve(v, atom, mid)))
        if not vals or any(x != vals[0] for x in vals):
            return None
        if out and out[-1][2] == vals[0] and out[-1][1] == a:
            out[-1] = (out[-1][0], b, vals[0])
        else:
            out.append((a, b, vals[0]))
    return out

def rstr(r):
    def mono(m):
        return '*'.join('%s%s' % (tstr(a) if a[0] != 'sum' else '(sum)', '' if e == 1 else '^%d' % e) for a, e in m)
    return ' + '.join(('%s' % (float(c) if c.denominator > 1000 else c) if not m else ('%s*' % c if c != 1 else '') + mono(m)) for m, c in sorted(r.items(), key=repr)) or '0'
