"""D02 What is given or read as constant cannot be changed."""
import os, re, subprocess
import build, h03
from hdrlib import BASE, DEFS
from kern import *
LEVEL = 'other'
EXPLANATION = ('Type-level witnesses: for every kind of buffer and iterator the compiler decides whether each way of reading and each way of changing is accepted on a changeable and on a constant object; all reads and only the changes of changeable objects must be. '
               'Effect analysis: in the linked program (library, all inline functions, instantiated templates) no store, copy or fill of a function reaches memory of an argument that it takes by constant reference or pointer, its own object in constant methods included, and what it passes on goes only to parameters that are constant too.')
ASSUMPTIONS = ['functions of the standard library change no argument they take as constant', 'two arguments of a call do not overlap unless the function is meant for that']

BUFS = [('Buffer<double>', 'dsp::buff::Buffer<double>'), ('Buffer<float>', 'dsp::buff::Buffer<float>'), ('Buffer<int>', 'dsp::buff::Buffer<int>'), ('StaticBuffer<double, 8>', 'dsp::buff::StaticBuffer<double, 8>'),
        ('StaticBuffer<int, 3>', 'dsp::buff::StaticBuffer<int, 3>'), ('BaseBuffer<std::vector<double>>', 'dsp::buff::BaseBuffer<std::vector<double>>'), ('BaseBuffer<std::array<double, 4>>', 'dsp::buff::BaseBuffer<std::array<double, 4>>')]
ELEM = ['b.at(0, 0)', 'b.at(0)']
def deref(it):
    return ['*b.%s()' % it, 'b.%s()[1]' % it, '*(b.%s() + 1)' % it, '*same(b.%s())' % it, '*++same(b.%s())' % it, '*--same(b.%s())' % it, '*same(b.%s())++' % it, '*(same(b.%s()) += 1)' % it, '*b.%s().base()' % it, '*b.%s().operator->()' % it]
CONST = [e for it in ('scbegin', 'scend', 'icbegin', 'icend') for e in deref(it)]
WRITE = [e for it in ('sbegin', 'send', 'ibegin', 'iend', 'begin', 'end') for e in deref(it)] + ['*b.%s()' % it for it in ('srbegin', 'irbegin', 'srend', 'irend')]
INFO = [('b.size()', 'std::size_t'), ('b.channels()', 'std::size_t'), ('b.channel_capacity()', 'std::size_t'), ('b.get_samplerate()', 'double')]
POS = ['b.%s().%s()' % (it, g) for it in ('scbegin', 'icbegin') for g in ('get_index', 'get_channel', 'get_sample')]
CHANGE = ['b.set_channels(2)', 'b.set_samplerate(8000.)', 'b.sbegin()', 'b.send()', 'b.srbegin()', 'b.srend()', 'b.ibegin()', 'b.iend()', 'b.irbegin()', 'b.irend()', 'b.begin()', 'b.end()', 'b = other<B>()', 'b = gone<B>()', 'b.assign(held<B>())']
GROW = ['b.reserve(3)', 'b.resize(3)', 'b.shrink()', 'b.clear()', 'b.push_back(1)']
PRE = '''#include "audio_buffer.hpp"
#include "dsp/buffer.hpp"
#include <array>
#include <concepts>
#include <iterator>
#include <type_traits>
#include <vector>
template <class T> T& same(T&&);
template <class T> T& same(T&);
template <class B> using bare = std::remove_cvref_t<B>;
template <class B> using elem = typename bare<B>::value_type;
template <class B> const bare<B>& other();
template <class B> bare<B>&& gone();
template <class B> const typename bare<B>::container& held();
'''

def can(ty, cond, arg='B b, elem<B> v'):
    return '[]<class B>() { return requires(%s) { %s }; }.template operator()<%s>()' % (arg, cond, ty)

def witnesses():
    """(rule, site, expression that must be true)"""
    out = []
    def w(rule, site, e, want=True):
        out.append((rule, site, ('' if want else '!') + e))
    for name, B in BUFS:
        c, m = 'const %s&' % B, B + '&'
        for ty, who in ((c, 'constant ' + name), (m, name)):
            for e in CONST + (ELEM if ty is c else []):
                w('readable', '%s: %s' % (who, e), can(ty, '{ %s } -> std::convertible_to<elem<B>>;' % e))
                w('not-writable', '%s: %s' % (who, e), can(ty, '%s = v;' % e), False)
                w('not-writable', '%s: address of %s' % (who, e), can(ty, 'same<elem<B>*>(&(%s));' % e), False)
        for e in ELEM + WRITE:
            w('readable', '%s: %s' % (name, e), can(m, '{ %s } -> std::convertible_to<elem<B>>;' % e))
            w('writable', '%s: %s' % (name, e), can(m, '%s = v;' % e))
        for e, t in INFO:
            w('readable', 'constant %s: %s' % (name, e), can(c, '{ %s } -> std::same_as<%s>;' % (e, t)))
            w('not-writable', '%s: %s' % (name, e), can(m, '%s = 2;' % e), False)
        for e in POS:
            w('readable', 'constant %s: %s' % (name, e), can(c, '{ %s } -> std::convertible_to<int>;' % e))
        for e in CHANGE + (GROW if name.startswith('Buffer') else []):
            w('writable', '%s: %s' % (name, e), can(m, e + ';'))
            w('not-writable', 'constant %s: %s' % (name, e), can(c, e + ';'), False)
        w('not-writable', 'constant %s: get_buff' % name, can(c, 'b.get_buff();'), False)
        # a writable iterator cannot be had from a constant buffer or a constant iterator
        for it, cit in (('sbegin', 'scbegin'), ('ibegin', 'icbegin')):
            W, C = 'decltype(same<%s>(*(%s*)0).%s())' % (m, B, it), 'decltype(same<%s>(*(%s*)0).%s())' % (m, B, cit)
            w('not-writable', '%s: %s from a constant buffer' % (name, it), 'std::is_constructible_v<%s, const %s*>' % (W, B), False)
            w('not-writable', '%s: %s from a constant iterator' % (name, it), 'std::is_constructible_v<%s, %s>' % (W, C), False)
            w('not-writable', '%s: %s assigned a constant iterator' % (name, it), 'std::is_assignable_v<%s&, %s>' % (W, C), False)
            w('readable', '%s: %s from a constant buffer' % (name, cit), 'std::is_constructible_v<%s, const %s*>' % (C, B))
            w('iterator', '%s: %s' % (name, it), 'std::bidirectional_iterator<%s> && std::output_iterator<%s, elem<%s>>' % (W, W, B))
            w('iterator', '%s: %s is no output iterator' % (name, cit), '!std::output_iterator<%s, elem<%s>> && !std::indirectly_writable<%s, elem<%s>>' % (C, B, C, B))
            for x, who in ((W, it), (C, cit)):
                w('iterator', '%s: %s traits' % (name, who), 'std::derived_from<typename std::iterator_traits<%s>::iterator_category, std::random_access_iterator_tag> && std::same_as<std::remove_cv_t<typename std::iterator_traits<%s>::value_type>, elem<%s>> && std::signed_integral<typename std::iterator_traits<%s>::difference_type>' % (x, x, B, x))
                w('iterator', '%s: %s orders and counts' % (name, who), can(x, '{ b == b } -> std::convertible_to<bool>; { b != b } -> std::convertible_to<bool>; { b < b } -> std::convertible_to<bool>; { b >= b } -> std::convertible_to<bool>; b + 1; b - 1; b - b;', 'B b'))
            w('iterator', '%s: reference of %s' % (name, it), 'std::same_as<typename std::iterator_traits<%s>::reference, elem<%s>&> && std::same_as<typename std::iterator_traits<%s>::pointer, elem<%s>*>' % (W, B, W, B))
            w('iterator', '%s: reference of %s' % (name, cit), 'std::same_as<typename std::iterator_traits<%s>::reference, const elem<%s>&> && std::same_as<typename std::iterator_traits<%s>::pointer, const elem<%s>*>' % (C, B, C, B))
        w('value', name + ': copied', 'std::is_copy_constructible_v<%s> && std::is_copy_assignable_v<%s>' % (B, B))
        w('value', name + ': moved without failing', 'std::is_nothrow_move_constructible_v<%s> && std::is_nothrow_move_assignable_v<%s>' % (B, B))
        w('value', name + ': default constructed', 'std::is_default_constructible_v<%s>' % B)
    for T in ('double', 'int'):
        R, CI = 'dsp::buff::RingBuffer<%s>' % T, 'dsp::buff::RingBuffer<%s>::RingIterator<%s, true>' % (T, T)
        rc = lambda e, ty=R + '&': can(ty, e, 'B b, %s v' % T)
        w('writable', 'RingBuffer<%s>: element' % T, rc('b[0] = v; *b.begin() = v;'))
        w('readable', 'constant RingBuffer<%s>: size' % T, rc('{ b.size() } -> std::same_as<std::size_t>;', 'const %s&' % R))
        for e in ('b[0] = v', '*b.begin() = v', '*b.end() = v', 'b.resize(2)', 'b.reserve(2)'):
            w('not-writable', 'constant RingBuffer<%s>: %s' % (T, e), rc(e + ';', 'const %s&' % R), False)
        for e in ('*b', 'b[0]', '*(b + 1)', '*b.operator->()', '*++same(b)'):
            w('readable', 'RingIterator<%s, true>: %s' % (T, e), can(CI, '{ %s } -> std::convertible_to<%s>;' % (e, T), 'B b'))
            w('not-writable', 'RingIterator<%s, true>: %s' % (T, e), can(CI, '%s = v;' % e, 'B b, %s v' % T), False)
        w('value', 'RingBuffer<%s>' % T, 'std::is_copy_constructible_v<%s> && std::is_nothrow_move_constructible_v<%s>' % (R, R))
    return out

def types(ctx):
    ws = witnesses()
    src = os.path.join(ctx.work, 'constant.cpp')
    head = PRE.count('\n')
    open(src, 'w').write(PRE + ''.join('static_assert(%s, "rejected");\n' % e for r, s, e in ws))
    r = subprocess.run([build.CLANG] + BASE + DEFS + ['-ferror-limit=0', '-fsyntax-only', src], capture_output=True, text=True)
    bad, last, stray = {}, None, None
    for l in r.stderr.split('\n'):
        m = re.match(r'(/[^:]+):(\d+):\d+: (fatal error|error|note): (.*)', l)
        if not m:
            continue
        if m[3] != 'note':
            last = l
        if m[1] == src and int(m[2]) > head:
            if m[3] != 'note':
                bad.setdefault(int(m[2]) - head - 1, l)
            elif last and not last.startswith(src) and ('requested here' in m[4] or 'while' in m[4]):
                bad.setdefault(int(m[2]) - head - 1, last)
        elif m[3] != 'note':
            stray = stray or l
    says = {'readable': ('can be read', 'cannot be read'), 'not-writable': ('cannot be changed', 'can be changed'), 'writable': ('can be changed', 'cannot be changed'), 'iterator': ('is what the algorithms expect', 'is not what the algorithms expect'), 'value': ('holds', 'does not hold')}
    n = {}
    for k, (rule, site, e) in enumerate(ws):
        ok = k not in bad
        d = bad.get(k, '')
        ctx.ob(rule, site, ok, says[rule][0] if ok else says[rule][1] + ('' if d.startswith(src) else ': ' + d), d.split(': ')[0] if d and not d.startswith(src) else 'include/maec/dsp/buffer.hpp')
        n[rule] = n.get(rule, 0) + 1
    ctx.ob('type-checks', 'all witnesses', r.returncode == 0 or bool(bad), stray or 'type-checks', '')
    for rule, m in (('readable', 400), ('not-writable', 800), ('writable', 400), ('iterator', 80), ('value', 20)):
        ctx.need(rule + ' witnesses', n.get(rule, 0), m)
    ctx.units.add(build.REPO + '/include/maec/dsp/buffer.hpp')

WITS = h03.WITS + ('inst.cpp', 'dsp.cpp', 'iir.cpp', 'stream.cpp', 'wav.cpp')
OWN = re.compile(r'^(std::|__)')

def root(t, d=0):
    """the argument an address is reached from, by offsets and owned pointers"""
    b, _ = base_off(t)
    if b is None:
        b = t
    if b[0] == 'arg':
        return b
    if b[0] in ('ld', 'begin', 'end') and len(b) > 1 and isinstance(b[1], tuple) and d < 8:
        return root(b[1], d + 1)
    if b[0] == 'add':
        for x in b[1:]:
            y = root(x, d + 1) if isinstance(x, tuple) and d < 8 else None
            if y:
                return y
    return None

def params(d):
    """the parameter types of a demangled name, and whether it is a constant method"""
    i, depth = len(d) - 1, 0
    const = d.endswith(' const')
    i = d.rfind(')')
    while i >= 0:
        depth += {')': 1, '>': 1, '(': -1, '<': -1}.get(d[i], 0)
        if depth == 0:
            break
        i -= 1
    out, depth, cur = [], 0, ''
    for c in d[i + 1:d.rfind(')')] + ',':
        depth += {'(': 1, '<': 1, ')': -1, '>': -1}.get(c, 0)
        if c == ',' and depth == 0:
            out += [cur.strip()] * (2 if re.match(r'std::(initializer_list|basic_string_view|span)<', cur.strip()) and not cur.strip().endswith(('&', '*')) else 1)       # passed as two values
            cur = ''
        else:
            cur += c
    return [x for x in out if x], const

GATE = re.compile(r'^(std::)?(mutex|unique_lock|lock_guard|shared_mutex|condition_variable)\b')

def taken_constant(e, k, direct):
    """does the callee take its argument k as constant (or by value)?"""
    d = e.ins.get('d') or ''
    if '(' not in d:
        return True         # a function of the C library; those that write memory are stores and copies here
    if not direct and not re.match(r'^(void |.* )?std::', d):
        return True         # an object that is only referred to
    ps, const = params(d)
    k -= len(e.args) - len(ps)          # this, and memory for the result
    if k < 0:
        return const or GATE.match(d.split('<')[0]) is not None or len(ps) == 0 and k < -1
    t = ps[k]
    return ' const' in t or not t.endswith(('&', '*')) and '*' not in t or 'std::mutex' in t or 'std::condition_variable' in t

def constants(f):
    """indices of the arguments the function takes as constant"""
    dt = f.j.get('ditypes', [])
    na = len(f.j['args'])
    sret = na - (len(dt) - 1)         # results returned in memory come first, or after this
    if sret not in (0, 1):
        return None
    out = {}
    for k, t in enumerate(dt[1:]):
        if k == 0 and '(anon)' in t or k == 0 and re.search(r"::(\$_\d+|'lambda\d*'[^:]*)::operator\(\)", f.dem):
            continue                      # what a closure refers to is not part of it
        if re.match(r'^const .*[&*]( const)?$', t) and '**' not in t:
            out[k + sret] = 'its object' if k == 0 and f.dem.endswith(' const') else 'argument %d (%s)' % (k + (0 if f.is_method() else 1), t)
    return out

def effects_of(ctx):
    prog = ctx.program(['.*'], wits=WITS, alldecls=True)
    n = passed = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.dem):
        if not f.j.get('file', '').startswith(build.REPO + '/') or OWN.match(f.dem) or ' std::' in f.dem.split('(')[0] or '__gnu' in f.dem.split('(')[0]:
            continue
        cs = constants(f)
        if not cs:
            continue
        try:
            evs = [e for p in f.paths() for e in walk_events(p[0]) if e.kind not in ('cond', 'loop')]
        except AnalysisError as e:
            ctx.ob('constant-unchanged', f.dem, False, 'cannot be analysed: %s' % e, f.where(None))
            continue
        bad = None
        for e in evs:
            if e.kind in ('store', 'fill', 'copy'):
                r = root(e.addr)
                if r and r[1] in cs:
                    bad = bad or (e, 'changes %s, which it takes as constant' % cs[r[1]])
            elif e.kind in ('call', 'vcall') and e.args:
                for k, a in enumerate(e.args):
                    r = root(a)
                    if r and r[1] in cs:
                        passed += 1
                        if not taken_constant(e, k, base_off(a)[0] == r):
                            bad = bad or (e, 'passes %s, which it takes as constant, to %s' % (cs[r[1]], strip_targs(e.ins.get('d') or e.name or '')))
        ctx.fn(f)
        n += 1
        ctx.ob('constant-unchanged', f.dem, bad is None, bad[1] if bad else 'changes nothing behind %s' % ', '.join(cs.values()), f.where(bad[0].ins if bad else None))
    ctx.need('functions with constant arguments', n, 240)
    ctx.need('constant arguments passed on', passed, 50)

def run(ctx):
    types(ctx)
    effects_of(ctx)
