"""W06 a file stream reports open failures and the end of its data through its state."""
from bits import *
from fin import *
import itertools
LEVEL = 'other'
EXPLANATION = ('Typestate analysis: every method of the file streams is interpreted abstractly over the product of the stream state (init, started, stopped, err) and a model of the standard file stream (closed/open, good/at end/failed), with every outcome the standard '
               'library may give (open succeeds or fails; a transfer succeeds, is short or fails). Pointer, count, path and mode arguments are compared bit by bit with the parameters and the stored path. Every final state is compared with the specified one.')
ASSUMPTIONS = ['std::ifstream and std::ofstream behave as the standard says (open clears the flags on success, a short read sets eofbit and failbit)']
GOOD, EOF, FAIL, BAD = 0, 2, 4, 1
STD = ['^std::basic_[iof]*stream', '^std::basic_ios', '^std::basic_filebuf', '^std::ios_base', r'^std::.*basic_string', '^std::(vector|__cxx11|istream|ostream)']

class File(Interp):
    """the standard file stream as an automaton; st.x['file'] = [open, flags]"""
    def __init__(self, f, opened, flags, outcome, state=None):
        super().__init__(f)
        self.opened, self.flags, self.outcome, self.state = opened, flags, outcome, state
    def run(self):
        st = State()
        st.x['file'] = [self.opened, self.flags]
        if self.state is not None:
            st.store(('p', ('arg', 0), 8), cint(self.state, 32), 4)
        return super().run(init=st)
    def flag(self, st, fl):
        return fl
    def on_call(self, st, i, args):
        d, x = i.get('d', ''), st.x
        if not i.get('f'):
            e = self.f.event(i)
            raise Top('calls %s virtually' % (e.name or '?'))
        if not d.startswith('std::'):
            if any(a[0] == 'p' and a[1] == ('arg', 0) for a in args):
                raise Top('calls %s' % d[:80])
            return
        m = re.match(r'^std::(?:__cxx11::)?(?:basic_)?(\w+)(?:<.*?>>?)?::(~?[\w ]+|operator!|operator bool)(?:<.*>)?\(', d)
        cls, nm = (m.group(1), m.group(2)) if m else ('', d)
        ops, fl = x.setdefault('ops', []), x['file']
        w = TW.match(i.get('t', ''))
        def ret(v):
            st.val[i['i']] = cint(int(v), int(w.group(1)))
        if 'basic_string' in d and 'stream' not in d.split('(')[0]:
            if nm in ('c_str', 'data'):
                st.val[i['i']] = ('p', ('chars', args[0][1], args[0][2]), 0)
            return
        if nm == 'open':
            ops.append(('open', args[1], value(args[2]) if len(args) > 2 else None))
            if fl[0] or not self.outcome[0]:
                fl[1] |= FAIL
                x['file'] = [fl[0], fl[1]]
                if 'filebuf' in d:
                    x['file'] = [fl[0], fl[1] & ~FAIL]
                    st.val[i['i']] = ('p', ('null',), 0)
            else:
                x['file'] = [1, GOOD]
        elif nm == 'close':
            ops.append(('close',))
            x['file'] = [0, fl[1] | (0 if fl[0] else FAIL)]
        elif nm in ('read', 'write') and len(args) == 3:
            ops.append((nm, args[1], args[2]))
            if not fl[0] or fl[1] or self.outcome[1] == 'bad':
                x['file'] = [fl[0], fl[1] | (FAIL if nm == 'read' and (fl[1] or not fl[0]) else BAD)]
            elif self.outcome[1] == 'short':
                x['file'] = [fl[0], fl[1] | EOF | FAIL]
        elif nm in ('seekg', 'seekp'):
            ops.append((nm, args[1], value(args[2]) if '_Ios_Seekdir' in d and len(args) > 2 and args[2][0] == 'i' else 0))
            x['file'] = [fl[0], (fl[1] & ~EOF) if nm == 'seekg' else fl[1]]
        elif nm == 'good':
            ret(fl[1] == 0)
        elif nm == 'eof':
            ret(bool(fl[1] & EOF))
        elif nm in ('fail', 'operator!'):
            ret(bool(fl[1] & (FAIL | BAD)))
        elif nm == 'operator bool':
            ret(not fl[1] & (FAIL | BAD))
        elif nm == 'bad':
            ret(bool(fl[1] & BAD))
        elif nm == 'rdstate':
            ret(fl[1])
        elif nm == 'is_open':
            ret(fl[0])
        elif nm == 'clear':
            n = value(args[1]) if len(args) > 1 else 0
            if n is None:
                raise Top('clears unknown flags')
            x['file'] = [fl[0], n]
            ops.append(('clear',))
        elif nm == 'gcount':
            raise Top('depends on the number of bytes transferred')
        elif nm in ('flush', 'rdbuf'):
            pass
        else:
            raise Top('calls %s' % d[:90])

def outcome(ctx, f, opened, flags, oc, state):
    fi = File(f, opened, flags, oc, state)
    res = fi.run()
    if fi.cut or len(res) != 1:
        raise Top('%d ways' % len(res))
    st = res[0][0]
    return st, st.x['file'], st.x.get('ops', []), value(st.load(('p', ('arg', 0), 8), 4, 'i32', None)), res[0][1]

def run(ctx):
    prog = ctx.program([r'^F[IO]Stream::(read|write|start|stop|seek)\(', '^wit_(f|m)[io]_'], wits=('stream.cpp',), opaque=STD, transparent=['^BaseM[IO]?Stream', '^BaseFStream', '^F[IO]Stream'], keep=[])
    T = ('arg', 0)
    for cls, io, wit in (('FIStream', 'read', 'fi'), ('FOStream', 'write', 'fo')):
        path = set()
        g = prog.one('^wit_%s_get_path$' % wit)
        s = prog.one('^wit_%s_set_path$' % wit)
        for f, k in ((g, 1), (s, 0)):
            ctx.fn(f)
            for items, ex in ret_paths(f):
                es = [e for e in walk_events(items) if e.kind == 'call' and 'basic_string' in e.full and not e.name.startswith('~')]
                ok = len(es) == 1 and len(es[0].args) == 2 and base_off(drop_version(es[0].args[k]))[0] == T and drop_version(es[0].args[1 - k]) == ('arg', 1) and (f is g or es[0].name in ('operator=', 'assign', '_M_assign'))
                if ok:
                    path.add(base_off(drop_version(es[0].args[k]))[1])
                ctx.ob('path', cls + ('::get_path' if f is g else '::set_path'), ok, 'the given path is %s' % ('returned' if f is g else 'stored, always'), f.where(None))
        ctx.ob('path', cls, len(path) == 1, 'one path is stored and returned (%s)' % path, g.where(None))
        path = path.pop() if path else -1
        def case(rule, name, f, opened, flags, oc, state, judge):
            try:
                d = judge(*outcome(ctx, f, opened, flags, oc, state)[1:])
            except Top as t:
                d = 'cannot be decided: %s' % t
            ctx.ob(rule, '%s::%s %s' % (cls, name, 'state %d, file %s%s, %s' % (state, 'open' if opened else 'closed', ' failed' if flags else '', oc)), d is None, d or 'state, file and arguments as specified', f.where(None))
        # ---- start
        f = prog.one(r'^%s::start\(' % cls)
        ctx.fn(f)
        for ok, state, flags in itertools.product((1, 0), (0, 1, 2, 3), (0, FAIL, EOF | FAIL, BAD)):
            def judge(fl, ops, stt, r):
                o = [x for x in ops if x[0] == 'open']
                if len(o) != 1:
                    return 'the file is opened %d times' % len(o)
                if o[0][1] not in (('p', T, path), ('p', ('chars', T, path), 0)):
                    return 'opens something else than the configured path'
                m = o[0][2]
                if m is None or not m & 4 or m & ~(12 if io == 'read' else 4 | 16 | 32):
                    return 'opens with mode %s' % m
                if any(x[0] in ('read', 'write') or x[0].startswith('seek') for x in ops):
                    return 'transfers data'
                if ok and (stt != 1 or not fl[0] or fl[1]):
                    return 'after a successful open the state is %s and the file %s' % (stt, fl)
                if not ok and stt != 3:
                    return 'after a failed open the state is %s' % stt
            case('start', 'start', f, 0, flags, (ok, 'good'), state, judge)
        # ---- stop
        f = prog.one(r'^%s::stop\(' % cls)
        ctx.fn(f)
        for opened, state, flags in itertools.product((1, 0), (0, 1, 2, 3), (0, FAIL, BAD)):
            case('stop', 'stop', f, opened, flags, (1, 'good'), state, lambda fl, ops, stt, r: 'transfers or opens' if [x for x in ops if x[0] not in ('close', 'clear')] else 'the state is %s' % stt if stt != 2 else 'the file stays open' if fl[0] else None)
        # ---- read / write
        f = prog.one(r'^%s::%s\(' % (cls, io))
        ctx.fn(f)
        n = sym(('arg', 2), 32)
        want = (io, ('p', ('arg', 1), 0), ('i', n[1] + (n[1][-1],) * 32))
        for opened, flags, oc, state in itertools.product((1, 0), (0, FAIL, BAD), ('good', 'short', 'bad'), (0, 1, 2, 3)):
            if oc == 'short' and io == 'write':
                continue
            def judge(fl, ops, stt, r):
                tr = [x for x in ops if x[0] in ('read', 'write')]
                if opened and not flags and tr != [want]:
                    return 'does not %s the given bytes once: %s' % (io, [(x[0],) for x in tr])
                if any(x[0] in ('open', 'clear') or x[0].startswith('seek') for x in ops):
                    return 'does %s' % [x[0] for x in ops]
                if opened and not flags and oc == 'good':
                    if stt != state or not fl[0] or fl[1]:
                        return 'a successful transfer leaves state %s and file %s' % (stt, fl)
                elif stt != 2 or fl[0]:
                    return 'a transfer that failed leaves state %s and the file %s' % (stt, 'open' if fl[0] else 'closed')
            case('transfer', io, f, opened, flags, (1, oc), state, judge)
        # ---- seek
        f = prog.one(r'^%s::seek\(' % cls)
        ctx.fn(f)
        sk = 'seekg' if io == 'read' else 'seekp'
        p = sym(('arg', 1), 32)
        for state in (0, 1):
            case('seek', 'seek', f, 1, 0, (1, 'good'), state, lambda fl, ops, stt, r: None if ops == [(sk, ('i', p[1] + (p[1][-1],) * 32), 0)] and stt == state else 'does %s' % [x[0] for x in ops])
        # ---- eof
        f = prog.one('^wit_%s_eof$' % wit)
        ctx.fn(f)
        for flags in (0, EOF, EOF | FAIL, FAIL, BAD):
            case('eof', 'eof', f, 1, flags, (1, 'good'), 1, lambda fl, ops, stt, r: None if value(r) == int(bool(flags & EOF)) and stt == 1 and not ops else 'reports %s' % (r,))
    # ---- state of every stream
    for w, base in (('mi', 'BaseMIStream'), ('mo', 'BaseMOStream')):
        for what, spec in (('good', lambda s: int(s < 2)), ('bad', lambda s: int(s >= 2)), ('state', lambda s: s)):
            f = prog.one('^wit_%s_%s$' % (w, what))
            ctx.fn(f)
            for s in range(4):
                st, fl, ops, stt, r = outcome(ctx, f, 0, 0, (1, 'good'), s)
                ctx.ob('state', '%s::%s state %d' % (base, what, s), value(r) == spec(s) and stt == s and not ops, 'reports %s' % value(r), f.where(None))
        for what, to in (('start', 1), ('stop', 2), ('set', None)):
            f = prog.one('^wit_%s_%s$' % (w, what))
            ctx.fn(f)
            for s in range(4):
                st, fl, ops, stt, r = outcome(ctx, f, 0, 0, (1, 'good'), s)
                ok = stt == to if to else st.load(('p', T, 8), 4, 'i32', None) == sym(('arg', 1), 32)
                ctx.ob('state', '%s::%s state %d' % (base, what, s), ok and not ops, 'the state becomes %s' % stt, f.where(None))
    ctx.need('methods', len(ctx.analysed), 20)
