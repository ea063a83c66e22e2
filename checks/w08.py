"""W08 ALSA devices, hints and names: acquired, used and released in order on every outcome of every call."""
from shape import *
from d04 import attempt
LEVEL = 'other'
EXPLANATION = ('Typestate analysis of the ALSA component by abstract interpretation: the library calls are modelled by the states of handles, device lists and names, every call that can fail is explored with each outcome, and device lists with each number of entries '
               'up to a bound; a handle must be open when used, be released once, and nothing may be held when a query returns.')
ASSUMPTIONS = ['the model of the ALSA library: a failed open leaves no handle, names and hints may be missing', 'std::string behaves as the standard says']

NAME = lambda k: ('hw:0', 'hw:1', 'hw:0', 'hw:3')[k]

class Alsa(Shape):
    def __init__(self, prog, choices):
        super().__init__(prog, 3000000)
        self.choices, self.taken = list(choices), []
        self.handles, self.lists, self.names, self.params, self.log, self.written_frames = {}, {}, {}, set(), [], []
        self.fixed, self.strs, self.opened, self.infos = None, {}, [], {}

    # outcomes: a fixed prefix, then the first alternative
    def choose(self, n, what):
        if self.fixed is not None:
            r = self.fixed.get(what, 0)
            return r
        k = len(self.taken)
        r = self.choices[k] if k < len(self.choices) else 0
        self.taken.append((r, n))
        return r

    def load(self, p, n, t):
        if isinstance(p, tuple) and p[0] == 'p' and p[1] in self.lists:
            if self.lists[p[1]][0] != 'held':
                raise Top('reads a device list that was %s' % self.lists[p[1]][0])
            k = self.lists[p[1]][1]
            if p[2] % 8 or not 0 <= p[2] // 8 <= k:
                raise Top('reads entry %d of a device list of %d' % (p[2] // 8, k))
            return ('p', ('hint', p[1], p[2] // 8), 0) if p[2] // 8 < k else ('p', 'null', 0)
        try:
            return super().load(p, n, t)
        except Top as u:
            if 'never set' in str(u) and isinstance(p[1], tuple) and p[1][0] in ('stack', 'heap'):
                return ('undef',)
            raise

    def store(self, p, v, n):
        if isinstance(v, tuple) and v[0] == 'undef':
            return
        super().store(p, v, n)

    def need(self, h, what):
        st = self.handles.get(h[1]) if isinstance(h, tuple) and h[0] == 'p' else None
        if st is None:
            raise Top('%s on a device that is not open' % what)
        if st['state'] == 'closed':
            raise Top('%s on a device that was closed' % what)
        return st

    def hook(self, f, i, fn, d, nm, args):
        if fn.startswith('snd_'):
            return self.snd(fn, args)
        if fn == 'free':
            p = args[0][1]
            if p == 'null':
                return None
            if p not in self.names:
                raise Top('frees something that is no name')
            if self.names[p] != 'held':
                raise Top('frees a name twice')
            self.names[p] = 'freed'
            self.dead.add(p)
            return None
        o = outer(d) if d else fn
        if 'mf_int16' in (nm, fn):
            return ('i16', self.real(args[0]))
        if 'basic_string' in o or 'operator==' in o and 'basic_string' in d or 'char_traits' in o:
            return self.string(nm, args, d, i)
        if 'basic_ostream' in d or 'ostream' in o:
            return args[0] if args else None
        return NotImplemented
    def vnamed(self, f, i, fn, args):
        if 'mf_int16' in fn:
            return ('i16', self.real(args[0]))
        if 'endl' in fn:
            return args[0]
        return NotImplemented

    def text(self, a):
        """the content of a string or of a name"""
        if not isinstance(a, tuple) or a[0] != 'p':
            return None
        if a[1] == 'null':
            raise Top('makes a string of a missing name')
        if a[1] in self.names:
            if self.names[a[1]] != 'held':
                raise Top('uses a name that was freed')
            return a[1][2]
        if isinstance(a[1], tuple) and a[1][0] == 'chars':
            return self.strs.get(a[1][1:], '')
        if isinstance(a[1], tuple) and a[1][0] == 'gl':
            g = self.prog.globals.get(a[1][1], {})
            return g.get('str') or ''
        return self.strs.get((a[1], a[2]), '')

    def string(self, nm, args, d, i):
        if nm in ('c_str', 'data', '_M_data', '_M_local_data'):
            return ('p', ('chars', args[0][1], args[0][2]), 0)
        ps = [a for a in args if isinstance(a, tuple) and a[0] == 'p']
        me = (args[0][1], args[0][2]) if ps else None
        if nm == 'basic_string' or nm == 'operator=' or nm == 'assign':
            src = [a for a in args[1:] if isinstance(a, tuple) and a[0] == 'p']
            if nm == 'basic_string' and re.search(r'basic_string\((std::allocator<char> const&)?\)$', d):
                src = []
            self.strs[me] = self.text(src[0]) if src else ''
            return args[0]
        if nm == '~basic_string':
            self.strs.pop(me, None)
            return None
        if nm in ('operator==', 'operator!='):
            return int((self.text(args[0]) == self.text(args[1])) == (nm == 'operator=='))
        if nm == 'compare' and len(args) == 2:
            x, y = self.text(args[0]), self.text(args[1])
            return (x > y) - (x < y)
        if nm in ('size', 'length'):
            return len(self.text(args[0]))
        if nm == 'empty':
            return int(not self.text(args[0]))
        if nm == 'clear':
            self.strs[me] = ''
            return None
        raise Top('calls string::%s' % nm)

    def snd(self, fn, args):
        self.log.append(fn)
        if fn == 'snd_pcm_open':
            self.opened.append(self.text(args[1]))
            if args[2] != 0:
                raise Top('opens a device for recording')
            if self.choose(2, 'open'):
                return -2
            self.n += 1
            h = ('pcm', self.n)
            self.size[h] = 0
            self.handles[h] = {'state': 'open', 'set': False, 'format': None, 'access': None, 'xrun': False, 'free': False}
            super().store(args[0], ('p', h, 0), 8)
            return 0
        if fn == 'snd_device_name_hint':
            k = self.choose(4, 'hints')
            if k == 0:
                return -2
            self.n += 1
            l = ('list', self.n)
            self.lists[l] = ['held', self.nhints if self.nhints is not None else k - 1]
            super().store(args[2], ('p', l, 0), 8)
            return 0
        if fn == 'snd_device_name_free_hint':
            if not isinstance(args[0], tuple) or args[0][1] not in self.lists or args[0][2]:
                raise Top('frees something that is no device list')
            if self.lists[args[0][1]][0] != 'held':
                raise Top('frees a device list twice')
            self.lists[args[0][1]][0] = 'freed'
            return 0
        if fn == 'snd_device_name_get_hint':
            h = args[0][1]
            if not isinstance(h, tuple) or h[0] != 'hint':
                raise Top('asks for a name of something that is no device')
            if self.lists[h[1]][0] != 'held':
                raise Top('asks for a name of a device of a freed list')
            key = self.text(args[1])
            if key not in ('NAME', 'DESC', 'IOID'):
                raise Top('asks for %s of a device' % key)
            alt = {'NAME': (NAME(h[2]), None), 'DESC': ('about %d' % h[2], None), 'IOID': (None, 'Output', 'Input')}[key]
            if (h[1], h[2], key) not in self.infos:
                self.infos[h[1], h[2], key] = alt[self.choose(len(alt), 'name')]
            v = self.infos[h[1], h[2], key]
            if v is None:
                return ('p', 'null', 0)
            self.n += 1
            p = ('name', self.n, v)
            self.names[p] = 'held'
            return ('p', p, 0)
        if fn == 'snd_pcm_close':
            st = self.need(args[0], fn)
            st['state'] = 'closed'
            return 0
        if fn == 'snd_pcm_hw_params_sizeof':
            return 608
        if fn.startswith('snd_pcm_hw_params_get_') or fn in ('snd_pcm_hw_params_malloc', 'snd_pcm_hw_params_free'):
            for k, a in enumerate(args[1:]):
                if isinstance(a, tuple) and a[0] == 'p' and a[1] != 'null':
                    super().store(a, 2, 8 if 'size' in fn and k == 0 else 4)
            return 16 if fn.endswith('sbits') else 0
        if fn.startswith('snd_pcm_'):
            st = self.need(args[0], fn)
            if fn == 'snd_pcm_hw_params':
                st['set'] = True
            elif fn == 'snd_pcm_hw_params_any':
                self.params.add(args[1][1])
            elif fn == 'snd_pcm_hw_params_set_format':
                st['format'] = args[2]
            elif fn == 'snd_pcm_hw_params_set_access':
                st['access'] = args[2]
            elif fn == 'snd_pcm_hw_params_set_channels':
                st['channels'] = args[2]
            elif fn in ('snd_pcm_prepare', 'snd_pcm_recover'):
                st['xrun'] = False
            elif fn == 'snd_pcm_hw_free':
                st['free'] = True
            elif fn == 'snd_pcm_writei':
                if not st['set'] or st['free']:
                    raise Top('writes to a device that is not configured')
                if st['xrun']:
                    raise Top('writes to a device after an underrun without preparing it')
                n, ch = uns(args[2], 64), st.get('channels')
                self.written_frames.append((st, n, [self.load(('p', args[1][1], args[1][2] + 2 * k), 2, None) for k in range(n * ch)] if n * ch <= 1 << 14 else None))
                if self.choose(2, 'write'):
                    st['xrun'] = True
                    return -32
                return n
            return 0
        raise Top('calls %s' % fn)
    nhints = None

    def held(self):
        for h, st in self.handles.items():
            if st['state'] == 'open':
                return 'a device is left open'
        for l, st in self.lists.items():
            if st[0] == 'held':
                return 'a list of devices is never freed'
        for p, st in self.names.items():
            if st == 'held':
                return 'a name is never freed'

def explore(go, limit=4000):
    """all sequences of outcomes"""
    todo, n = [[]], 0
    while todo:
        c = todo.pop()
        s, bad = go(c)
        n += 1
        if n > limit:
            raise Top('too many outcomes')
        if bad:
            return bad + ' (outcomes %s)' % [a for a, b in s.taken], n
        t = s.taken
        for k in range(len(c), len(t)):
            for a in range(1, t[k][1]):
                todo.append([x for x, b in t[:k]] + [a])
    return None, n

def s_off(prog, f):
    s = Alsa(prog, [])
    d = s.obj('device', None)
    return s.run(f, [d])[2]

def run(ctx):
    prog = ctx.program(['^wit_', '^DeviceInfo::(create|update)', '^ALSABase::', '^ALSASink::(process|start|stop)', '^mf_int16', '^SinkModule', '^BaseModule::[gs]et_buffer'], wits=('alsa.cpp',), opaque=['^mf_int16', '^free$'],
                       transparent=['^ALSABase::', '^DeviceInfo::', 'squish_inter', 'std::transform', 'dsp::buff::'])
    W = lambda n: prog.one('^wit_%s$' % n)
    for f in prog.fns.values():
        ctx.fn(f)
    OFF_NAME, OFF_DESC = (s_off(prog, W(w)) for w in ('di_name', 'di_descr'))
    deep = ctx.tier == 'thorough'
    F = lambda r: next((f for f in prog.fns.values() if re.search(r, f.dem)), W('al_ctor'))

    def safe(go):
        def g(c):
            s = Alsa(prog, c)
            try:
                return s, go(s)
            except Top as u:
                return s, '%s' % u
        return g
    def quiet(s):
        """a sink made while the system has no devices"""
        s.fixed = {'hints': 0, 'open': 1}
        a = s.obj('sink', None)
        s.run(W('al_ctor'), [a])
        s.fixed = None
        s.log.clear(), s.opened.clear()
        return a
    def query(name, go, f):
        def g():
            bad, n = explore(safe(go))
            return bad, 'released on all %d sequences of outcomes' % n
        attempt(ctx, 'released', name, g, f)

    def ctor(s):
        a = s.obj('sink', None)
        s.nhints = 1
        s.run(W('al_ctor'), [a])
        return s.held()
    query('ALSABase::ALSABase', ctor, F(r'^ALSABase::get_device_by_name'))
    def count(s):
        a = quiet(s)
        r = s.run(W('al_count'), [a])
        want = [st[1] for st in s.lists.values()]
        if r != (want[0] if want else 0):
            return 'counts %s devices of %s' % (r, want)
        return s.held()
    query('ALSABase::get_device_count', count, F(r'^ALSABase::get_device_count'))
    def described(s, r, k):
        """a device is described by what the library says about entry k"""
        info = {q[2]: v for q, v in s.infos.items() if q[1] == k}
        if s.text(('p', r[1], r[2] + OFF_NAME)) != (info.get('NAME') or '') or s.text(('p', r[1], r[2] + OFF_DESC)) != (info.get('DESC') or ''):
            return 'device %d gets another name or description' % k
        io = info.get('IOID')
        if (s.run(W('di_in'), [r]), s.run(W('di_out'), [r])) != (int(io in (None, 'Input')), int(io in (None, 'Output'))):
            return 'a device whose direction is %s is said to be another' % io
        if s.opened[-1:] != [info.get('NAME') or '']:
            return 'opens %s to describe device %d' % (s.opened[-1:], k)
    def byid(index, hints):
        def g(s):
            a = quiet(s)
            s.nhints = hints
            r = s.obj('result', None)
            s.run(W('al_by_id'), [a, index, r])
            ok = 0 <= index < hints
            fail = s.run(W('di_fail'), [r])
            seen = [c for c in s.log if c == 'snd_device_name_get_hint']
            if not ok and (seen or fail != 1):
                return 'does not report that there is no device %d of %d' % (index, hints)
            if s.run(W('di_id'), [r]) != index:
                return 'gives device %d another id' % index
            return described(s, r, index) or s.held() if ok and fail in (0, 1) and seen else s.held()
        return g
    for index, hints in ((0, 1), (2, 3), (1, 1), (-1, 2), (0, 0), (5, 2)):
        query('ALSABase::get_device_by_id(%d) of %d' % (index, hints), byid(index, hints), F(r'^ALSABase::get_device_by_id'))
    def byname(hints, name):
        def g(s):
            a = quiet(s)
            s.nhints = hints
            n, r = s.obj('wanted', 32), s.obj('result', None)
            s.strs[n[1], n[2]] = name
            s.run(W('al_by_name'), [a, n, r])
            names = {q[1]: v for q, v in s.infos.items() if q[2] == 'NAME'}
            hit = next((k for k in sorted(names) if names[k] == name), None)
            if hit is not None:
                if s.run(W('di_id'), [r]) != hit:
                    return 'gives the first device of this name, %d, the id %s' % (hit, s.run(W('di_id'), [r]))
                return described(s, r, hit) or s.held()
            if s.opened:
                return 'opens %s, which was not asked for' % s.opened
            return s.held()
        return g
    for hints in (0, 1, 2, 3):
        for name in ('hw:0', 'hw:1', 'none') if hints == 2 or deep else ('hw:0', 'none') if hints < 2 else ('hw:0',):
            query('ALSABase::get_device_by_name(%s) of %d' % (name, hints), byname(hints, name), F(r'^ALSABase::get_device_by_name'))
    def update(s):
        d = s.obj('device', None)
        s.run(W('di_ctor'), [d])
        s.run(W('di_update'), [d])
        opened = any(st for st in s.handles.values())
        if s.run(W('di_fail'), [d]) != (0 if opened else 1):
            return 'load_fail does not tell whether the device could be opened'
        return s.held()
    query('DeviceInfo::update', update, F(r'^DeviceInfo::update'))

    # --- playing
    FRAMES = 3
    def play(script, ch):
        def g(s):
            a = quiet(s)
            s.run(W('al_device'), [a, ch, 8000])
            q = s.run(W('al_dev'), [a])
            s.strs[q[1], q[2] + OFF_NAME] = 'wanted'
            s.opened.clear()
            t, live = 0, None
            for op in script:
                if op == 'start':
                    n = len(s.handles)
                    s.run(W('al_start'), [a])
                    if s.opened[-1:] != ['wanted']:
                        return 'opens %s instead of the chosen device' % s.opened[-1:]
                    live = next((h for h in list(s.handles)[n:]), None)
                    if live is not None and s.handles[live]['state'] != 'open':
                        return 'the device is closed after a start'
                elif op == 'stop':
                    s.run(W('al_stop'), [a])
                    live = None
                    if s.held():
                        return 'after a stop, ' + s.held()
                else:
                    t += 1
                    x = [atom('x', t, k) for k in range(FRAMES * ch)]
                    b = s.heap(None)
                    s.run(W('B_ctor'), [b, FRAMES, ch])
                    p = s.run(W('B_data'), [b])
                    for k, c in enumerate(x):
                        s.put(('p', p[1], p[2] + 8 * k), c)
                    s.run(W('al_in'), [a, b])
                    n = len(s.written_frames)
                    s.run(W('al_process'), [a])
                    new = s.written_frames[n:]
                    if live is None and new:
                        return 'writes without a device'
                    if live is not None:
                        if len(new) != 1:
                            return 'writes a block %d times' % len(new)
                        st, fr, data = new[0]
                        if st is not s.handles[live]:
                            return 'writes to another device'
                        if fr != FRAMES:
                            return 'sends %d frames of a block of %d' % (fr, FRAMES)
                        if st['format'] != 2 or st['access'] != 3 or st.get('channels') != ch:
                            return 'the device is set to another format, access or number of channels than what is sent'
                        for k, v in enumerate(data):
                            if not (isinstance(v, tuple) and v[0] == 'i16' and v[1] == x[k]):
                                return 'sample %d of a block of %d channels is sent as %s' % (k, ch, v)
            return s.held()
        return g
    scripts = [['start', 'stop'], ['start', 'go', 'go', 'stop'], ['start', 'go', 'stop', 'start', 'go', 'stop'], ['stop'], ['start', 'stop', 'stop', 'start', 'stop'], ['start', 'stop', 'go']] + ([['start', 'go', 'go', 'go', 'go', 'stop', 'go', 'start', 'go', 'go', 'stop']] if deep else [])
    for ch in (1, 2) + ((3,) if deep else ()):
        for sc in scripts:
            def g():
                bad, n = explore(safe(play(sc, ch)))
                return bad, 'opened, written and closed in order on all %d sequences of outcomes' % n
            attempt(ctx, 'device-protocol', 'ALSASink %s, %d channels' % (' '.join(sc), ch), g, F(r'^ALSASink::process'))
