"""The parallel module: thread roles, located synchronisation objects, lock-state dataflow."""
from chainlib import *
import re

SYNC = ('unique_lock', 'lock_guard', 'scoped_lock')
Q_CONST = ('size', 'empty', 'front', 'back', 'begin', 'end', 'cbegin', 'cend', 'at', 'operator[]', 'max_size')

class Par:
    def __init__(self, ctx):
        self.ctx = ctx
        self.prog = p = ctx.program([r'^ParallelModule::', r'ParallelModule.*_M_run\(', '^wit_(par_|get_|base_|backward|set_|reserve)', r'^AudioModule<void, BaseModule\*>::meta_(start|stop|finish|info_sync|process)'],
                                    transparent=['std::condition_variable::wait<', 'std::thread::_State_impl', 'std::thread::_Invoker', 'std::thread::thread<', 'std::__invoke', 'std::tuple', 'std::invoke'], keep=[])
        fns = list(p.fns.values())
        self.state_off = member_via(p, 'wit_get_state')
        self.back_off = member_via(p, 'wit_backward')
        self.worker = None
        run = [f for f in fns if re.search(r'_M_run\(', f.dem)]
        for f in run:
            if any(e.kind == 'call' and e.name in SYNC + ('wait',) for e in all_calls(f)):
                self.worker = f
        if not self.worker:
            for f in fns:
                for i in f.ins.values():
                    if i['o'] == 'store':
                        for s in subterms(f.op(i['a'][0])):
                            if s[0] == 'gl' and s[1] in p.fns and any(e.kind == 'call' and e.name in SYNC + ('wait',) for e in all_calls(p.fns[s[1]])):
                                self.worker = p.fns[s[1]]
        if not self.worker:
            raise AnalysisError('no function is run by a thread of the parallel module')
        # public entry points (worker excluded; base-class dispatch resolved through the overriders)
        self.api = [f for f in fns if f is not self.worker and f not in run and not f.dem.startswith('AudioModule') and re.match(r'^(ParallelModule::[~\w]+\(|wit_par_)', f.dem)]
        self._base = {}
        mt, cv, q, th = set(), set(), set(), set()
        for f in self.api + [self.worker]:
            for e in all_calls(f):
                if e.kind != 'call':
                    continue
                if e.name in SYNC and len(e.args) > 1 and '~' not in e.name:
                    mt.add(self.off(f, e.args[1]))
                if e.name in ('lock', 'unlock') and re.search(r'std::mutex::', e.full):
                    mt.add(self.off(f, e.args[0]))
                if 'std::condition_variable::' in e.full and e.args:
                    cv.add(self.off(f, e.args[0]))
                if re.search(r'^(.* )?std::deque<', e.full) and e.args:
                    q.add(self.off(f, e.args[0]))
                if e.name in ('join', 'joinable', 'detach') and e.args:
                    th.add(self.off(f, e.args[0]))
        self.mutexes, self.cvs, self.queues, self.threads = [sorted(x for x in s if x is not None) for s in (mt, cv, q, th)]
        if len(self.queues) != 1:
            raise AnalysisError('the parallel module has %d queues' % len(self.queues))
        self.q = self.queues[0]
        self.waits = [(f, e) for f in self.api + [self.worker] for e in all_calls(f) if e.kind == 'call' and re.search(r'std::condition_variable(_any)?::wait', e.full)]
        self.members = {n: (o, s, t) for n, (o, s, t) in p.layout('ParallelModule').items()}
        self.ext = {o: s for n, (o, s, t) in self.members.items() if '.' not in n}
        locate_flag(self)

    def base(self, f):
        if f.name not in self._base:
            b = f.this() if re.match(r'^ParallelModule::', f.dem) else ('arg', 0)
            if re.search(r'_M_run\(', f.dem):
                b = None
                for e in all_calls(f):
                    if e.kind == 'call' and e.name in SYNC and len(e.args) > 1:
                        b = base_off(drop_version(e.args[1]))[0]
                        break
            self._base[f.name] = b
        return self._base[f.name]

    def off(self, f, t):
        """field offset when t is an address inside the module, else None"""
        if t is None:
            return None
        t = drop_version(t)
        b = self.base(f)
        if re.search(r'_M_run\(', f.dem):
            bo = base_off(t)
            return bo[1] if b is not None and bo[0] == b else None
        d = sub(norm_arg(t), norm_arg(b))
        return d[1] if isinstance(d, tuple) and d[0] == 'c' else (constval(d))

    def field(self, f, t):
        """offset of the member that holds the address t"""
        o = self.off(f, t)
        if o is None:
            return None
        for k in sorted(self.ext):
            if k <= o < k + self.ext[k]:
                return k
        return o

    def name(self, off):
        for n, (o, s, t) in self.members.items():
            if o == off and '.' not in n:
                return n
        return '+%d' % off

def norm_arg(t):
    return subst(t, lambda x: ('arg', x[1]) if x[0] == 'arg' and len(x) > 2 else None)

def constval(d):
    if d == 0:
        return 0
    try:
        if isconst(d):
            return d[1] if d[0] == 'c' else int(d[1])
    except Exception:
        pass
    return None

def all_calls(f):
    for i in f.ins.values():
        if i['o'] in ('call', 'invoke'):
            e = f.event(i)
            if e:
                yield e

# ---------------------------------------------------------------- lock state
class LockState:
    """guards: {guard term: (mutex offset, owned)}, direct: mutexes locked without a guard"""
    __slots__ = ('g', 'd')
    def __init__(self, g=(), d=()):
        self.g, self.d = dict(g), frozenset(d)
    def key(self):
        return (tuple(sorted((str(k), v) for k, v in self.g.items())), self.d)
    def held(self):
        return {m for m, o in self.g.values() if o} | set(self.d)

def step(par, f, e, s, problems):
    """lock state after event e"""
    if e.kind != 'call':
        return s
    n = e.name
    if n in SYNC and len(e.args) >= 1:
        g = e.args[0]
        if len(e.args) == 1 or re.search(r'(unique_lock|lock_guard|scoped_lock)\((std::)?unique_lock', e.full):
            if len(e.args) == 2 and e.args[1] in s.g:       # move
                ns = LockState(s.g, s.d)
                ns.g[g] = s.g[e.args[1]]
                ns.g[e.args[1]] = (s.g[e.args[1]][0], False)
                return ns
            return s
        m = par.off(f, e.args[1])
        ns = LockState(s.g, s.d)
        if 'adopt_lock' in e.full:
            ns.d = ns.d - {m}
            ns.g[g] = (m, True)
            return ns
        owned = not re.search('defer_lock|try_to_lock', e.full)
        if owned and m in s.held():
            problems.append((e, 'locks a mutex this thread already holds'))
        ns.g[g] = (m, owned)
        return ns
    if n.startswith('~') and n[1:] in SYNC:
        ns = LockState(s.g, s.d)
        ns.g.pop(e.args[0], None)
        return ns
    if n in ('lock', 'unlock', 'try_lock', 'release') and e.args and re.search(r'std::(mutex|unique_lock<)', e.full):
        a = e.args[0]
        ns = LockState(s.g, s.d)
        if a in s.g:
            m, o = s.g[a]
            if n == 'lock' and m in s.held():
                problems.append((e, 'locks a mutex this thread already holds'))
            if n == 'unlock' and not o:
                problems.append((e, 'unlocks a mutex it does not hold'))
            if n == 'release':
                ns.g.pop(a)
                ns.d = ns.d | ({m} if o else set())
            else:
                ns.g[a] = (m, n == 'lock')
            return ns
        m = par.off(f, a)
        if n == 'lock':
            if m in s.held():
                problems.append((e, 'locks a mutex this thread already holds'))
            ns.d = ns.d | {m}
        elif n == 'unlock':
            if m not in s.held():
                problems.append((e, 'unlocks a mutex it does not hold'))
            ns.d = ns.d - {m}
        return ns
    return s

def flow(par, f, visit, extra0=(), extra_step=None):
    """disjunctive forward dataflow over the instructions; visit(ins, event, LockState, extra) sees every reachable state"""
    problems, seen = [], {}
    work = [(0, LockState(), extra0)]
    n = 0
    while work:
        b, s, x = work.pop()
        k = (s.key(), x)
        if k in seen.setdefault(b, set()):
            continue
        seen[b].add(k)
        n += 1
        if n > 4000:
            raise AnalysisError('lock states of %s do not converge' % f.dem)
        for i in f.blocks[b]['ins']:
            e = f.event(i)
            visit(i, e, s, x)
            if e:
                s = step(par, f, e, s, problems)
                if extra_step:
                    x = extra_step(i, e, s, x)
        for t in f.succ[b]:
            work.append((t, s, x))
    return problems

def queue_refs(par, f, t):
    """does the term denote the queue, a part of it, or an element obtained from it"""
    for s in subterms(t):
        if par.field(f, s) == par.q:
            return True
        if s[0] == 'call' and 'std::deque<' in str(s[2]):
            return True
    return False

def queue_access(par, f, i, e):
    """None, 'read', 'write' or 'element': how the instruction touches the queue"""
    if e is not None and e.kind == 'call':
        if e.name.startswith('~deque') or e.name == 'deque':
            return None
        if re.search(r'^(.* )?std::deque<|std::_Deque', e.full) and e.args and par.field(f, e.args[0]) == par.q:
            return 'read' if e.name in Q_CONST else 'write'
        if any(a[0] != 'ld' and elem_ref(par, f, a) for a in e.args):
            return 'element'
    if e is not None and e.kind in ('copy', 'fill', 'store'):
        for a in (e.addr, e.val if e.kind == 'copy' else None):
            if a is not None and elem_ref(par, f, a):
                return 'element'
            if a is not None and par.field(f, a) == par.q:
                return 'write'
    if i['o'] == 'load':
        a = f.sterm(i['a'][0])
        if elem_ref(par, f, a):
            return 'element'
        if par.field(f, a) == par.q:
            return 'read'
    return None

def elem_ref(par, f, a):
    """an address inside an element of the queue"""
    return any(s[0] == 'call' and re.search(r'std::deque<.*>::(front|back|at|operator\[\]|begin|end)\(', str(s[2])) for s in subterms(a))

# ---------------------------------------------------------------- small-value evaluation of conditions
class Unknown(Exception):
    pass

def value(par, f, t, env):
    """integer value of a term for given queue size s, maximum m, stop flag d"""
    t = drop_version(t)
    if isconst(t):
        return t[1]
    k = t[0]
    if k == 'call':
        d = str(t[2])
        if re.search(r'std::deque<.*>::size\(', d):
            return env['s']
        if re.search(r'std::deque<.*>::empty\(', d):
            return int(env['s'] == 0)
        if d in env:
            return env[d]
        raise Unknown(d)
    if k == 'ld':
        o = par.off(f, t[1])
        if o == par.maxo:
            return env['m']
        if o == par.flag:
            return env['d']
        raise Unknown(tstr(t))
    if k == 'icmp':
        a, b = value(par, f, t[2], env), value(par, f, t[3], env)
        if t[1][0] == 'u':
            a, b = a % 2 ** 64, b % 2 ** 64
        return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'slt': a < b, 'ule': a <= b, 'sle': a <= b, 'ugt': a > b, 'sgt': a > b, 'uge': a >= b, 'sge': a >= b}[t[1]])
    if k == 'P':
        r = 0
        for m, c in t[1]:
            v = c
            for x in m:
                v *= value(par, f, x, env)
            r += v
        return r
    if k in ('and', 'or', 'xor'):
        vs = [value(par, f, x, env) for x in t[1:]]
        r = vs[0]
        for v in vs[1:]:
            r = r & v if k == 'and' else (r | v if k == 'or' else r ^ v)
        return r
    if k in ('umax', 'smax'):
        return max(value(par, f, x, env) for x in t[1:])
    if k in ('umin', 'smin'):
        return min(value(par, f, x, env) for x in t[1:])
    if k in ('udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr') and len(t) == 3:
        a, b = value(par, f, t[1], env), value(par, f, t[2], env)
        if a < 0 or b < 0 or (b == 0 and k[1:] in ('div', 'rem')):
            raise Unknown(tstr(t))
        return a << b if k == 'shl' else a >> b if k in ('lshr', 'ashr') else a // b if k.endswith('div') else a % b
    if k == 'ite':
        return value(par, f, t[2] if value(par, f, t[1], env) else t[3], env)
    if k in ('zext', 'sext', 'trunc', 'freeze'):
        return value(par, f, t[-1] if isinstance(t[-1], tuple) else t[1], env)
    raise Unknown(tstr(t))

ENVS = [{'s': s, 'm': m, 'd': d} for s in range(4) for m in range(4) for d in (0, 1)]

def holds(par, f, conds, env, strict=False):
    """can the conditions hold in this environment (unknown conditions are undetermined, or an error when strict)"""
    for c in conds:
        try:
            if bool(value(par, f, c.t, env)) != bool(c.v):
                return False
        except Unknown:
            if strict:
                raise AnalysisError('%s: the condition %s is not about the queue, its maximum or the stop flag' % (c.fn.where(c.ins), tstr(c.t)))
    return True

def readings(c):
    """the reads a condition depends on: two reads of one variable are two readings"""
    todo, seen, out = [a for a in c.ins.get('a', ()) if isinstance(a, list)], set(), []
    while todo:
        o = todo.pop()
        i = c.fn.ins.get(o[1]) if o[0] == 'v' else None
        if i is None or i['i'] in seen:
            continue
        seen.add(i['i'])
        if i['o'] in ('load', 'call', 'invoke', 'phi'):
            if i['o'] == 'phi':
                return [t for t in subterms(c.t) if t[0] in ('ld', 'call')]
            out.append(i['i'])
        else:
            todo += [a for a in i.get('a', ()) if isinstance(a, list)]
    return out

def segments(seq):
    """the conditions of a sequence, split where other threads may run"""
    out, first = [[]], {}
    for e in seq:
        if e.kind == 'cond':                  # a value read earlier and tested again belongs to the moment it was read
            ks = [first.setdefault(t, len(out) - 1) for t in readings(e)]
            out[max(ks) if ks else -1].append(e)
        elif e.kind == 'call' and (e.name in ('lock', 'unlock', 'unique_lock', '~unique_lock', 'lock_guard', '~lock_guard', 'scoped_lock', '~scoped_lock') or 'condition_variable' in e.full and 'wait' in e.name):
            out.append([])
    return out

def feasible(par, f, seq):
    return all(any(holds(par, f, conds, e) for e in ENVS) for conds in segments(seq))

def wait_loop(f, e):
    b = f.block_of[e.ins['i']]
    return f.loop_of(b)

def inner_conds(items):
    return [x for x in items if x.kind == 'cond']

def expand(items):
    """linear event sequences of a path: every loop contributes its last, partial iteration, preceded by nothing or by one full iteration"""
    outs = [[]]
    for x in items:
        if x.kind == 'loop':
            alts = [[]] + [b for b in x.loop.bodies()]
            new = []
            tails = expand(x.partial)
            for o in outs:
                for a in alts:
                    for ab in (expand(a) if a else [[]]):
                        for t in tails:
                            new.append(o + ab + t)
            outs = new
        else:
            outs = [o + [x] for o in outs]
        if len(outs) > 3000:
            raise AnalysisError('too many paths')
    return outs

def locate_flag(par):
    """the stop flag: the field other than the maximum that the wait conditions read"""
    p = par.prog
    g = p.one(r'^wit_par_get_max$')
    par.maxo = None
    for items, ex in ret_paths(g):
        v = drop_version(g.op(ex['a'][0]))
        if v[0] == 'ld':
            par.maxo = par.off(g, v[1])
    if par.maxo is None:
        raise AnalysisError('the maximum queue size is not a field')
    fl = set()
    for f, e in par.waits:
        L = wait_loop(f, e)
        if not L:
            continue
        for b in L.blocks:
            for i in f.blocks[b]['ins']:
                if i['o'] == 'load':
                    o = par.off(f, f.sterm(i['a'][0]))
                    if o is not None and o != par.maxo and par.field(f, f.sterm(i['a'][0])) not in par.queues + par.mutexes + par.cvs + par.threads + [0, par.back_off] and o != par.state_off:
                        fl.add(o)
    par.flag = sorted(fl)[0] if len(fl) == 1 else None
    if par.flag is None:
        # fall back to the byte written non-zero before the thread is joined
        for f in par.api:
            if re.search(r'::stop\(', f.dem):
                for i in f.ins.values():
                    e = f.event(i) if i['o'] == 'store' else None
                    if e and isconst(e.val) and par.off(f, e.addr) not in (None, par.state_off, 0):
                        par.flag = par.off(f, e.addr)
    if par.flag is None:
        raise AnalysisError('the stop flag of the parallel module was not found')

def spawns(e):
    return e.kind == 'call' and (e.name == '_M_start_thread' or (e.name == 'thread' and len(e.args) > 1))

def worker_ended(par, f, seq, k):
    """has an earlier worker been told to stop, woken, and joined in seq[:k]: (ok, why)"""
    flagged = notified = False
    ended = None
    nj = False
    for e in seq[:k]:
        if e.kind == 'store' and par.off(f, e.addr) == par.flag:
            v = drop_version(e.val)
            flagged = not (isconst(v) and v[1] == 0)
            notified = False
            if not flagged:
                ended = None if ended is None else ended
        elif e.kind == 'call' and e.name == 'notify_all' and par.off(f, e.args[0]) in par.cvs:
            notified = notified or flagged
        elif e.kind == 'cond':
            t, v = e.t, e.v
            if t[0] == 'icmp' and t[1] in ('eq', 'ne') and t[3] == I(0):
                t, v = t[2], (v if t[1] == 'ne' else not v)
            if t[0] == 'call' and 'joinable' in str(t[2]) and not v:
                ended = True
            if t[0] == 'call' and 'operator==' in str(t[2]) and 'thread::id' in str(t[2]) and v:
                nj = True
        elif e.kind == 'call' and e.name == 'join' and par.off(f, e.args[0]) in par.threads:
            if not flagged:
                return False, 'joins a worker that has not been told to stop'
            if not notified:
                return False, 'joins a worker that may still be waiting: it is not woken after the stop flag is set'
            ended = True
        elif e.kind == 'call' and e.name == 'detach' and par.off(f, e.args[0]) in par.threads:
            if not nj:
                return False, 'detaches a worker that is not the calling thread'
            ended = flagged or None
    return (True, '') if ended else (False, 'a worker that is still running is not ended')
