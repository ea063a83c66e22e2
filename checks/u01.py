"""U01 A collection owns what it is given, in order, and destroys each object exactly once."""
import itertools
from shape import *
from d04 import attempt
LEVEL = 'other'
EXPLANATION = ('Abstract interpretation of Collection, with the standard vector and unique pointers below it, over all sequences of its operations up to a length, with every index: the slots are compared with a reference list after each step '
               'and every destruction, which is visible in the element type used, must be of the object the operation is meant to destroy. Objects are symbols, so the result holds for all objects.')
ASSUMPTIONS = ['operator new succeeds']

class Run(Shape):
    def __init__(self, prog):
        super().__init__(prog)
        self.gone = []
    def hook(self, f, i, fn, d, nm, args):
        if fn == 'wit_gone':
            self.gone.append(args[0][1])
            return None
        h = self.prog.fns.get(fn)
        if h is not None and 'std::' in d:
            return self.run(h, args)
        return NotImplemented

class Wrong(Exception):
    pass

def go(prog, W, ops):
    """run a sequence of operations beside the reference"""
    s = Run(prog)
    at = s.obj('collection', s.run(W('size'), []))
    s.run(W('make'), [at])
    ref, k, said = [], 0, []
    def expect(what, got, want):
        if got != want:
            raise Wrong('after %s: %s is %s, not %s' % (', '.join(said) or 'construction', what, got, want))
    def pointer(p):
        return None if p[1] == 'null' else p[1]
    def look(at, ref):
        expect('the number of objects', s.run(W('num'), [at]), len(ref))
        for i, r in enumerate(ref):
            expect('object %d' % i, pointer(s.run(W('get'), [at, i])), r)
        for i in (-1, len(ref), len(ref) + 3):
            try:
                s.run(W('get'), [at, i])
            except Top as t:
                if 'ends in' in str(t):
                    continue
                raise
            raise Wrong('after %s: reading object %d is not refused' % (', '.join(said), i))
    look(at, ref)
    for op in ops + (('end',),):
        s.gone.clear()
        dying = []
        if op[0] == 'add':
            o = s.heap(16)
            left = s.obj(('left', k), 8)
            s.put(left, ('p', 'null', 0))
            k += 1
            said.append('adding one')
            s.run(W('add'), [at, o, left])
            ref.append(o[1])
            expect('what is left in the pointer that was added', pointer(s.get(left)), None)
        elif op[0] in ('release', 'free'):
            if op[1] >= len(ref):
                return None
            said.append('%s of %d' % (op[0], op[1]))
            r = s.run(W(op[0]), [at, op[1]])
            if op[0] == 'release':
                expect('the released object', pointer(r), ref[op[1]])
                ref[op[1]] = None
            else:
                dying = [ref.pop(op[1])]
        elif op[0] == 'clear':
            said.append('clear')
            s.run(W('clear'), [at])
            dying, ref = ref, []
        elif op[0] in ('move', 'assign'):
            said.append(op[0])
            to = s.obj(('collection', k), s.size['collection'])
            k += 1
            if op[0] == 'assign':
                s.run(W('make'), [to])
                o = s.heap(16)
                left = s.obj(('left', k), 8)
                s.run(W('add'), [to, o, left])
                s.gone.clear()
                dying = [o[1]]
            s.run(W(op[0]), [to, at])
            look(to, ref)
            s.run(W('end'), [at])
            at = to
        else:
            said.append('destruction')
            s.run(W('end'), [at])
            dying = ref
        expect('what is destroyed', sorted(map(str, s.gone)), sorted(str(x) for x in dying if x is not None))
        if op[0] != 'end':
            look(at, ref)
    return True

def run(ctx):
    prog = ctx.program(['^wit_coll_'], wits=('coll.cpp',), transparent=['std::', '__gnu_cxx::', 'Collection'], default_opaque=False, opaque=[r'^(.* )?std::__throw'])
    W = lambda n: prog.one('^wit_coll_%s$' % n)
    for f in prog.fns.values():
        ctx.fn(f)
    depth, top = (6, 3) if ctx.tier == 'thorough' else (5, 3)
    kinds = [('add',), ('clear',), ('move',), ('assign',)] + [(k, i) for k in ('release', 'free') for i in range(top)]
    done = 0
    groups = {}
    for n in range(0, depth + 1):
        for ops in itertools.product(kinds, repeat=n):
            if n and ops[0] != ('add',) or sum(o[0] == 'add' for o in ops) > 4:
                continue
            if any(o[0] not in ('add',) for o in ops[:1]):
                continue
            groups.setdefault(tuple(sorted({o[0] for o in ops})), []).append(ops)
    for key, seqs in sorted(groups.items()):
        def one():
            nonlocal done
            n = 0
            for ops in seqs:
                try:
                    n += go(prog, W, ops) is not None
                except Wrong as w:
                    return str(w), None
            done += n
            return None, '%d sequences' % n
        attempt(ctx, 'owns-in-order', ', '.join(key) or 'nothing', one, W(key[-1] if key else 'make'))
    def many():
        for n in (1, 2, 3, 4, 5, 8, 9, 16, 17, 33):
            try:
                go(prog, W, (('add',),) * n + (('free', 0), ('release', n // 2), ('clear',), ('add',)) if n > 1 else (('add',), ('clear',)))
            except Wrong as w:
                return str(w), None
        return None, 'up to 33 objects, past every reallocation'
    attempt(ctx, 'owns-in-order', 'many objects', many, W('add'))
    ctx.need('sequences of operations', done, 1000)
