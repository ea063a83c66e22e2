"""P05 Objects share no hidden state, so separate chains can run on separate threads and repeat exactly."""
from kern import *
import h03, build
LEVEL = 'other'
EXPLANATION = ('The whole library, every inline function of the public headers and all instantiated templates are linked into one program. Every variable of static or thread storage that survives optimisation and is written or handed out after its initialisation is a violation (a lock or a once flag is not state); '
               'and no call may go to a function of the C library that keeps state of its own or writes to the environment of the process. What objects can share is then only what the caller gave both of them.')
ASSUMPTIONS = ['the objects of the standard library keep their documented thread safety', 'ALSA calls act only on the device handle they are given']
LOCK = re.compile(r'^(std::)?(mutex|once_flag|recursive_mutex|shared_mutex|atomic_flag)$')
# functions that keep state between calls or change state of the whole process
HIDDEN = {'rand', 'srand', 'random', 'srandom', 'drand48', 'srand48', 'lrand48', 'mrand48', 'strtok', 'localtime', 'gmtime', 'asctime', 'ctime', 'setlocale', 'setenv', 'putenv', 'unsetenv', 'tmpnam', 'tempnam', 'signal', 'sigaction', 'chdir', 'umask', 'fesetround', 'fesetenv',
          'fegetenv', 'feholdexcept', 'atexit', 'getpwnam', 'gethostbyname', 'strerror', 'readdir', 'lgamma', 'ecvt', 'fcvt', 'setjmp', 'longjmp', 'alarm', 'setitimer', 'dup2', 'freopen', 'exit', 'abort', '_exit', 'quick_exit'}
OK_END = {'abort', '_exit'}     # what the compiler places after a failed assertion or a terminate

def run(ctx):
    prog = ctx.program(['.*'], wits=h03.WITS + ('hidden.cpp', 'inst.cpp', 'dsp.cpp', 'iir.cpp', 'stream.cpp', 'wav.cpp'), alldecls=True)
    n, seen = 0, 0
    for name, g in sorted(prog.globals.items()):
        d, file = g.get('dn') or '', g.get('file', '')
        if file.endswith('/wit/hidden.cpp') and g.get('mutable'):
            seen += 1
        if not d.strip(':') or d.endswith('::') or not file.startswith(build.REPO + '/'):
            continue
        n += 1
        ty = g.get('ty', '')
        bad = g.get('mutable') and not g.get('ro') and not g.get('constty') and not LOCK.match(re.sub(r'^const ', '', ty))
        ctx.ob('no-hidden-state', d, not bad, 'can change after it was initialised and is shared by %s' % ('all objects of a thread' if g.get('tls') else 'every object') if bad else 'never changes', '%s:%d' % (g['file'].split('/repo/')[-1], g['line']))
    calls = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.dem):
        if f.dem.startswith(('std::', '__')) or ' std::' in f.dem.split('(')[0]:
            continue
        bad = None
        for b in f.j['blocks']:
            for i in b['ins']:
                if i['o'] == 'call' and i.get('f'):
                    calls += 1
                    if i['f'] in HIDDEN - OK_END:
                        bad = bad or i
        ctx.fn(f)
        ctx.ob('no-hidden-state-call', f.dem, bad is None, 'calls %s, which keeps state of its own' % bad['f'] if bad else 'calls no function with state of its own', f.where(bad))
    ctx.need('functions', len(ctx.analysed), 900)
    ctx.need('hidden variables of the control unit', seen, 2)
    ctx.notes.append('%d named variables of the library survive optimisation' % n)
    ctx.need('calls', calls, 1000)
