"""Check runner: builds the program representation from /repo's current tree, collects obligations, writes evidence."""
import os, sys, json, time, tempfile, shutil, re, subprocess, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build, ir
from ir import AnalysisError

OPAQUE_DEFAULT = [
    r'^(.* )?std::vector<.*>::(push_back|emplace_back|resize|reserve|clear|_M_|insert|erase|assign|operator=|vector|~vector|swap|pop_back|shrink_to_fit)',
    r'^(.* )?std::deque<', r'^(.* )?std::_Deque', r'^(.* )?std::basic_(i|o|io)?f?stream', r'^(.* )?std::basic_(file|string)buf', r'^(.* )?std::basic_ios', r'^(.* )?std::ios_base',
    r'^(.* )?std::__cxx11::basic_string', r'^(.* )?std::locale', r'^(.* )?std::operator<<', r'^(.* )?std::operator\+', r'^(.* )?std::char_traits',
    r'^(.* )?std::(mutex|__mutex_base|unique_lock<.*>|lock_guard<.*>|scoped_lock<.*>|condition_variable|thread|jthread)::',
    r'^(.* )?std::this_thread::', r'^(.* )?std::chrono::_V2::', r'^(.* )?std::chrono::.*::now\(', r'^(.* )?std::filesystem', r'^(.* )?std::__throw',
    r'^(.* )?std::(map|unordered_map|set|list|function)<', r'^(.* )?std::_Rb_tree', r'^(.* )?std::_Hashtable', r'^(.* )?std::swap<std::thread',
]
# library mutators that write only the object they are given (the container), never the memory of other objects
ARGMEM_DEFAULT = [r'^(.* )?std::vector<.*>::', r'^(.* )?std::deque<.*>::', r'^(.* )?std::basic_']
HOOK_KEEP = [r'::(process|start|stop|finish|done)\(\)$']
PIPE1 = ['always-inline', 'function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,gvn,instcombine<no-verify-fixpoint>,simplifycfg)']
PIPE_DEVIRT = PIPE1 + PIPE1
PIPE2 = ['function(early-cse<memssa>,gvn,loop-mssa(licm),dse,instcombine<no-verify-fixpoint>,simplifycfg,adce,loop-simplify,lcssa)']

class Ctx:
    def __init__(self, pid, tier='quick'):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='maec-%s-' % pid)
        self.obs = []            # (rule, site, ok, detail, where)
        self.errors = []
        self.samples = []
        self.units, self.analysed = set(), set()
        self.notes, self.assumptions = [], []
        self.counts = {}
        self._bc = {}
        self.controls = []

    # ---------- program representations
    def bitcode(self, units=None, extra=()):
        units = tuple(units if units is not None else build.src_units())
        key = (units, tuple(extra))
        if key not in self._bc:
            d = tempfile.mkdtemp(dir=self.work)
            self._bc[key] = build.compile_program(d, units, extra)
            self.units.update(units)
        return self._bc[key]

    def wit(self, *names):
        return [os.path.join(HERE, 'wit', n) for n in names]

    def program(self, entry, wits=('inst.cpp',), opaque=(), transparent=(), keep=None, argmem=(), pure=(), pipeline=None,
                purevcalls=True, units=None, opts=(), default_opaque=True, drop=True, ll=None, alldecls=False):
        if units is None:
            units = build.src_units()
        files = list(self.bitcode(list(units) + (self.wit(*wits) if wits else [])))
        if alldecls:        # every inline function of the public headers, used or not
            src = os.path.join(self.work, 'all.cpp')
            open(src, 'w').write(''.join('#include "%s"\n' % h for h in build.pub_headers()))
            files = list(self.bitcode([src], ('-femit-all-decls',))) + files     # first: the linker keeps unused inline functions only of its destination
            opts = list(opts) + ['keepentries']
            self.units.discard(src)
            self.units.update(os.path.join(build.REPO, 'include/maec', h) for h in build.pub_headers())
        cfg = ['opt root ' + build.REPO.rstrip('/') + '/', 'opt wit ' + HERE + '/wit/']
        cfg += ['opt ' + o for o in opts]
        for o in (OPAQUE_DEFAULT if default_opaque else []) + list(opaque):
            cfg.append('opaque ' + o)
        for o in [r'_M_data_ptr'] + list(transparent):
            cfg.append('transparent ' + o)
        for o in (HOOK_KEEP if keep is None else keep):
            cfg.append('keep ' + o)
        cfg.append('inline ^BaseModule::')
        for o in ARGMEM_DEFAULT + list(argmem):
            cfg.append('argmem ' + o)
        for o in pure:
            cfg.append('pure ' + o)
        for e in ([entry] if isinstance(entry, str) else entry):
            cfg.append('entry ' + e)
        pl = pipeline
        if pl is None:
            pl = list(PIPE1) + (['@drop'] if drop else []) + (['@purevcalls'] if purevcalls else []) + list(PIPE2)
        for p in pl:
            cfg.append('pipeline ' + p)
        cf = os.path.join(self.work, 'cfg-%d' % len(os.listdir(self.work)))
        if ll:
            cfg.append('opt ll ' + ll)
        open(cf, 'w').write('\n'.join(cfg) + '\n')
        out = cf + '.json'
        r = subprocess.run([build.tool(), cf] + files + [out], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError('mirdump failed: ' + r.stderr[:1500])
        p = ir.Prog(out)
        os.unlink(out)
        return p

    # ---------- verdicts
    def ob(self, rule, site, ok, detail='', where=''):
        self.obs.append((rule, site, bool(ok), detail, where))
        return ok

    def fn(self, f):
        self.analysed.add(f.dem if hasattr(f, 'dem') else str(f))

    def need(self, what, n, minimum):
        self.counts[what] = n
        if n < minimum:
            self.errors.append('%s: %d instances found, at least %d were confirmed on the reference tree' % (what, n, minimum))

    def control(self, name, fired):
        """positive control: a rule must fire on its planted example"""
        self.controls.append((name, bool(fired)))
        if not fired:
            self.errors.append('positive control %s did not fire: the rule is blind' % name)

    def finish(self, level, explanation):
        known = []
        kf = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf))['findings'] if k['property'] == self.pid]
        bad = [o for o in self.obs if not o[2]]
        viol, kn = [], []
        for o in bad:
            k = next((k for k in known if k['rule'] == o[0] and k['site'] == o[1]), None)
            (kn if k else viol).append((o, k))
        evd = os.environ.get('MAEC_EVID') or os.path.join(VERIF, 'evidence')
        rep = os.path.join(evd, self.pid + '-report.txt')
        os.makedirs(os.path.dirname(rep), exist_ok=True)
        with open(rep, 'w') as f:
            for o in self.obs:
                f.write('%s  [%s] %s %s\n      %s\n' % ('ok  ' if o[2] else 'FAIL', o[0], o[1], o[4], o[3]))
            for e in self.errors:
                f.write('ERROR %s\n' % e)
        samples = ['[%s] %s: %s%s' % (o[0], o[1], o[3], (' @ ' + o[4]) if o[4] else '') for o in self.obs[:400:max(1, len(self.obs) // 6)]][:8]
        rules = {}
        for o in self.obs:
            r = rules.setdefault(o[0], {'sites': 0, 'held': 0})
            r['sites'] += 1
            r['held'] += 1 if o[2] else 0
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
            'coverage': {
                'explanation': explanation,
                'rules': rules,
                'obligations': len(self.obs), 'discharged': sum(1 for o in self.obs if o[2]),
                'translation_units': sorted(u.replace(build.REPO, '/repo') for u in self.units),
                'functions_analysed': sorted(self.analysed)[:400], 'functions_analysed_count': len(self.analysed),
                'instance_counts': self.counts,
                'positive_controls': [{'name': n, 'fired': f} for n, f in self.controls],
                'samples': samples or ['(none)'],
                'known_findings': [o[1] for o, k in kn],
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(viol),
        }
        json.dump(ev, open(os.path.join(evd, self.pid + '.json'), 'w'), indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for o, k in kn:
            print('KNOWN-FINDING: property=%s %s [%s] %s' % (self.pid, k['what'], o[0], o[4]))
        for o, k in viol:
            print('%s: rule %s at %s: %s' % (o[4] or '(no location)', o[0], o[1], o[3]))
        for e in self.errors:
            print('ANALYSIS-ERROR %s' % e)
        print('%s: %d obligations, %d held, %d known, %d violated, %d functions, %.1fs' % (
            self.pid, len(self.obs), ev['coverage']['discharged'], len(kn), len(viol), len(self.analysed), ev['wall_s']))
        if viol:
            print('VIOLATION property=%s replay=%s' % (self.pid, rep))
            return 1
        if self.errors:
            return 2
        return 0

def main(argv):
    import importlib
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    ctx = Ctx(pid, tier)
    level, expl = 'other', ''
    try:
        mod = importlib.import_module(pid.lower())
        level = getattr(mod, 'LEVEL', 'other')
        expl = getattr(mod, 'EXPLANATION', '')
        ctx.assumptions = list(getattr(mod, 'ASSUMPTIONS', []))
        mod.run(ctx)
    except (AnalysisError, build.BuildError) as e:
        ctx.errors.append(str(e))
        if os.environ.get('MAEC_TRACE'):
            traceback.print_exc()
    except Exception:
        ctx.errors.append('internal: ' + traceback.format_exc()[-1500:])
    return ctx.finish(level, expl)

if __name__ == '__main__':
    sys.exit(main(sys.argv))
