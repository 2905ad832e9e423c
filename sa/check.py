"""python3 sa/check.py <PROPERTY> [--thorough]: decides one property on /repo's current source."""
import importlib, json, os, sys, time, traceback, re

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'rules'))
import dump
from engine import Program

VERIF = os.path.dirname(HERE)
MODULES = ['scram', 'proxy']
RULES = {}


def load():
    for m in sorted(f[:-3] for f in os.listdir(os.path.join(HERE, 'rules')) if f.endswith('.py') and not f.startswith('_')):
        mod = importlib.import_module(m)
        for pid, fn in mod.RULES.items():
            RULES[pid] = fn
    return RULES


class Ctx:
    def __init__(self, pid, prog, tier):
        self.pid = pid
        self.P = prog
        self.tier = tier
        self.viol = []            # (key, text, details)
        self.cov = {'functions_interpreted': set(), 'call_sites': set(), 'branches': set()}
        self.counts = {}
        self.obl = {}             # obligation name -> [checked, failed]
        self.samples = []
        self.assumptions = []
        self.rule = ''

    def violation(self, key, text, details=None):
        """key names the construct without line numbers; one report per key"""
        if key not in [v[0] for v in self.viol]:
            self.viol.append((key, text, details or []))

    def require(self, cond, key, text, details=None):
        """one checked obligation"""
        o = self.obl.setdefault(key, [0, 0])
        o[0] += 1
        if not cond:
            o[1] += 1
            self.violation(key, text, details() if callable(details) else details)
        return cond

    def anchor(self, path):
        b = self.P.body(path)
        if b is None:
            self.violation('anchor:' + path, 'function %s does not exist any more; the rule has nothing to decide' % path)
            return None
        if b.tainted:
            self.violation('anchor:' + path, 'function %s does not type-check; the rule cannot decide it' % path)
            return None
        return b

    def floor(self, name, n, least):
        self.counts[name] = n
        if n < least:
            self.violation('floor:' + name, 'only %d %s found, %d expected: the rule would pass vacuously' % (n, name, least))

    def engine(self, E):
        self.cov['functions_interpreted'] |= E.entered
        self.cov['call_sites'] |= E.callsites
        self.cov['branches'] |= E.branches
        self.counts['paths'] = self.counts.get('paths', 0) + E.npaths
        self.counts['steps'] = self.counts.get('steps', 0) + E.steps
        self.counts['joins'] = self.counts.get('joins', 0) + E.njoin

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)


def known(pid):
    f = os.path.join(VERIF, 'known_findings.txt')
    out = {}
    if os.path.exists(f):
        for ln in open(f):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', ln)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    t0 = time.time()
    load()
    f = RULES[pid]
    ev = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    try:
        path = dump.ensure()
    except dump.DumpError as e:
        print(e)
        print('the current source cannot be analysed')
        rp = os.path.join(ev, pid + '.replay.txt')
        open(rp, 'w').write(str(e))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    P = Program(path)
    t1 = time.time()
    c = Ctx(pid, P, tier)
    try:
        f(c)
    except Exception as e:
        tb = traceback.format_exc()
        c.violation('undecided:' + type(e).__name__, 'the analysis cannot decide the current source: %s' % (e,), tb.splitlines()[-14:])
    kn = known(pid)
    new = [v for v in c.viol if keyname(v[0]) not in kn]
    old = [v for v in c.viol if keyname(v[0]) in kn]
    for v in old:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, keyname(v[0]), kn[keyname(v[0])]))
    cov = {k: len(v) for k, v in c.cov.items()}
    cov.update(c.counts)
    cov['obligations'] = sum(o[0] for o in c.obl.values())
    cov['obligation_kinds'] = len(c.obl)
    cov['obligations_failed'] = sum(o[1] for o in c.obl.values())
    cov['explanation'] = c.rule or (f.__doc__ or '').strip()
    cov['functions'] = sorted(c.cov['functions_interpreted'])[:60]
    cov['samples'] = c.samples
    cov['bodies_in_program'] = len(P.bodies)
    cov['known_findings'] = [keyname(v[0]) for v in old]
    json.dump({'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
               'assumptions': c.assumptions + COMMON, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)},
              open(os.path.join(ev, pid + '.json'), 'w'), indent=1, default=str)
    print('%s: %d obligations of %d kinds, %d paths, %d functions, build %.1fs analysis %.1fs' % (
        pid, cov['obligations'], len(c.obl), c.counts.get('paths', 0), len(c.cov['functions_interpreted']), t1 - t0, time.time() - t1))
    if new:
        rp = os.path.join(ev, pid + '.replay.txt')
        with open(rp, 'w') as fh:
            for k, text, det in new:
                fh.write('%s\n  %s\n' % (keyname(k), text))
                for d in det:
                    fh.write('    %s\n' % (d,))
        for k, text, det in new:
            print('  %s: %s' % (keyname(k), text[:600]))
            for d in det[:12]:
                print('      %s' % (str(d)[:300],))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


COMMON = ['mqtt-proto is represented by the typed stand-in in stubs/mqtt-proto (the crate is not available here)',
          'library functions behave as their models in sa/models.py state',
          'the compiler (type check and MIR construction of rustc nightly) is trusted']


def keyname(k):
    return re.sub(r'\s+', '_', k)


if __name__ == '__main__':
    sys.exit(main())
