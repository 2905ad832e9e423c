"""dev tool: python3 mut.py FILE.py [name...]: applies each mutation of FILE.MUTS = [(name, path, old, new, [checks])] to a scratch copy of /repo and
runs the checks on it; 'equivalent' mutations have names starting with '='"""
import importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
spec = importlib.util.spec_from_file_location('m', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only = sys.argv[2:]


def one(mu, slot):
    if len(mu) == 4:
        mu = mu[:3] + (None, mu[3])
    name, path, old, new, checks = mu
    d = os.environ.get('MUTDIR', '/tmp/mut') + '/%d' % slot
    subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', '--exclude', '.git', os.environ.get('BASE', '/repo') + '/', d + '/'], check=True) if shutil.which('rsync') else \
        (shutil.rmtree(d, ignore_errors=True), shutil.copytree(os.environ.get('BASE', '/repo'), d, ignore=shutil.ignore_patterns('target', '.git')))
    edits = [(path, old, new)] if isinstance(old, str) else [(path, o, n) for o, n in old]
    for p, o, n in edits:
        f = os.path.join(d, p)
        s = open(f).read()
        if s.count(o) < 1:
            return name, 'NO MATCH for %r' % o[:50]
        open(f, 'w').write(s.replace(o, n, 1))
    env = dict(os.environ, VERIF_REPO=d, VERIF_CACHE=os.environ.get('MUTDIR', '/tmp/mut') + '/cache%d' % slot, VERIF_KEEP='1', VERIF_EVIDENCE=os.environ.get('MUTDIR', '/tmp/mut') + '/ev%d' % slot)
    out = []
    for c in checks:
        r = subprocess.run(['python3', os.environ.get('MUTSA', '/verif') + '/sa/check.py', c], env=env, capture_output=True, text=True)
        keys = [l.strip().split(': ')[0] for l in r.stdout.splitlines() if l.startswith('  ') and not l.startswith('   ')]
        if r.returncode not in (0, 1) or 'Traceback' in r.stderr:
            keys = [r.stderr[-300:]]
        elif 'cannot be analysed' in r.stdout:
            keys = ['BUILD: ' + r.stdout[:300]]
        out.append('%s=%d %s' % (c, r.returncode, ','.join(keys)[:200]))
    return name, ' | '.join(out)


os.makedirs(os.environ.get('MUTDIR', '/tmp/mut') + '', exist_ok=True)
import queue, threading
q = queue.Queue()
N = int(os.environ.get('JOBS', '6'))
for i in range(N):
    q.put(i)


def job(mu):
    s = q.get()
    try:
        return one(mu, s)
    finally:
        q.put(s)


muts = [x for x in m.MUTS if not only or x[0] in only]
with ThreadPoolExecutor(N) as ex:
    for name, res in ex.map(job, muts):
        bad = ('=1' not in res) != name.startswith('=')
        print('%s %-28s %s' % ('!!' if bad else 'ok', name, res), flush=True)
