"""dev tool: python3 catch.py [--all] [seed...]: which checks report which planted bug (scratch copies only); writes catch.txt with --all"""
import json, os, queue, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = [c['id'] if 'id' in c else c['property_id'] for c in json.load(open(H + '/MANIFEST.json'))['checks']] if '--all' in sys.argv else None
only = [a for a in sys.argv[1:] if a[0] != '-']
os.makedirs('/tmp/mut', exist_ok=True)
q = queue.Queue()
for i in range(6):
    q.put(i)


def one(s):
    k = q.get()
    try:
        d = '/tmp/mut/%d' % k
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('target', '.git'))
        r = subprocess.run(['git', 'apply', '--unsafe-paths', '--directory', d, H + '/seeded/%s/patch.diff' % s], cwd='/', capture_output=True, text=True)
        if r.returncode:
            return s, ['patch: ' + r.stderr[:200]]
        env = dict(os.environ, VERIF_REPO=d, VERIF_CACHE='/tmp/mut/cache%d' % k, VERIF_KEEP='1', VERIF_EVIDENCE='/tmp/mut/ev%d' % k)
        p = json.load(open(H + '/seeded/%s/meta.json' % s))['property']
        out = []
        for c in ALL or [p]:
            r = subprocess.run(['python3', H + '/sa/check.py', c], env=env, capture_output=True, text=True)
            keys = sorted({l.strip().split(': ')[0] for l in r.stdout.splitlines() if l.startswith('  ') and not l.startswith('   ')})
            if r.returncode != 0:
                out.append('%s%s(%s)' % (c, '*' if c == p else '', ';'.join(keys)[:120]))
        return s, out, p
    finally:
        q.put(k)


seeds = [s for s in sorted(os.listdir(H + '/seeded')) if not only or s in only]
with ThreadPoolExecutor(6) as ex:
    for r in ex.map(one, seeds):
        print('%s %-30s %s' % ('ok' if any(x.startswith(r[2] + '*') or (x.startswith(r[2]) ) for x in r[1]) else 'MISS', r[0], ' '.join(r[1])), flush=True)
