#!/usr/bin/env python3
"""Dev helper: applies each planted bug to /repo, runs the quick check of its property and undoes it."""
import json, os, subprocess, sys, time, glob
os.chdir('/verif')
for d in sorted(glob.glob('/verif/seeded/*/')):
    k = d.split('/')[-2]
    if len(sys.argv) > 1 and not any(k.startswith(a) for a in sys.argv[1:]):
        continue
    p = json.load(open(d + 'meta.json'))['property']
    t = time.time()
    if subprocess.run(['git', '-C', '/repo', 'apply', d + 'patch.diff']).returncode:
        print(k, 'does not apply', flush=True)
        continue
    try:
        r = subprocess.run(['./run.sh', p, 'quick'], capture_output=True, text=True, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
    v = [l for l in r.stdout.splitlines() if l.startswith(p + ' ') and ': ' in l and 'paths' not in l]
    print(f"{k}: {'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + p in r.stdout else 'MISSED rc=%d' % r.returncode} {time.time()-t:.0f}s {'; '.join(v)[:200]}", flush=True)
