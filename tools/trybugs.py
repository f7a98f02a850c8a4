"""Runs checks against the planted changes: trybugs.py [--all] [id ...]

Each change is applied to a scratch copy of /repo that a private mount namespace lays over /repo; /verif/evidence is laid
over too. By default only the check of the change's own property runs; --all runs every check."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

OUT = '/verif/seeded'


def try_patch(patch, props, seed='1', tier='quick', extra=()):
    tmp = tempfile.mkdtemp(prefix='try_')
    try:
        root, ev = tmp + '/repo', tmp + '/ev'
        subprocess.run(['cp', '-a', '/repo', root], check=True)
        os.makedirs(ev)
        subprocess.run(['git', '-C', root, 'apply', patch], check=True)
        res = {}
        for p in props:
            cmd = 'mount --bind %s /repo && mount --bind %s /verif/evidence && cd /verif && exec ./check %s --tier %s --seed %s %s' % (
                root, ev, p, tier, seed, ' '.join(extra))
            r = subprocess.run(['unshare', '-Urm', 'bash', '-c', cmd], capture_output=True, text=True, timeout=1800)
            line = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            detail = [l for l in r.stdout.split('\n') if l.strip()][-6:]
            res[p] = (r.returncode, bool(line), ' | '.join(detail)[-300:] if r.returncode else '')
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    ids = args or sorted(os.listdir(OUT))
    allp = [c['property'] if 'property' in c else c['property_id'] for c in json.load(open('/verif/MANIFEST.json'))['checks']] if '--all' in sys.argv else None
    for i in ids:
        meta = json.load(open('%s/%s/meta.json' % (OUT, i)))
        res = try_patch('%s/%s/patch.diff' % (OUT, i), allp or [meta['property']])
        hit = [p for p, (rc, v, _) in res.items() if rc == 1 and v]
        odd = {p: r for p, r in res.items() if r[0] not in (0, 1) or (r[0] == 1) != r[1]}
        print('%-28s %-6s caught by %s %s' % (i, 'CAUGHT' if meta['property'] in hit else 'MISSED', hit, odd or ''), flush=True)
