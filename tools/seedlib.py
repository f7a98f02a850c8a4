"""Makes /verif/seeded/<id>/ from a specification and confirms it in a scratch copy of /repo.

seedlib.make(id, prop, [(file, old, new), ...], demo, needs, breaks): the change is applied to a scratch copy, the
demonstration must pass without it and fail with it, and every stable test must pass with it."""
import difflib
import json
import os
import shutil
import subprocess
import sys
import tempfile

OUT = '/verif/seeded'
HEAD = '''import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import dynetworkx as dnx
import networkx as nx
assert os.path.realpath(dnx.__file__).startswith(os.path.realpath(os.getcwd()) + os.sep), dnx.__file__

'''
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')


def original_lines(f):
    out = subprocess.run(['git', '-C', '/repo', 'blame', '-s', f], capture_output=True, text=True).stdout
    base = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True,
                          text=True).stdout[:7]
    return [l.lstrip('^').startswith(base) for l in out.split('\n')[:-1]]


def make(bid, prop, edits, demo, needs, breaks, keep=True):
    tmp = tempfile.mkdtemp(prefix='seed_')
    try:
        root = os.path.join(tmp, 'repo')
        subprocess.run(['cp', '-a', '/repo', root], check=True)
        for f, old, new in edits:
            p = os.path.join(root, f)
            s = open(p).read()
            if s.count(old) != 1:
                return 'edit text found %d times in %s: %r' % (s.count(old), f, old[:60])
            i = s.index(old)
            flags = original_lines(f)
            a, b = old.split('\n'), new.split('\n')
            first = s[:i].count('\n')
            for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, a, b).get_opcodes():
                if tag in ('replace', 'delete') and not all(flags[first + k] for k in range(i1, i2)):
                    print('   note: %s touches a line of a later commit' % bid)
            open(p, 'w').write(s.replace(old, new))
        d = os.path.join(tmp, bid)
        os.makedirs(d)
        diff = subprocess.run(['git', '-C', root, 'diff'], capture_output=True, text=True).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(HEAD + demo.strip() + '\n')
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/bash\n# run with cwd /repo: passes on the unchanged tree, fails with the change\n'
            'export PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'),
                  indent=1)
        good = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', env=ENV, capture_output=True, text=True, timeout=280)
        if good.returncode:
            return 'demo fails on the unchanged tree: ' + good.stderr[-600:]
        bad = subprocess.run(['bash', d + '/demo.sh'], cwd=root, env=ENV, capture_output=True, text=True, timeout=280)
        if bad.returncode == 0:
            return 'demo passes with the change'
        r = tests(root)
        if r:
            return 'tests fail: ' + ' '.join(sorted(r))[:300]
        if keep:
            dst = os.path.join(OUT, bid)
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
        return 'ok (' + (bad.stderr.strip().split('\n') or [''])[-1][:100] + ')'
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def tests(root):
    """The stable tests that do not pass in this copy."""
    xml = os.path.join(root, '..', os.path.basename(root) + '.xml')
    subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=120',
                    '-o', 'junit_family=xunit2', '--junitxml=' + xml, 'dynetworkx'], cwd=root, env=ENV,
                   capture_output=True, timeout=600)
    import xml.etree.ElementTree as ET
    ok = set()
    try:
        for tc in ET.parse(xml).iter('testcase'):
            if not any(c.tag in ('failure', 'error', 'skipped') for c in tc):
                ok.add('%s::%s' % (tc.get('classname'), tc.get('name')))
    except Exception as e:
        return {'no report %s' % e}
    return set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - ok


def run_all(specs, only=()):
    from concurrent.futures import ThreadPoolExecutor
    specs = [s for s in specs if not only or s[0] in only]
    with ThreadPoolExecutor(7) as ex:
        for s, r in zip(specs, ex.map(lambda s: make(*s), specs)):
            print('%-28s %s' % (s[0], r), flush=True)
