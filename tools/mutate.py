"""Mutation campaign: which small changes to the library pass its tests and every check?

mutate.py gen OUT.json            lists mutants of /repo/dynetworkx
mutate.py run OUT.json RES.jsonl  tests each (8 at a time): the checks at growing scale until one reports a violation, and the
                                  stable tests when the first round of checks sees nothing. Results are appended, so a run can be continued.

Run with /opt/venv/bin/python. Scratch copies of /repo are used; a child is forked per trial."""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

REPO = '/repo'
FILES = ['dynetworkx/classes/intervaltree.py', 'dynetworkx/classes/intervalgraph.py',
         'dynetworkx/classes/intervaldigraph.py', 'dynetworkx/classes/impulsegraph.py',
         'dynetworkx/classes/impulsedigraph.py', 'dynetworkx/classes/snapshotgraph.py',
         'dynetworkx/classes/snapshotdigraph.py', 'dynetworkx/algorithms/count_temporal_motif.py']
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='],
       ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not', '=='], ast.IsNot: ['is', '!=']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['+'], ast.Div: ['//', '*'], ast.FloorDiv: ['/'], ast.Mod: ['*']}
SWAP = {'begin': 'end', 'end': 'begin', 'start': 'end', 'u': 'v', 'v': 'u', 'left': 'right', 'right': 'left',
        '_succ': '_pred', '_pred': '_succ', 'add': 'discard', 'append': 'extend', 'min': 'max', 'max': 'min',
        'bisect_left': 'bisect_right', 'bisect_right': 'bisect_left', 'any': 'all', 'all': 'any',
        'itime': 'itime1', 'n1': 'n2', 'n2': 'n1', 'u_list': 'v_list', 'floor': 'ceil', 'ceil': 'floor',
        'intersection': 'union', 'union': 'intersection', 'keys': 'values', 'setdefault': 'get'}


def gen_file(f):
    src = open(os.path.join(REPO, f)).read()
    lines = src.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = src.encode()
    tree = ast.parse(src)
    out = []
    func = {}

    def off(line, col):
        return starts[line - 1] + col

    def span(n):
        return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    def emit(node, a, b, new, kind):
        old = raw[a:b].decode()
        if old == new:
            return
        out.append({'file': f, 'a': a, 'b': b, 'old': old, 'new': new, 'kind': kind, 'line': node.lineno,
                    'func': func.get(id(node), '')})

    def walk(node, qual):
        for c in ast.iter_child_nodes(node):
            q = qual
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                q = (qual + '.' if qual else '') + c.name
            func[id(c)] = q
            walk(c, q)
    walk(tree, '')
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0]))
            doc.add(id(n.body[0].value))
    for n in ast.walk(tree):
        if id(n) in doc:
            continue
        if isinstance(n, ast.Compare):
            left = n.left
            for op, right in zip(n.ops, n.comparators):
                a, b = span(left)[1], span(right)[0]
                gap = raw[a:b].decode()
                for new in CMP.get(type(op), ()):
                    core = gap.strip('() \n\\')
                    if core:
                        emit(n, a, b, gap.replace(core, new, 1), 'cmp')
                left = right
            emit(n, *span(n), '(True)', 'cond')
            emit(n, *span(n), '(False)', 'cond')
        elif isinstance(n, ast.BoolOp):
            for x, y in zip(n.values, n.values[1:]):
                a, b = span(x)[1], span(y)[0]
                gap = raw[a:b].decode()
                w = 'and' if isinstance(n.op, ast.And) else 'or'
                emit(n, a, b, re.sub(r'\b%s\b' % w, 'or' if w == 'and' else 'and', gap, 1), 'bool')
            for x in n.values:
                emit(n, *span(n), '(%s)' % text(x), 'bool1')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            emit(n, *span(n), '(%s)' % text(n.operand), 'not')
        elif isinstance(n, ast.BinOp):
            a, b = span(n.left)[1], span(n.right)[0]
            gap = raw[a:b].decode()
            core = gap.strip('() \n\\')
            for new in BIN.get(type(n.op), ()):
                emit(n, a, b, gap.replace(core, new, 1), 'bin')
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                emit(n, *span(n), str(not v), 'const')
            elif isinstance(v, (int, float)):
                emit(n, *span(n), '(%r)' % (v + 1), 'const')
                emit(n, *span(n), '(%r)' % (v - 1), 'const')
            elif v is None:
                emit(n, *span(n), '0', 'const')
        elif isinstance(n, ast.Name) and n.id in SWAP and isinstance(n.ctx, ast.Load):
            emit(n, *span(n), SWAP[n.id], 'swap')
        elif isinstance(n, ast.Attribute) and n.attr in SWAP and isinstance(n.ctx, ast.Load):
            a, b = span(n)
            emit(n, b - len(n.attr), b, SWAP[n.attr], 'swap')
        if isinstance(n, ast.Attribute) and n.attr in ('begin', 'end', '_succ', '_pred', 'left', 'right') \
                and isinstance(n.ctx, ast.Store):
            a, b = span(n)
            emit(n, b - len(n.attr), b, SWAP[n.attr], 'swapstore')
        if isinstance(n, ast.If):
            emit(n, *span(n.test), '(not (%s))' % text(n.test), 'ifnot')
            emit(n, *span(n.test), 'True', 'iftrue')
            emit(n, *span(n.test), 'False', 'iffalse')
        if isinstance(n, ast.IfExp):
            emit(n, *span(n), '(%s)' % text(n.body), 'ifexp')
            emit(n, *span(n), '(%s)' % text(n.orelse), 'ifexp')
        if isinstance(n, ast.comprehension):
            for t in n.ifs:
                a, b = span(t)
                emit(t, a, b, 'True', 'compif')
        if isinstance(n, ast.Call):
            name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
            if name in ('copy', 'deepcopy') and isinstance(n.func, ast.Attribute) and not n.args:
                emit(n, *span(n), text(n.func.value), 'nocopy')
            if name in ('dict', 'list', 'set', 'sorted', 'deepcopy', 'copy', 'tuple', 'reversed', 'float', 'str', 'int',
                        'abs', 'frozenset') and len(n.args) == 1:
                emit(n, *span(n), '(%s)' % text(n.args[0]), 'unwrap')
            if name in ('sorted',) and n.args:
                emit(n, *span(n), 'list(%s)' % text(n.args[0]), 'unsort')
            if len(n.args) == 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                a, b = span(n.args[0])[0], span(n.args[1])[1]
                emit(n, a, b, text(n.args[1]) + ', ' + text(n.args[0]), 'argswap')
            for k in n.keywords:
                if k.arg and len(n.args) + len(n.keywords) > 1:
                    a, b = span(k)
                    # drop the keyword (a comma before it or after it)
                    j = a
                    while raw[j - 1:j] in (b' ', b'\n'):
                        j -= 1
                    if raw[j - 1:j] == b',':
                        emit(n, j - 1, b, '', 'dropkw')
        if isinstance(n, ast.Return) and n.value is not None:
            emit(n, *span(n.value), 'None', 'retnone')
            if isinstance(n.value, (ast.List, ast.ListComp)):
                pass
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Continue, ast.Break)) \
                and hasattr(n, 'lineno'):
            emit(n, *span(n), 'pass', 'delstmt')
        if isinstance(n, ast.Return):
            emit(n, *span(n), 'pass', 'delret')
        if isinstance(n, ast.Continue):
            emit(n, *span(n), 'break', 'loop')
        if isinstance(n, ast.Break):
            emit(n, *span(n), 'continue', 'loop')
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
            pass
        if isinstance(n, ast.For):
            a, b = span(n.iter)
            emit(n, a, b, 'list(%s)[:-1]' % text(n.iter), 'loopshort')
            emit(n, a, b, 'list(%s)[1:]' % text(n.iter), 'loopshort')
            emit(n, a, b, 'list(%s)[::-1]' % text(n.iter), 'looprev')
        if isinstance(n, ast.AugAssign):
            a, b = span(n.target)[1], span(n.value)[0]
            gap = raw[a:b].decode()
            emit(n, a, b, gap.replace('+=', '-=') if '+=' in gap else gap.replace('-=', '+='), 'aug')
            emit(n, a, b, ' = ', 'aug')
    # two statements in a row exchanged
    for n in ast.walk(tree):
        for fld in ('body', 'orelse'):
            body = getattr(n, fld, None)
            if not isinstance(body, list):
                continue
            for x, y in zip(body, body[1:]):
                if id(x) in doc or not isinstance(x, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)) or \
                        not isinstance(y, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.For, ast.If)):
                    continue
                a, b = span(x)[0], span(y)[1]
                mid = raw[span(x)[1]:span(y)[0]].decode()
                emit(x, a, b, text(y) + mid + text(x), 'stmtswap')
    good, seen = [], set()
    for m in out:
        new = raw[:m['a']] + m['new'].encode() + raw[m['b']:]
        try:
            t = ast.dump(ast.parse(new))
        except SyntaxError:
            continue
        h = hash(t)
        if h in seen or t == ast.dump(tree):
            continue
        seen.add(h)
        good.append(m)
    return good


def probe(root, scale, pids, limit):
    """In a forked child: the checks of `pids` against the library in `root`; (property, message) of the first hit."""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.path[:0] = ['/verif', root]
    from mon import core
    core.REPO = root
    core.CASE_SECONDS, core.HANG_SECONDS = 8, 12
    from mon import registry
    import dynetworkx
    assert dynetworkx.__file__.startswith(root), dynetworkx.__file__
    t0 = time.time()
    for p in pids:
        check = registry.get(p)
        for i in range(max(1, int(check.quick * scale))):
            case = check.gen(core.case_rng(1, p, i), i, 'quick')
            msg = core.run_case(check, case, core.Rec())
            if msg == 'HANG':
                msg = 'no answer within 8 s'
            if msg is not None:
                return p, msg
            if time.time() - t0 > limit:
                return None
    return None


def in_child(f, *args, seconds=600):
    """f(*args) in a forked child with its output thrown away."""
    import pickle
    import signal
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            os.close(r)
            null = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(null, fd)
            try:
                out = f(*args)
            except BaseException as e:
                import traceback
                out = ('?', traceback.format_exc()[-400:])
            with os.fdopen(w, 'wb') as h:
                pickle.dump(out, h)
        finally:
            os._exit(0)
    os.close(w)
    import select
    end = time.time() + seconds
    buf = b''
    while True:
        ready = select.select([r], [], [], max(0, end - time.time()))[0]
        if not ready:
            os.killpg(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return ('?', 'timeout')
        d = os.read(r, 65536)
        if not d:
            break
        buf += d
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(buf) if buf else ('?', 'died')


def run_tests(root, args):
    import pytest
    os.chdir(root)
    sys.path.insert(0, root)
    return int(pytest.main(['-q', '-x', '-p', 'no:cacheprovider', '--timeout=40'] + args))


def cover():
    m = {}
    for p in sorted(os.listdir('/verif/evidence')):
        if p.endswith('.json'):
            d = json.load(open('/verif/evidence/' + p))
            m[p[:-5]] = set(d['coverage']['library_functions_entered'])
    return m


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
           PYTHONPYCACHEPREFIX='/nonexistent-pycache', PYTHONNOUSERSITE='1')
ENV.pop('PYTHONPATH', None)


def work(args):
    m, base, order, keep = args
    wid = os.getpid()
    root, ev = '%s/w%d/repo' % (base, wid), '%s/w%d/ev' % (base, wid)
    if not os.path.exists(root):
        os.makedirs(ev)
        subprocess.run(['cp', '-a', '/repo', root], check=True)
    p = os.path.join(root, m['file'])
    orig = open(os.path.join(REPO, m['file']), 'rb').read()
    open(p, 'wb').write(orig[:m['a']] + m['new'].encode() + orig[m['b']:])
    t0 = time.time()
    try:
        for scale, limit in ((.0008, 60), (.006, 120), (.05, 300)):
            hit = in_child(probe, root, scale, order, limit)
            if hit and hit[0] != '?':
                return dict(m, res='caught', by=hit[0], msg=hit[1][:300], scale=scale, s=time.time() - t0)
            if scale == .0008 and not hit:
                continue
            if scale < .05:
                t = in_child(run_tests, root, keep.split(), seconds=150)
                if t != 0:
                    return dict(m, res='tests', s=time.time() - t0)
            if hit:
                return dict(m, res='odd', msg=hit[1], s=time.time() - t0)
        return dict(m, res='SURVIVED', s=time.time() - t0)
    finally:
        open(p, 'wb').write(orig)
        subprocess.run(['git', '-C', root, 'checkout', '-q', '--', '.'])


def main():
    if sys.argv[1] == 'gen':
        out = []
        for f in FILES:
            g = gen_file(f)
            print(f, len(g))
            out += g
        for i, m in enumerate(out):
            m['id'] = i
        json.dump(out, open(sys.argv[2], 'w'))
    elif sys.argv[1] == 'run':
        import multiprocessing as mp
        ms = json.load(open(sys.argv[2]))
        done = set()
        if os.path.exists(sys.argv[3]):
            done = {json.loads(l)['id'] for l in open(sys.argv[3])}
        ms = [m for m in ms if m['id'] not in done]
        random.Random(5).shuffle(ms)
        cov = cover()
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        files, unstable = set(), []
        # deselect what is not stable
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '--collect-only', '-q', '-p', 'no:cacheprovider', 'dynetworkx'],
                           cwd=REPO, env=ENV, capture_output=True, text=True)
        names = [l for l in r.stdout.split('\n') if '::' in l]
        st = set(stable)
        for nme in names:
            f, _, rest = nme.partition('::')
            key = f[:-3].replace('/', '.') + ('.' + rest.rpartition('::')[0].replace('::', '.') if '::' in rest else '') + '::' + rest.rpartition('::')[2]
            if key not in st:
                unstable.append(nme)
        print(len(names), 'tests,', len(unstable), 'not stable:', unstable[:5])
        keep = ' '.join('--deselect %s' % u for u in unstable) + ' dynetworkx'
        base = tempfile.mkdtemp(prefix='mut_')
        import networkx, numpy, pandas, sklearn.linear_model, sortedcontainers, pytest, multiprocessing.pool
        out = open(sys.argv[3], 'a')
        jobs = []
        for m in ms:
            cls = m['func'].split('.')
            order = [p for p in sorted(cov) if m['func'] in cov[p] or any(m['func'] == q or m['func'].startswith(q + '.') for q in cov[p])]
            if not order:
                # a function every check enters indirectly (class level, defaults)
                order = sorted(cov)
            jobs.append((m, base, order, keep))
        try:
            with mp.get_context('fork').Pool(int(os.environ.get('JOBS', '8'))) as pool:
                for r in pool.imap_unordered(work, jobs):
                    out.write(json.dumps(r) + '\n')
                    out.flush()
        finally:
            shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
