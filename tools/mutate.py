#!/usr/bin/env python3
"""Development tool (no check uses it): small changes to warcio, one at a time.

  mutate.py list                    how many there are
  mutate.py run OUT.jsonl [FILE..]  for each: the repository's tests first; if they pass, the quick checks
                                    that concern the file, until one catches it.  Results are appended to OUT.jsonl,
                                    changes found there already are skipped.
"""
import ast, json, os, subprocess, sys, shutil, tempfile, random
from concurrent.futures import ThreadPoolExecutor
from threading import Lock

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
FILES = {
    'archiveiterator.py': 'C03 C10 C04 C20 C16 C12',
    'bufferedreaders.py': 'C05 C06 C04 C20',
    'capture_http.py': 'C13 C14',
    'checker.py': 'C19',
    'cli.py': 'C15 C19 C11',
    'digestverifyingreader.py': 'C07 C19',
    'extractor.py': 'C15',
    'indexer.py': 'C15',
    'limitreader.py': 'C17 C04 C07',
    'recompressor.py': 'C11',
    'recordbuilder.py': 'C21 C02 C01',
    'recordloader.py': 'C12 C20 C04 C07 C15 C11',
    'statusandheaders.py': 'C09 C08 C02 C01 C12 C11',
    'timeutils.py': 'C18 C12',
    'utils.py': 'C07 C02 C09 C15 C19 C14',
    'warcwriter.py': 'C21 C02 C01 C11',
}
LOCK = Lock()


def mutants(src):
    """(line, what, new source)"""
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = src.encode()
    out = []

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def put(n, text, what):
        a, b = span(n)
        new = raw[:a] + text.encode() + raw[b:]
        out.append((n.lineno, what, new.decode()))

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0].value)
            doc.add(n.body[0])
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Import, ast.ImportFrom)) or (isinstance(n, ast.FunctionDef) and n.name in ('__repr__',)) or isinstance(n, ast.Assert):
            for m in ast.walk(n):
                skip.add(m)
        if isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name)) and text(n.func) in (
                'print', 'sys.stderr.write', 'logger.warning', 'traceback.print_exc', 'parser.add_argument', 'subparsers.add_parser', 'msg.format'):
            for m in ast.walk(n):
                skip.add(m)
    CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
           ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
    for n in ast.walk(tree):
        if n in doc or n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP[type(n.ops[0])]:
                put(n, '(%s) %s (%s)' % (text(n.left), o, text(n.comparators[0])), 'compare ' + o)
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(' + o.join('(%s)' % text(v) for v in n.values) + ')', 'bool' + o)
            for k in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != k]
                o = ' and ' if isinstance(n.op, ast.And) else ' or '
                put(n, '(' + o.join('(%s)' % text(v) for v in rest) + ')', 'drop operand %d' % k)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, '(%s)' % text(n.operand), 'drop not')
        elif isinstance(n, ast.Constant) and n not in doc:
            if n.value is True or n.value is False:
                put(n, repr(not n.value), 'flip')
            elif n.value is None:
                pass
            elif isinstance(n.value, int):
                put(n, '(%s + 1)' % text(n), '+1')
                put(n, '(%s - 1)' % text(n), '-1')
            elif isinstance(n.value, str) and n.value:
                put(n, repr(n.value + 'x'), 'text')
            elif isinstance(n.value, bytes) and n.value:
                put(n, repr(n.value + b'x'), 'bytes')
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            put(n, '(%s) %s (%s)' % (text(n.left), '-' if isinstance(n.op, ast.Add) else '+', text(n.right)), 'arith')
            put(n, '(%s)' % text(n.left), 'drop right')
            put(n, '(%s)' % text(n.right), 'drop left')
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('lower', 'upper', 'strip', 'rstrip', 'lstrip', 'replace', 'encode', 'decode', 'items'):
                put(n, '(%s)' % text(n.func.value), 'drop .%s()' % n.func.attr)
            for k in n.keywords:
                if k.arg:
                    a, b = span(k)
                    i = raw.rfind(b',', 0, a)
                    op = raw.rfind(b'(', 0, a)
                    if i > op:
                        out.append((k.lineno, 'drop keyword ' + k.arg, (raw[:i] + raw[b:]).decode()))
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Continue, ast.Break)):
            put(n, 'pass', 'delete statement')
            if isinstance(n, ast.Break):
                put(n, 'continue', 'continue')
        elif isinstance(n, ast.Return) and n.value is not None and text(n.value) != 'None':
            put(n, 'return None', 'return None')
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, '(False)', 'if False')
            if not isinstance(n, ast.While):
                put(n.test, '(True)', 'if True')
    seen, res = set(), []
    for l, w, s in out:
        if s in seen or s == src:
            continue
        seen.add(s)
        try:
            compile(s, 'x', 'exec')
        except SyntaxError:
            continue
        res.append((l, w, s))
    return res


def sh(cmd, cwd, env=None, timeout=None):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ''


def one(job):
    f, line, what, src, ids, key, out = job
    d = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.rmtree(d)
        subprocess.run(['cp', '-a', REPO, d])
        open(os.path.join(d, 'warcio', f), 'w').write(src)
        os.makedirs(d + '-tmp')
        rc, t = sh('AWS_EC2_METADATA_DISABLED=true LANG=C.UTF-8 TZ=UTC TMPDIR=%s-tmp PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s timeout -k 5 100 %s -m pytest -q '
                   '-p no:cacheprovider --no-cov --timeout=30 --deselect test/test_capture_http.py::TestCaptureHttpBin::test_post_chunked '
                   '--deselect test/test_capture_http.py::TestCaptureHttpBin::test_remote --ignore test/test_s3.py -x 2>&1 | tail -3' % (d, d, PY), d)
        res = {'key': key, 'file': f, 'line': line, 'what': what}
        if ' failed' in t or ' error' in t or ' passed' not in t:
            res['by'] = 'tests'
        else:
            res['by'] = None
            for i in ids.split():
                rc, t = sh('exec timeout -k 5 600 python3 run.py ' + i, VERIF, env=dict(os.environ, VERIF_REPO=d))
                if rc == 1 and 'VIOLATION' in t:
                    res['by'] = i
                    break
                if rc != 0:
                    res.setdefault('odd', []).append('%s rc=%d' % (i, rc))
        with LOCK:
            open(out, 'a').write(json.dumps(res) + '\n')
            if res['by'] is None:
                print('SURVIVED', f, line, what, res.get('odd', ''), '|', src.split('\n')[line - 1].strip(), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + '-tmp', ignore_errors=True)


def main():
    jobs = []
    only = sys.argv[3:] if len(sys.argv) > 3 else list(FILES)
    done = set()
    if sys.argv[1] == 'run' and os.path.exists(sys.argv[2]):
        done = {json.loads(l)['key'] for l in open(sys.argv[2])}
    for f in only:
        src = open(os.path.join(REPO, 'warcio', f)).read()
        ms = mutants(src)
        print(f, len(ms))
        for n, (l, w, s) in enumerate(ms):
            key = '%s:%d:%s:%d' % (f, l, w, n)
            if key not in done:
                jobs.append((f, l, w, s, FILES[f], key, sys.argv[2] if len(sys.argv) > 2 else None))
    if sys.argv[1] == 'list':
        return
    random.Random(5).shuffle(jobs)
    with ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
        list(ex.map(one, jobs))


main()
