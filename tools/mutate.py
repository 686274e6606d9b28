"""Mutation analysis of the checks: small changes to the functions the properties are anchored in.

  mutate.py list OUT.jsonl [SEED]            all mutants that compile
  mutate.py tests IN.jsonl OUT.jsonl [N]     those that pass the repository's tests (as nobody)
  mutate.py check IN.jsonl OUT.jsonl [MAX]   which check catches them (in scratch copies)
"""
import ast
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MUT_REPO', '/repo')
PY = '/opt/venv/bin/python'

MAP = {
    'swap': {'*': 'P01 P02'},
    'core': {
        'EatHelper': 'P10', 'XattrHelper.': 'P10',
        'AugmentedPath.exists': 'P24', 'AugmentedPath.is_': 'P24', 'AugmentedPath.resolve': 'P24',
        'AugmentedPath.readlink': 'P24', 'AugmentedPath.access': 'P24',
        'AugmentedPath.exists_not': 'P24',
        'AugmentedPath.swap_carefree': 'P02', 'AugmentedPath.swap': 'P01',
        'AugmentedPath.rmtree': 'P03', 'AugmentedPath.rmdirtree': 'P04',
        'AugmentedPath.chdir': 'P26', 'AugmentedPath.pushd': 'P26', 'AugmentedPath.popd': 'P26',
        'AugmentedPath.__e': 'P26', 'AugmentedPath.checksum': 'P08', 'AugmentedPath.copy': 'P05',
        'EatPath.': 'P10 P27',
        'LocalPath.cache': 'P16 P14 P31', 'LocalPath.mkdir_cache': 'P31 P15 P16', 'LocalPath.find_cache_root': 'P28 P30',
        'LocalPath._stat': 'P09', 'LocalPath.size': 'P09', 'LocalPath.meta': 'P09', 'LocalPath._meta': 'P09',
        'LocalPath.created': 'P09', 'LocalPath._data': 'P07', 'LocalPath.data': 'P06 P07',
        'LocalPath._write': 'P06', 'LocalPath._data_setter': 'P06', 'LocalPath.copy': 'P05',
        'LocalPath.children': 'P25', 'LocalPath.rchildren': 'P25', 'LocalPath.etag': 'P08',
        'LocalPath.content_different': 'P32 P31', 'LocalPath.validate_file': 'P14 P32',
        '_catch_wrapper': 'P03',
    },
    'caches': {
        '_CachePath.setup': 'P28', '_CachePath.weighAnchor': 'P28', '_CachePath.anchorClassHere': 'P28',
        '_CachePath.__new__': 'P16', '_CachePath.trash': 'P12', '_CachePath._trashed': 'P12 P15',
        '_CachePath.crumple': 'P31 P15 P13', '_CachePath.local_': 'P28 P22', '_CachePath.__truediv__': 'P16 P15 P31 P30',
        '_CachePath.__rtruediv__': 'P16 P30', '_CachePath.bootstrap': 'P16 P27', '_CachePath._bootstrap': 'P16 P27 P13',
        '_CachePath._sparse': 'P27', '_CachePath.is_sparse': 'P27', '_CachePath._clear': 'P27', '_CachePath._mark': 'P27',
        '_CachePath._meta': 'P16 P12', '_CachePath._instance_cypher': 'P14', '_CachePath.validate_file': 'P14 P22',
        '_CachePath.remote': 'P15 P31 P30', '_CachePath.local': 'P15', '_CachePath.id': 'P15', '_CachePath.meta': 'P11 P12',
        '_CachePath.refresh': 'P31 P13', '_CachePath.fetch': 'P14 P22 P13', '_CachePath.move': 'P15 P31 P13',
        'EatCache': 'P11', 'SymlinkCache': 'P11 P12', 'PrimaryCache': 'P11 P12', 'ReflectiveCache': 'P13',
        'CachePath': 'P11', 'PrimaryCache.children': 'P30', 'PrimaryCache.rchildren': 'P30',
        'PrimaryCache._meta_updater': 'P31 P13', 'PrimaryCache._update_meta': 'P12 P31',
    },
    'remotes': {
        'RemotePath.init': 'P28', 'RemotePath.anchor': 'P28', 'RemotePath._anchor': 'P28', 'RemotePath.smart': 'P28',
        'RemotePath.dropAnchor': 'P28', 'RemotePath.weigh': 'P28', 'RemotePath.bootstrap': 'P16',
        'RemotePath.cache': 'P16 P31 P30', 'RemotePath._cache': 'P16 P31', 'RemotePath.update_cache': 'P31 P13',
        'RemotePath.refresh': 'P31', 'RemotePath._parts': 'P30 P16', 'RemotePath.parts': 'P30', 'RemotePath.as_path': 'P30',
        'RemotePath.local': 'P30 P31', 'RemotePath.__': 'P30 P16',
        'RemotePath._parent': 'P31 P13', 'RemotePath.parent_id': 'P31 P16', 'RemotePath.children_pull': 'P16',
        'SshRemote': 'P17',
    },
    'meta': {'PathMeta.': 'P11 P12', 'PathMeta.content_different': 'P32 P13', '_PathMetaAsSymlink': 'P11 P34', '_PathMetaAsXattrs': 'P11 P34', '_EncodeBy': 'P11', 'isoformat': 'P11'},
    'repo': {'_literal': 'P20 P18', 'RepoHelper.repo': 'P29 P18', 'RepoHelper.working': 'P29 P18', 'RepoHelper.init': 'P29', 'RepoHelper.rmtree': 'P29',
             'RepoHelper.clone': 'P29', 'RepoHelper.remote': 'P20', 'RepoHelper.exists': 'P29', 'RepoHelper._setup': 'P18',
             'RepoHelper.latest': 'P20', 'RepoHelper.commits': 'P20', 'RepoHelper.modified': 'P20', 'RepoHelper.indexed': 'P20',
             'RepoHelper.has': 'P20', 'RepoHelper._do_diff': 'P20', 'RepoHelper.diff': 'P20', 'RepoHelper.show': 'P20',
             'RepoHelper.add_index': 'P18', 'RepoHelper.commit': 'P18', 'RepoHelper.commit_from': 'P18', 'RepoHelper.repo_relative': 'P18 P20'},
    'repo_patch': {'*': 'P19'},
    'utils': {'sysidpath': 'P23', 'machine_guid': 'P23', '_bind': 'P23', 'StatResult': 'P17', 'etag': 'P08', 'fs_safe_id': 'P12'},
    'zip': {'*': 'P21'},
}


def props(mod, qual):
    best = None
    for k, v in MAP[mod].items():
        if k == '*' or qual.startswith(k):
            if best is None or len(k) > len(best[0]):
                best = (k, v)
    return best[1].split() if best else None


class Gen:
    def __init__(self, src):
        self.src = src
        self.lines = src.split('\n')
        self.off = [0]
        b = src.encode()
        for l in b.split(b'\n'):
            self.off.append(self.off[-1] + len(l) + 1)
        self.b = b

    def span(self, n):
        return (self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset)

    def text(self, n):
        a, z = self.span(n)
        return self.b[a:z].decode()

    def put(self, n, new):
        a, z = self.span(n)
        return (self.b[:a] + new.encode() + self.b[z:]).decode()

    def muts(self, fn):
        doc = fn.body[0] if (isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant)) else None
        for n in ast.walk(fn):
            if n is fn or n is doc:
                continue
            if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.Continue, ast.Break)):
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                    continue
                yield 'delete', n, 'pass'
            if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
                yield 'return None', n, 'return None'
            if isinstance(n, (ast.If, ast.IfExp)):
                yield 'if True', n.test, '(True)'
                yield 'if False', n.test, '(False)'
                if not isinstance(n.test, (ast.Compare, ast.UnaryOp)):
                    yield 'if not', n.test, f'(not ({self.text(n.test)}))'
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                sw = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>',
                      ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
                o = sw[type(n.ops[0])]
                yield 'compare ' + o, n, f'({self.text(n.left)} {o} {self.text(n.comparators[0])})'
            if isinstance(n, ast.BoolOp):
                op = ' and ' if isinstance(n.op, ast.And) else ' or '
                for i in range(len(n.values)):
                    rest = [self.text(v) for j, v in enumerate(n.values) if j != i]
                    yield f'drop operand {i}', n, '(' + op.join(f'({r})' for r in rest) + ')'
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                yield 'drop not', n, f'({self.text(n.operand)})'
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg:
                        a, z = self.span(n)
                        args = [self.text(x) for x in n.args] + \
                               [(f'{q.arg}={self.text(q.value)}' if q.arg else f'**{self.text(q.value)}')
                                for q in n.keywords if q is not k]
                        yield f'drop {k.arg}=', n, f'{self.text(n.func)}({", ".join(args)})'
            if isinstance(n, ast.Constant):
                if n.value is True or n.value is False:
                    yield 'flip', n, str(not n.value)
                elif isinstance(n.value, int):
                    yield 'int+1', n, str(n.value + 1)
            if isinstance(n, ast.ExceptHandler):
                if n.type is not None and self.text(n.type) not in ('Exception', 'BaseException'):
                    yield 'except Exception', n.type, 'Exception'
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.left, ast.JoinedStr):
                o = '-' if isinstance(n.op, ast.Add) else '+'
                yield 'binop ' + o, n, f'({self.text(n.left)} {o} {self.text(n.right)})'


def all_mutants():
    for mod in MAP:
        rel = f'augpathlib/{mod}.py'
        src = open(os.path.join(REPO, rel)).read()
        g = Gen(src)
        t = ast.parse(src)
        fns = []
        for n in t.body:
            if isinstance(n, ast.ClassDef):
                inner = [m for k in n.body for m in ((k.body + k.orelse) if isinstance(k, ast.If) else [k])]
                fns += [(f'{n.name}.{m.name}', m) for m in inner if isinstance(m, ast.FunctionDef)]
            elif isinstance(n, ast.FunctionDef):
                fns.append((n.name, n))
            elif isinstance(n, ast.If):
                for m in n.body + n.orelse:
                    if isinstance(m, ast.FunctionDef):
                        fns.append((m.name, m))
        for q, fn in fns:
            ps = props(mod, q)
            if not ps:
                continue
            seen = set()
            for what, node, new in g.muts(fn):
                s = g.put(node, new)
                if s == src or s in seen:
                    continue
                seen.add(s)
                try:
                    compile(s, rel, 'exec')
                except SyntaxError:
                    continue
                a, z = g.span(node)
                yield {'file': rel, 'func': q, 'line': node.lineno, 'what': what, 'a': a, 'z': z, 'new': new,
                       'old': g.text(node)[:160], 'props': ps}


def mutated(m, base=None):
    b = open(os.path.join(base or REPO, m['file']), 'rb').read()
    return b[:m['a']] + m['new'].encode() + b[m['z']:]


def tests(src, dst, n=8):
    ms = [json.loads(l) for l in open(src)]
    root = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    os.chmod(root, 0o755)
    copies = []
    for i in range(n):
        c = f'{root}/{i}/repo'
        shutil.copytree(REPO, c, symlinks=True)
        os.makedirs(f'{root}/{i}/home')
        subprocess.run(['chown', '-R', 'nobody:nogroup', f'{root}/{i}'], check=True)
        copies.append(c)
    free = list(range(n))
    out = open(dst, 'a')

    def go(m):
        i = free.pop()
        c = copies[i]
        try:
            path = os.path.join(c, m['file'])
            with open(path, 'wb') as f:
                f.write(mutated(m))
            env = {'PATH': '/opt/venv/bin:/usr/bin:/bin', 'HOME': f'{root}/{i}/home', 'SKIP_NETWORK': '1', 'LANG': 'C.UTF-8',
                   'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPATH': c, 'TMPDIR': f'{root}/{i}/home',
                   'GIT_AUTHOR_NAME': 't', 'GIT_AUTHOR_EMAIL': 't@e.x', 'GIT_COMMITTER_NAME': 't', 'GIT_COMMITTER_EMAIL': 't@e.x'}
            p = subprocess.Popen(['setpriv', '--reuid', 'nobody', '--regid', 'nogroup', '--clear-groups', 'timeout', '-k', '5', '60', PY, '-m', 'pytest',
                                  '-q', '-x', '-p', 'no:cacheprovider', '--timeout=50'], cwd=c, env=env, stdin=subprocess.DEVNULL,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
            o, _ = p.communicate()
            m['tests'] = p.returncode == 0
            m['tail'] = o[-200:].decode(errors='replace') if not m.get('func') else ''
            shutil.copy(os.path.join(REPO, m['file']), path)
            subprocess.run(['chown', 'nobody:nogroup', path])
            for x in os.listdir(f'{c}/test'):
                if x.startswith('test-base-'):
                    subprocess.run(['chmod', '-R', 'u+rwX', f'{c}/test/{x}'])
                    shutil.rmtree(f'{c}/test/{x}', ignore_errors=True)
        finally:
            free.append(i)
        if m['tests']:
            m.pop('tail')
            out.write(json.dumps(m) + '\n')
            out.flush()
        return m['tests']
    with ThreadPoolExecutor(n) as ex:
        r = list(ex.map(go, ms))
    print(len(r), 'mutants', sum(r), 'pass the tests')
    shutil.rmtree(root)


def check(src, dst, mx=None, n=4, share=3):
    """one mutant per line and at most eight per function, a part of the seeds"""
    sys.path.insert(0, HERE)
    from dst.runner import load
    ms, lines, funcs = [], set(), {}
    for l in open(src):
        m = json.loads(l)
        k = m['file'], m['line']
        funcs[m['func']] = funcs.get(m['func'], 0) + (k not in lines)
        if k not in lines and funcs[m['func']] <= 8:
            ms.append(m)
        lines.add(k)
    done = set()
    if os.path.exists(dst):
        for l in open(dst):
            d = json.loads(l)
            done.add((d['file'], d['a'], d['z'], d['new']))
    ms = [m for m in ms if (m['file'], m['a'], m['z'], m['new']) not in done][:mx]
    print(len(ms), 'mutants', flush=True)
    root = tempfile.mkdtemp(prefix='mutc-', dir='/tmp')
    os.chmod(root, 0o755)
    free = []
    for i in range(n):
        free.append(f'{root}/{i}/repo')
        shutil.copytree(REPO, free[-1], symlinks=True, ignore=shutil.ignore_patterns('.git'))
    out = open(dst, 'a')

    def go(m):
        c = free.pop()
        path = os.path.join(c, m['file'])
        with open(path, 'wb') as f:
            f.write(mutated(m))
        m['res'] = {}
        for p in m['props']:
            env = dict(os.environ, DST_REPO=c, DST_FAST='1', VERIF_SEED='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
            seeds = max(20, load(p).SEEDS[0] // share)
            try:
                q = subprocess.run([PY, '-m', 'dst.runner', 'check', p, '--seeds', str(seeds), '--workers', str(max(2, 8 // n))],
                                   cwd=HERE, env=env, capture_output=True, text=True, timeout=600)
                m['res'][p] = q.returncode
                if q.returncode == 1:
                    m['msg'] = [l for l in q.stdout.splitlines()[1:2]]
                    break
                if q.returncode > 1:
                    m['msg'] = q.stdout[-400:] + q.stderr[-300:]
            except subprocess.TimeoutExpired:
                m['res'][p] = 'timeout'
        shutil.copy(os.path.join(REPO, m['file']), path)
        free.append(c)
        out.write(json.dumps(m) + '\n')
        out.flush()
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(go, ms))
    shutil.rmtree(root)


if __name__ == '__main__':
    cmd, *a = sys.argv[1:]
    if cmd == 'list':
        ms = list(all_mutants())
        random.Random(int(a[1]) if len(a) > 1 else 1).shuffle(ms)
        with open(a[0], 'w') as f:
            for m in ms:
                f.write(json.dumps(m) + '\n')
        print(len(ms))
    elif cmd == 'tests':
        tests(a[0], a[1], int(a[2]) if len(a) > 2 else 8)
    else:
        check(a[0], a[1], int(a[2]) if len(a) > 2 else None)
