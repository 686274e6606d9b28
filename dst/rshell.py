"""A simulated remote host: a small file system, the part of a POSIX shell and of the
usual tools that one-line remote commands need, and the two ways of talking to it
(an interactive pxssh session, `ssh host command`).

Stub in the harness; what is being tested is what the library sends and what it
makes of the answers.
"""
import hashlib
import io
import re
import time as _time

from .simfs import HarnessError

PROMPT = b'[PEXPECT]$ '
S_IFMT = {'f': 0o100000, 'd': 0o040000, 'l': 0o120000, 'p': 0o010000}
KIND = {'d': 'directory', 'l': 'symbolic link', 'p': 'fifo'}


class RNode:
    def __init__(self, kind, data=b'', mode=None, uid=1000, gid=1000, mtime=0, ctime=0, ino=0):
        self.kind, self.data, self.uid, self.gid = kind, data, uid, gid
        self.mode = mode if mode is not None else (0o755 if kind == 'd' else 0o644)
        self.mtime, self.ctime, self.atime, self.birth = mtime, ctime, mtime, 0
        self.ino = ino
        self.entries = {}       # bytes -> RNode


class _Directory(bytes):
    pass


DIRECTORY = _Directory()        # standard input that is a directory


class ShError(Exception):
    pass


class Stop(Exception):
    pass


class Remote:
    """One remote host with one user."""
    uid, gid, gids = 1000, 1000, (1000, 27)
    system = 'Linux'

    def __init__(self, name='far'):
        self.host = name
        self.nextino = 1000
        self.root = RNode('d', ino=2, uid=0, gid=0)
        self.executed = []
        self.mkdir('/home/u')
        self.mkdir('/etc')
        self.put('/etc/machine-id', b'0123456789abcdef0123456789abcdef\n')

    # -- tree
    def find(self, path, cwd='/', links=True, depth=0):
        """node at the path, or an errno text"""
        if depth > 10:
            return 'Too many levels of symbolic links'
        if isinstance(path, str):
            path = path.encode('utf-8', 'surrogateescape')
        if path == b'':
            return 'No such file or directory'
        if not path.startswith(b'/'):
            path = cwd.encode() + b'/' + path if isinstance(cwd, str) else cwd + b'/' + path
        stack = [self.root]
        names = []
        parts = [p for p in path.split(b'/') if p]
        for i, p in enumerate(parts):
            cur = stack[-1]
            if cur.kind != 'd':
                return 'Not a directory'
            if not self.may(cur, 1):
                return 'Permission denied'
            if p == b'.':
                continue
            if p == b'..':
                if len(stack) > 1:
                    stack.pop()
                    names.pop()
                continue
            n = cur.entries.get(p)
            if n is None:
                if len(p) > 255:
                    return 'File name too long'
                return 'No such file or directory'
            if n.kind == 'l' and (links or i < len(parts) - 1):
                n = self.find(n.data, b'/' + b'/'.join(names), True, depth + 1)
                if isinstance(n, str):
                    return n
            stack.append(n)
            names.append(p)
        if path.endswith(b'/') and stack[-1].kind != 'd':
            return 'Not a directory'
        return stack[-1]

    def may(self, n, want):
        if n.uid == self.uid:
            bits = n.mode >> 6
        elif n.gid in self.gids:
            bits = n.mode >> 3
        else:
            bits = n.mode
        return bits & want == want

    def _add(self, path, node):
        if isinstance(path, str):
            path = path.encode('utf-8', 'surrogateescape')
        up, name = path.rsplit(b'/', 1)
        parent = self.root
        for p in up.split(b'/'):
            if p:
                parent = parent.entries[p]
        parent.entries[name] = node
        node.ino = self.nextino
        self.nextino += 1
        return node

    def mkdir(self, path, **kw):
        path = path.encode('utf-8', 'surrogateescape') if isinstance(path, str) else path
        cur = b''
        for p in path.split(b'/')[1:]:
            cur += b'/' + p
            n = self.find(cur)
            if isinstance(n, str):
                n = self._add(cur, RNode('d', **kw))
        return n

    def put(self, path, data, **kw):
        return self._add(path, RNode('f', data, **kw))

    def link(self, path, target):
        return self._add(path, RNode('l', target.encode(), mode=0o777))

    # -- commands
    def run(self, line, tty):
        """(output as the terminal or the pipe sees it, err, exit status)"""
        sh = Shell(self, tty)
        return sh.run(line)


def hr(ns):
    s, f = divmod(ns, 10**9)
    t = _time.gmtime(s)
    return f'{t.tm_year}-{t.tm_mon:02}-{t.tm_mday:02} {t.tm_hour:02}:{t.tm_min:02}:{t.tm_sec:02}.{f:09} +0000'


OPS = (b'&&', b'||', b';', b'|', b'&', b'\n', b'2>&1', b'2>>', b'2>', b'>>', b'>', b'<', b'(', b')')


class Shell:
    """`sh -c line`, or one line typed at an interactive prompt."""

    def __init__(self, remote, tty, cwd='/home/u', env=None):
        self.r, self.tty = remote, tty
        self.cwd = cwd
        self.env = env or {'HOME': '/home/u', 'OLDPWD': '/home/u', 'PWD': cwd, 'USER': 'u'}
        self.status = 0

    def run(self, line):
        out, err = bytearray(), bytearray()
        if self.tty:
            err = out
        try:
            if self.tty:
                line, expanded = self.history(line)
                if expanded:
                    out += line + b'\n'
            self.status = self.line(line, b'', out, err)
        except UnicodeError as e:
            raise HarnessError(repr(e))
        except ShError as e:
            err += f'bash: {e}\n'.encode()
            self.status = 2
        return bytes(out), bytes(err) if not self.tty else b'', self.status

    def history(self, line):
        """bash's ! expansion at an interactive prompt; nothing in the history matches"""
        single = double = False
        i = 0
        while i < len(line):
            c = line[i:i + 1]
            if c == b'\\' and not single:
                i += 2
                continue
            if c == b"'" and not double:
                single = not single
            elif c == b'"' and not single:
                double = not double
            elif c == b'!' and not single:
                nxt = line[i + 1:i + 2]
                if nxt and nxt not in b' \t\r\n=' and not (double and nxt == b'"'):
                    word = re.match(rb'![^\s;|&<>"]*', line[i:]).group().decode('utf-8', 'replace')
                    raise ShError(f'{word}: event not found')
            i += 1
        return line, False

    # -- words
    def tokens(self, s):
        """list of ('op', b) and ('word', [(quoted, bytes-or-('sub', cmd)), ...])"""
        out, i = [], 0
        word = None

        def end():
            nonlocal word
            if word is not None:
                out.append(('word', word))
                word = None

        while i < len(s):
            c = s[i:i + 1]
            if c in b' \t':
                end()
                i += 1
                continue
            if c == b'#' and word is None:
                while i < len(s) and s[i:i + 1] != b'\n':
                    i += 1
                continue
            op = next((o for o in OPS if s.startswith(o, i)), None)
            if op and not (op.startswith(b'2') and word is not None):
                end()
                out.append(('op', op))
                i += len(op)
                continue
            if word is None:
                word = []
            if c == b'\\':
                if i + 1 >= len(s):
                    raise ShError('unexpected end of line')
                word.append((True, s[i + 1:i + 2]))
                i += 2
            elif c == b"'":
                j = s.find(b"'", i + 1)
                if j < 0:
                    raise ShError("unexpected EOF while looking for matching `''")
                word.append((True, s[i + 1:j]))
                i = j + 1
            elif c == b'"':
                i += 1
                buf = bytearray()
                word.append((True, b''))
                while True:
                    if i >= len(s):
                        raise ShError('unexpected EOF while looking for matching `"\'')
                    c = s[i:i + 1]
                    if c == b'"':
                        i += 1
                        break
                    if c == b'\\' and s[i + 1:i + 2] in (b'"', b'\\', b'$', b'`', b'\n'):
                        buf += s[i + 1:i + 2]
                        i += 2
                    elif c in b'$`':
                        part, i = self.dollar(s, i)
                        word.append((True, bytes(buf)))
                        buf.clear()
                        word.append((True, part))
                    else:
                        buf += c
                        i += 1
                word.append((True, bytes(buf)))
            elif c == b'$' and s[i + 1:i + 2] == b"'":
                j, buf = i + 2, bytearray()
                while j < len(s) and s[j:j + 1] != b"'":
                    if s[j:j + 1] == b'\\':
                        m = re.match(rb'\\(x[0-9a-fA-F]{1,2}|[0-7]{1,3}|.)', s[j:], re.S)
                        t = m.group(1)
                        j += len(m.group())
                        if t[:1] == b'x' and len(t) > 1:
                            buf.append(int(t[1:], 16))
                        elif t[:1].isdigit():
                            buf.append(int(t, 8) & 255)
                        else:
                            buf += {b'n': b'\n', b't': b'\t', b'r': b'\r', b'a': b'\a', b'b': b'\b', b'e': b'\x1b',
                                    b'f': b'\f', b'v': b'\v'}.get(t, t)
                    else:
                        buf += s[j:j + 1]
                        j += 1
                if j >= len(s):
                    raise ShError("unexpected EOF while looking for matching `''")
                word.append((True, bytes(buf)))
                i = j + 1
            elif c in b'$`':
                part, i = self.dollar(s, i)
                word.append((False, part))
            else:
                word.append((False, c))
                i += 1
        end()
        return out

    def dollar(self, s, i):
        """an expansion at s[i]: (bytes or ('sub', command) or ('var', name), next index)"""
        if s[i:i + 1] == b'`':
            j = s.find(b'`', i + 1)
            if j < 0:
                raise ShError("unexpected EOF while looking for matching ``'")
            return ('sub', s[i + 1:j]), j + 1
        if s[i + 1:i + 2] == b'(':
            depth, j = 0, i + 1
            while j < len(s):
                depth += {b'(': 1, b')': -1}.get(s[j:j + 1], 0)
                j += 1
                if not depth:
                    return ('sub', s[i + 2:j - 1]), j
            raise ShError("unexpected EOF while looking for matching `)'")
        m = re.match(rb'\$(\{(\w+)\}|(\w+)|[?$!#@*-])', s[i:])
        if not m:
            return b'$', i + 1
        return ('var', (m.group(2) or m.group(3) or m.group(1)).decode()), i + m.end()

    def expand(self, parts):
        """the fields of one word"""
        fields, cur, any_quoted, pattern = [], bytearray(), False, bytearray()
        hasglob = False

        for quoted, p in parts:
            if isinstance(p, tuple):
                if p[0] == 'sub':
                    o, e = bytearray(), bytearray()
                    sub = Shell(self.r, False, self.cwd, dict(self.env))
                    try:
                        sub.line(p[1], b'', o, e)
                    except ShError as x:
                        e += f'bash: {x}\n'.encode()
                    self.suberr += e
                    v = bytes(o).rstrip(b'\n')
                else:
                    v = self.env.get(p[1], str(self.status) if p[1] == '?' else '').encode()
                if not quoted:
                    bits = re.split(rb'[ \t\n]+', v)
                    for n, b in enumerate(bits):
                        if n:
                            fields.append((bytes(cur), bytes(pattern), hasglob, any_quoted))
                            cur, pattern, hasglob = bytearray(), bytearray(), False
                        cur += b
                        pattern += re.escape(b)
                    continue
                p = v
            any_quoted = any_quoted or quoted
            cur += p
            if quoted:
                pattern += re.escape(p)
            else:
                for c in p:
                    c = bytes([c])
                    if c in b'*?[':
                        hasglob = True
                    pattern += {b'*': b'[^/]*', b'?': b'[^/]'}.get(c, re.escape(c))
        fields.append((bytes(cur), bytes(pattern), hasglob, any_quoted))
        out = []
        for f, pat, g, q in fields:
            if not f and not q:
                continue
            if g:
                hits = self.glob(f, pat)
                out += hits or [f]
            else:
                out.append(f)
        return out

    def glob(self, f, pat):
        if b'/' in f:
            d, base = f.rsplit(b'/', 1)
            pat = pat.rsplit(b'/', 1)[1]
            where = d or b'/'
        else:
            d, base, where = None, f, self.cwd.encode()
        n = self.r.find(where)
        if isinstance(n, str) or n.kind != 'd' or not self.r.may(n, 4):
            return []
        names = sorted(x for x in n.entries if re.fullmatch(pat, x, re.S)
                       and (not x.startswith(b'.') or base.startswith(b'.')))
        return [x if d is None else d + b'/' + x for x in names]

    def braces(self, parts):
        """{a,b} of unquoted single characters"""
        flat = b''.join(p if not q and isinstance(p, bytes) else b'\0' for q, p in parts)
        m = re.search(rb'\{([^{}\0]*,[^{}\0]*)\}', flat)
        if not m:
            return [parts]
        # every unquoted part is one character, every other one counts as one
        a, z = m.start(), m.end()
        out = []
        for alt in m.group(1).split(b','):
            out += self.braces(parts[:a] + [(False, bytes([c])) for c in alt] + parts[z:])
        return out

    # -- lines
    def line(self, s, stdin, out, err):
        return self.run_tokens(self.tokens(s), stdin, out, err)

    def group(self, toks, i, end):
        """index after the token that closes the group opened just before i"""
        depth = 1
        while i < len(toks):
            kind, t = toks[i]
            i += 1
            if end == b')' and kind == 'op' and t in (b'(', b')'):
                depth += 1 if t == b'(' else -1
            elif end == b'}' and kind == 'word' and t == [(False, end)] and toks[i - 2][0] == 'op':
                depth -= 1
            elif end == b'}' and kind == 'word' and t == [(False, b'{')]:
                depth += 1
            if not depth:
                return i
        raise ShError('syntax error: unexpected end of file')

    def run_tokens(self, toks, stdin, out, err):
        i, n = 0, len(toks)
        status, run = 0, True
        while i < n:
            pipe, cmd = [], []
            sep = b'\n'
            redir = []
            while i < n:
                kind, t = toks[i]
                i += 1
                if not cmd and (kind, t) in (('op', b'('), ('word', [(False, b'{')])):
                    j = self.group(toks, i, b')' if kind == 'op' else b'}')
                    cmd = (kind == 'op', toks[i:j - 1])
                    i = j
                elif kind == 'word':
                    if isinstance(cmd, tuple):
                        raise ShError('syntax error near unexpected token')
                    cmd.append(t)
                elif t == b'|':
                    pipe.append((cmd, redir))
                    cmd, redir = [], []
                elif t in (b'>', b'>>', b'2>', b'2>>', b'<'):
                    if i >= n or toks[i][0] != 'word':
                        raise ShError('syntax error near unexpected token')
                    redir.append((t, toks[i][1]))
                    i += 1
                elif t == b'2>&1':
                    redir.append((t, None))
                elif t in (b'(', b')'):
                    raise ShError(f"syntax error near unexpected token `{t.decode()}'")
                else:
                    sep = t
                    break
            pipe.append((cmd, redir))
            if len(pipe) == 1 and not cmd and not redir:
                if sep in (b';', b'&&', b'||', b'&', ) and (i == 1 or toks[i - 2][0] == 'op'):
                    raise ShError(f"syntax error near unexpected token `{sep.decode()}'")
                continue
            if run:
                status = self.pipeline(pipe, stdin, out, err)
                self.status = status
            run = {b'&&': run and status == 0 or (not run and status == 0), b'||': status != 0}.get(sep, True)
        return status

    def pipeline(self, pipe, stdin, out, err):
        data, status = stdin, 0
        for j, (cmd, redir) in enumerate(pipe):
            last = j == len(pipe) - 1
            self.suberr = bytearray()
            argv = []
            for w in cmd if isinstance(cmd, list) else ():
                for b in self.braces(w):
                    argv += self.expand(b)
            err += self.suberr
            o = out if last else bytearray()
            e = err
            for t, target in redir:
                if t == b'2>&1':
                    e = o
                    continue
                name = self.expand(target)[0]
                if t == b'<':
                    n = self.r.find(name, self.cwd)
                    if not isinstance(n, str) and not self.r.may(n, 4):
                        n = 'Permission denied'
                    if isinstance(n, str):
                        err += b'bash: ' + name + b': ' + n.encode() + b'\n'
                        data = None
                        break
                    data = n.data if n.kind != 'd' else DIRECTORY
                elif name == b'/dev/null':
                    if t[:1] == b'2':
                        e = bytearray()
                    else:
                        o = bytearray()
                elif name in (b'&1',):
                    e = o
                else:
                    self.r.executed.append([b'redirect', name])
            if data is None:        # a redirection failed, so this command does not run
                status, data = 1, b''
                continue
            if isinstance(cmd, tuple):
                sh = Shell(self.r, False, self.cwd, dict(self.env)) if cmd[0] else self
                status = sh.run_tokens(cmd[1], data, o, e)
                data = bytes(o) if not last else b''
                continue
            if not argv:
                status = 0
                continue
            status = self.command(argv, data, o, e)
            data = bytes(o) if not last else b''
        return status

    def command(self, argv, stdin, out, err):
        self.r.executed.append(argv)
        name = argv[0].decode('utf-8', 'surrogateescape')
        if stdin is DIRECTORY:
            if name in ('cat', 'head', 'tail', 'awk', 'cut', 'tr') or name.endswith('sum'):
                err += argv[0] + b': -: Is a directory\n'
                return 1
            stdin = b''
        f = getattr(self, 'do_' + re.sub(r'\W', '_', name), None)
        if '=' in name and re.match(r'\w+=', name):
            k, v = name.split('=', 1)
            self.env[k] = v
            return 0
        if f is None:
            if name.endswith('sum') and name[:-3] in ('md5', 'sha1', 'sha256', 'sha512', 'sha224', 'sha384', 'b2'):
                return self.do_sum(name, argv, stdin, out, err)
            err += f'bash: {name}: command not found\n'.encode()
            return 127
        return f(argv, stdin, out, err)

    # -- tools
    def say(self, err, tool, path, msg, quote=True):
        q = b"'" + path + b"'" if quote else path
        err += tool + b': ' + q + b': ' + msg.encode() + b'\n'

    def do_true(self, *a):
        return 0
    do_unset = do_export = do_bind = do_set = do_stty = do__ = do_true

    def do_false(self, *a):
        return 1

    def do_uname(self, argv, stdin, out, err):
        n = self.r.system
        out += {b'-a': f'{n} far 6.1.0 #1 SMP x86_64 GNU/{n}\n'.encode()}.get(b' '.join(argv[1:]), n.encode() + b'\n')
        return 0

    def do_id(self, argv, stdin, out, err):
        r = self.r
        a = b''.join(argv[1:])
        if a == b'-u':
            out += b'%d\n' % r.uid
        elif a == b'-g':
            out += b'%d\n' % r.gid
        elif a == b'-G':
            out += b' '.join(b'%d' % g for g in r.gids) + b'\n'
        else:
            raise HarnessError(f'simulated id {argv}')
        return 0

    def do_echo(self, argv, stdin, out, err):
        a, nl = argv[1:], b'\n'
        if a and a[0] == b'-n':
            a, nl = a[1:], b''
        out += b' '.join(a) + nl
        return 0

    def do_printf(self, argv, stdin, out, err):
        if len(argv) < 2:
            return 2
        fmt = argv[1].replace(b'\\n', b'\n').replace(b'\\t', b'\t').replace(b'\\0', b'\0')
        args = argv[2:]
        while True:
            got = []

            def one(m):
                if m.group() == b'%%':
                    return b'%'
                got.append(1)
                return args.pop(0) if args else b''
            out += re.sub(rb'%[sdb%]', one, fmt)
            if not args or not got:
                return 0

    def do_awk(self, argv, stdin, out, err):
        prog = argv[1].decode() if len(argv) > 1 else ''
        m = re.fullmatch(r'\{\s*print\s+(tolower\()?\$(\d+)\)?;?\s*\}', prog.strip())
        if not m:
            raise HarnessError(f'simulated awk {prog!r}')
        for ln in stdin.splitlines():
            w = ln.split()
            i = int(m.group(2))
            v = ln if i == 0 else w[i - 1] if i <= len(w) else b''
            out += (v.lower() if m.group(1) else v) + b'\n'
        return 0

    def do_cut(self, argv, stdin, out, err):
        a = b' '.join(argv[1:]).replace(b'-d ', b'-d').replace(b'-f ', b'-f')
        m = re.fullmatch(rb"-d(.) ?-f(\d+)", a) or re.fullmatch(rb"-c(\d+)-(\d+)()", a)
        if not m:
            raise HarnessError(f'simulated cut {argv}')
        for ln in stdin.splitlines():
            if a.startswith(b'-c'):
                out += ln[int(m.group(1)) - 1:int(m.group(2))] + b'\n'
            else:
                w = ln.split(m.group(1))
                i = int(m.group(2)) - 1
                out += (w[i] if i < len(w) else b'') + b'\n'
        return 0

    def do_tr(self, argv, stdin, out, err):
        if argv[1:] in ([b'A-Z', b'a-z'], [b'[:upper:]', b'[:lower:]']):
            out += stdin.lower()
            return 0
        raise HarnessError(f'simulated tr {argv}')

    def do_cat(self, argv, stdin, out, err):
        return self.readers(b'cat', argv, stdin, out, err, lambda d: d, False)

    def do_head(self, argv, stdin, out, err):
        return self.slices(b'head', argv, stdin, out, err)

    def do_tail(self, argv, stdin, out, err):
        return self.slices(b'tail', argv, stdin, out, err)

    def slices(self, tool, argv, stdin, out, err):
        a = list(argv[1:])
        unit, n = b'n', b'10'
        rest = []
        while a:
            x = a.pop(0)
            m = re.fullmatch(rb'-([cn])([+-]?\d+)?', x)
            if m:
                unit, n = m.group(1), m.group(2) or (a.pop(0) if a else b'')
            elif re.fullmatch(rb'-\d+', x):
                n = x[1:]
            else:
                rest.append(x)
        if not re.fullmatch(rb'[+-]?\d+', n):
            raise HarnessError(f'simulated {argv}')

        def cut(d):
            items = list(d) if unit == b'c' else d.splitlines(keepends=True)
            k = int(n)
            if tool == b'head':
                items = items[:k]
            elif n.startswith(b'+'):
                items = items[max(0, k - 1):]
            else:
                items = items[-abs(k):] if k else []
            return bytes(items) if unit == b'c' else b''.join(items)
        return self.readers(tool, [tool] + rest, stdin, out, err, cut, False)

    def readers(self, tool, argv, stdin, out, err, f, quote):
        names = [a for a in argv[1:] if a != b'--']
        if argv[1:2] != [b'--'] and any(a.startswith(b'-') and a != b'-' for a in names):
            bad = next(a for a in names if a.startswith(b'-') and a != b'-')
            err += tool + b": invalid option -- '" + bad[1:2] + b"'\n"
            return 1
        if not names:
            out += f(stdin)
            return 0
        rc = 0
        for a in names:
            if a == b'-':
                out += f(stdin)
                continue
            n = self.r.find(a, self.cwd)
            msg = n if isinstance(n, str) else 'Is a directory' if n.kind == 'd' else \
                None if self.r.may(n, 4) else 'Permission denied'
            if msg:
                self.say(err, tool, a, msg, quote)
                rc = 1
                continue
            out += f(n.data)
        return rc

    def do_sum(self, name, argv, stdin, out, err):
        algo = {'b2': 'blake2b'}.get(name[:-3], name[:-3])
        tool = name.encode()
        args = argv[1:]
        names = [a for a in args if a != b'--']
        if args[:1] != [b'--'] and any(a.startswith(b'-') and a != b'-' for a in names):
            if any(a in (b'-b', b'--binary', b'-t') for a in names):
                names = [a for a in names if a not in (b'-b', b'--binary', b'-t')]
            else:
                err += tool + b": unrecognized option '" + names[0] + b"'\n"
                return 1
        if not names:
            out += hashlib.new(algo, stdin).hexdigest().encode() + b'  -\n'
            return 0
        rc = 0
        for a in names:
            if a == b'-':
                out += hashlib.new(algo, stdin).hexdigest().encode() + b'  -\n'
                continue
            n = self.r.find(a, self.cwd)
            msg = n if isinstance(n, str) else 'Is a directory' if n.kind == 'd' else \
                None if self.r.may(n, 4) else 'Permission denied'
            if msg:
                self.say(err, tool, a, msg, any(c in a for c in b' \'"\\$`'))
                rc = 1
                continue
            esc = a.replace(b'\\', b'\\\\').replace(b'\n', b'\\n')
            out += (b'\\' if esc != a else b'') + hashlib.new(algo, n.data).hexdigest().encode() + b'  ' + esc + b'\n'
        return rc

    def do_cd(self, argv, stdin, out, err):
        a = [x for x in argv[1:] if x != b'--']
        to = a[0] if a else self.env['HOME'].encode()
        if len(a) > 1:
            err += b'bash: cd: too many arguments\n'
            return 1
        shown = to
        if to == b'-':
            to = self.env['OLDPWD'].encode()
        n = self.r.find(to, self.cwd)
        msg = n if isinstance(n, str) else None if n.kind == 'd' else 'Not a directory'
        if to == b'':
            return 0
        if msg is None and not self.r.may(n, 1):
            msg = 'Permission denied'
        if msg:
            err += b'bash: cd: ' + shown + b': ' + msg.encode() + b'\n'
            return 1
        self.env['OLDPWD'] = self.cwd
        p = to.decode('utf-8', 'surrogateescape')
        import posixpath
        self.cwd = posixpath.normpath(p if p.startswith('/') else self.cwd + '/' + p)
        return 0

    def do_test(self, argv, stdin, out, err):
        a = [x for x in argv[1:] if x != b']']
        if len(a) != 2 or a[0][:1] != b'-':
            raise HarnessError(f'simulated test {argv}')
        n = self.r.find(a[1], self.cwd, links=a[0] not in (b'-L', b'-h'))
        ok = not isinstance(n, str) and {b'-e': True, b'-f': n.kind == 'f', b'-d': n.kind == 'd',
                                         b'-L': n.kind == 'l', b'-r': self.r.may(n, 4), b'-w': self.r.may(n, 2),
                                         b'-x': self.r.may(n, 1), b'-s': bool(n.data)}[a[0]]
        return 0 if ok else 1

    def do_readlink(self, argv, stdin, out, err):
        n = self.r.find(argv[-1], self.cwd, links=False)
        if isinstance(n, str) or n.kind != 'l':
            return 1
        out += n.data + b'\n'
        return 0

    def do_stat(self, argv, stdin, out, err):
        a, names, fmt, nl, links, opts = list(argv[1:]), [], None, True, False, True
        while a:
            x = a.pop(0)
            if not opts or not x.startswith(b'-') or x == b'-':
                names.append(x)
            elif x == b'--':
                opts = False
            elif x in (b'-c', b'--format'):
                fmt = a.pop(0) if a else b''
            elif x.startswith(b'--format='):
                fmt = x[9:]
            elif x.startswith(b'--printf='):
                fmt, nl = x[9:].replace(b'\\n', b'\n').replace(b'\\t', b'\t').replace(b'\\0', b'\0'), False
            elif x in (b'-L', b'--dereference'):
                links = True
            elif x in (b'-Lc', b'-cL'):
                links, fmt = True, a.pop(0) if a else b''
            else:
                err += b"stat: invalid option -- '" + x[1:2] + b"'\nTry 'stat --help' for more information.\n"
                return 1
        if not names:
            err += b"stat: missing operand\nTry 'stat --help' for more information.\n"
            return 1
        if fmt is None:
            raise HarnessError('simulated stat without a format')
        rc = 0
        for x in names:
            n = self.r.find(x, self.cwd, links=links)
            if isinstance(n, str):
                err += b"stat: cannot statx " + shell_quote(x) + b': ' + n.encode() + b'\n'
                rc = 1
                continue
            out += re.sub(rb'%(.)', lambda m: self.stat_field(m.group(1).decode(), x, n), fmt)
            if nl:
                out += b'\n'
        return rc

    def stat_field(self, c, name, n):
        mode = S_IFMT[n.kind] | n.mode
        v = {'n': lambda: name, 'i': lambda: n.ino, 'o': lambda: 4096, 's': lambda: len(n.data) if n.kind != 'd' else 4096,
             'w': lambda: hr(n.birth) if n.birth else '-', 'W': lambda: n.birth // 10**9,
             'x': lambda: hr(n.atime), 'X': lambda: n.atime // 10**9, 'y': lambda: hr(n.mtime),
             'Y': lambda: n.mtime // 10**9, 'z': lambda: hr(n.ctime), 'Z': lambda: n.ctime // 10**9,
             'g': lambda: n.gid, 'u': lambda: n.uid, 'f': lambda: f'{mode:x}', 'a': lambda: f'{n.mode:o}',
             'h': lambda: 1, 'b': lambda: (len(n.data) + 511) // 512, 'B': lambda: 512, '%': lambda: '%',
             'F': lambda: KIND.get(n.kind) or ('regular file' if n.data else 'regular empty file')}.get(c)
        if v is None:
            raise HarnessError(f'simulated stat %{c}')
        v = v()
        return v if isinstance(v, bytes) else str(v).encode()
    do_gstat = do_stat

    def do_ls(self, argv, stdin, out, err):
        names = [x for x in argv[1:] if not x.startswith(b'-')] or [self.cwd.encode()]
        hidden = any(x.startswith(b'-') and (b'a' in x or b'A' in x) for x in argv[1:])
        for x in names:
            n = self.r.find(x, self.cwd)
            if isinstance(n, str):
                err += b'ls: cannot access ' + shell_quote(x) + b': ' + n.encode() + b'\n'
                return 2
            for e in sorted(n.entries) if n.kind == 'd' else [x]:
                if hidden or not e.startswith(b'.'):
                    out += e + b'\n'
        return 0


setattr(Shell, 'do__', Shell.do_test)      # [


def shell_quote(x):
    """how GNU tools show a name in a message"""
    if re.search(rb"[^ !-~\x80-\xff]", x):
        return b"''$'" + x.replace(b'\n', b"\\n").replace(b'\t', b'\\t') + b"'"
    if b"'" in x:
        return b'"' + x + b'"'
    return b"'" + x + b"'"


# -- the two ways in ------------------------------------------------------------------

class Session:
    """An interactive shell behind a terminal, as pexpect.pxssh shows it."""
    PROMPT = r'\[PEXPECT\][\$\#] '

    def __init__(self, k, remote, winch='ok'):
        self.k, self.remote, self.winch = k, remote, winch
        self.cols = 80
        self.pending = []          # outputs, each ended by a prompt, in the order of their commands
        self.before = b''
        self.after = b''
        self.timeout = 30
        self.closed = False
        self.sh = Shell(remote, True)

    def login(self, *a, **kw):
        self.host = a[0] if a else None
        self.k.net('ssh_login')
        return True

    def setwinsize(self, rows, cols):
        self.rows, self.cols = rows, cols
        if self.winch != 'none':
            self.pending.append(b'\r\x1b[K\r')       # readline shows the prompt again

    def echo(self, line):
        room = self.cols - len(PROMPT)
        if len(line) < room:
            return line + b'\r\n'
        out = bytearray(line[:room] + b'\r\n\r')
        line = line[room:]
        while len(line) >= self.cols:
            out += line[:self.cols] + b'\r\n\r'
            line = line[self.cols:]
        return bytes(out + line + b'\r\n')

    def sendline(self, s=''):
        if self.closed:
            raise OSError(5, 'Input/output error')
        raw = s.encode('utf-8', 'surrogateescape') if isinstance(s, str) else s
        self.k.net('ssh_send')
        n = len(raw) + 1
        for typed in (raw + b'\n').split(b'\n')[:-1]:
            # what readline makes of control characters
            line = re.sub(rb'[\x00-\x1f\x7f]', b'', typed)
            out, _, _ = self.sh.run(line)
            self.pending.append(self.echo(line) + out.replace(b'\n', b'\r\n'))
        return n

    def prompt(self, timeout=-1):
        if self.closed:
            raise OSError(5, 'Input/output error')
        f = self.k.net('ssh_prompt')
        if self.winch == 'late':       # (only the first time)
            self.winch = 'ok'
            self.before = b''
            return False
        kind = f['kind'] if f is not None else None
        if kind == 'eof':
            self.k.fire('ssh_eof')
            import pexpect
            self.before = b''
            self.closed = True
            raise pexpect.exceptions.EOF('simulated: connection closed')
        if kind == 'late' or not self.pending:
            if kind == 'late':
                self.k.fire('ssh_late')
            self.k.now += 30 * 10**9
            b = self.pending[0] if self.pending else b''
            self.before = b[:f.get('n', 0) * len(b) // 100] if f is not None else b
            return False
        self.before = self.pending.pop(0)
        self.after = PROMPT
        return True

    def sendeof(self):
        pass

    def close(self, *a, **kw):
        self.closed = True

    def logout(self):
        self.closed = True

    def __getattr__(self, name):
        raise HarnessError(f'simulated session has no {name}')


class Pipe(io.RawIOBase):
    def __init__(self, k, data, end):
        self.k, self.left, self.end = k, data, end
        self.dead = False

    def readable(self):
        return True

    def take(self, n):
        if self.dead or not self.left:
            return b''
        f = self.k.net('ssh_data')
        if f is not None and f['kind'] == 'cut':
            self.k.fire('ssh_cut')
            self.dead = True
            self.end(255)
            return b''
        c, self.left = self.left[:n], self.left[n:]
        return c

    def readinto(self, b):
        c = self.take(len(b))
        b[:len(c)] = c
        return len(c)

    def read(self, n=-1):
        if n is None or n < 0:
            out = bytearray()
            while True:
                c = self.take(4096)
                if not c:
                    return bytes(out)
                out += c
        return self.take(n)

    def readall(self):
        return self.read(-1)


class Child:
    """`ssh host command` as subprocess.Popen shows it."""
    pid = 31337
    stdin = None

    def __init__(self, k, remote, args, stdout=None, stderr=None, broken=0, **kw):
        self.args, self.rc = args, None
        k.net('ssh_spawn')
        if list(args[:-1]) != ['ssh', remote.host]:
            raise HarnessError(f'simulated Popen({args!r})')
        out, err, self._rc = Shell(remote, False).run(args[-1].encode('utf-8', 'surrogateescape')
                                                      if isinstance(args[-1], str) else args[-1])
        self.stdout = Pipe(k, out, self._dead) if stdout is not None else None
        self.stderr = Pipe(k, err, self._dead) if stderr is not None and stderr != -2 else None

    def _dead(self, rc):
        self._rc = rc

    @property
    def returncode(self):
        return self.rc

    def communicate(self, input=None, timeout=None):
        o = self.stdout.read() if self.stdout is not None else None
        e = self.stderr.read() if self.stderr is not None else None
        self.rc = self._rc
        return o, e

    def wait(self, timeout=None):
        self.rc = self._rc
        return self.rc

    def poll(self):
        self.rc = self._rc
        return self.rc

    def kill(self):
        self.rc = self._rc = -9

    terminate = kill

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()
