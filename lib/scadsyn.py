"""Reference lexer/parser of the SCAD syntax of doc/scadformat.md.

parse(data: bytes) -> AST list, or raises
  Reject(offset, what)  the text is outside the syntax; offset of the first
                        token that cannot continue any valid file
  Unknown(why)          the document does not decide (or allows what the
                        implementation is free to do)
AST item: ('f', mods frozenset, name, args, kids) / ('b', kids) / ('use', path)
arg: (key or None, value); value: ('id',s) ('int',i) ('flt',f) ('str',raw)
     ('arr',[..]) ('rng',a,inc|None,b)
"""
import re

ALPHA = b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
DIG = b'0123456789'
KEYS = ('include', 'use', 'module', 'function')
NUM_OK = re.compile(rb'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\Z')


class Reject(Exception):
    def __init__(self, off, what):
        Exception.__init__(self, '%s at %d' % (what, off))
        self.off = off
        self.what = what


class Unknown(Exception):
    pass


class Lex:
    def __init__(self, data):
        self.d = data
        self.p = 0

    def skip(self):
        d = self.d
        while True:
            c = d[self.p:self.p + 1]
            if c and c in b' \t\r\n':
                self.p += 1
            elif d.startswith(b'//', self.p):
                e = d.find(b'\n', self.p)
                self.p = len(d) if e < 0 else e
            elif d.startswith(b'/*', self.p):
                e = d.find(b'*/', self.p + 2)
                if e < 0:
                    return ('ERR', b'', self.p)
                self.p = e + 2
            else:
                return None

    def next(self):
        e = self.skip()
        if e:
            return e
        d, p = self.d, self.p
        if p >= len(d):
            return ('EOF', b'', p)
        c = d[p:p + 1]
        if c in b'$_' or c in ALPHA:
            q = p + 1
            while q < len(d) and (d[q:q+1] in ALPHA or d[q:q+1] in DIG or d[q:q+1] == b'_'):
                q += 1
            self.p = q
            return ('ID', d[p:q], p)
        if c in b'+-.' or c in DIG:
            m = re.compile(rb'[+-]?\d*(\.\d*)?([eE][+-]?\d*)?').match(d, p)
            self.p = m.end()
            t = m.group(0)
            k = 'FLT' if (b'.' in t or b'e' in t or b'E' in t) else 'INT'
            return (k, t, p)
        if c == b'"':
            q = p + 1
            while True:
                if q >= len(d):
                    return ('ERR', b'', p)
                if d[q] == 0:
                    raise Unknown('NUL in string')
                if d[q] == 0x22:
                    break
                if d[q] == 0x5c:
                    q += 1
                    if q >= len(d):
                        return ('ERR', b'', p)
                    if not 32 <= d[q] <= 126:
                        raise Unknown('odd escape')
                q += 1
            self.p = q + 1
            return ('STR', d[p + 1:q], p)
        if 32 < c[0] < 127:
            self.p = p + 1
            return (c.decode(), c, p)
        return ('ERR', c, p)

    def path(self):
        """self.p is behind '<'"""
        e = self.d.find(b'>', self.p)
        if e < 0:
            raise Reject(self.p - 1, 'unterminated path')
        r = self.d[self.p:e]
        if b'\0' in r:
            raise Unknown('NUL in path')
        self.p = e + 1
        return r


class Parser:
    def __init__(self, data):
        self.l = Lex(data)
        self.ext = set()
        self.depth = 0
        self.tokens = 0
        self.t = None
        self.adv()

    def adv(self):
        self.t = self.l.next()
        self.tokens += 1

    def bad(self, what):
        raise Reject(self.t[2], what)

    def want(self, k):
        if self.t[0] != k:
            self.bad('expected %s, found %s' % (k, self.t[0]))
        self.adv()

    def file(self):
        r = []
        while self.t[0] != 'EOF':
            if self.t[0] == 'ID' and self.t[1] == b'use':
                self.adv()
                if self.t[0] != '<':
                    self.bad('use without path')
                p = self.l.path()
                self.adv()
                r.append(('use', p))
                continue
            self.item(r)
        return r

    def item(self, out):
        if self.t[0] == ';':
            self.ext.add('empty statement')
            self.adv()
            return
        self.depth += 1
        if self.depth > 400:
            raise Unknown('nesting')
        mods = set()
        nm = 0
        while self.t[0] in ('*', '!', '#', '%'):
            mods.add(self.t[0])
            nm += 1
            self.adv()
        if nm > 1:
            self.ext.add('several modifiers')
        if self.t[0] == '{':
            if nm:
                self.ext.add('modifier before block')
                self.l_ambiguous = True
            kids = self.block()
            out.append(('b', kids) if not nm else ('f', frozenset(mods), '{', [], kids))
            self.depth -= 1
            return
        if self.t[0] != 'ID':
            self.bad('expected functor')
        name = self.t[1].decode()
        if name in KEYS:
            raise Unknown('keyword ' + name)
        self.adv()
        self.want('(')
        args = []
        if self.t[0] != ')':
            while True:
                args.append(self.arg())
                if self.t[0] != ',':
                    break
                self.adv()
                if self.t[0] == ')':
                    self.ext.add('trailing comma')
                    break
        self.want(')')
        if self.t[0] == ';':
            self.adv()
            kids = []
        elif self.t[0] == '{':
            kids = self.block()
        else:
            kids = []
            self.item(kids)
        out.append(('f', frozenset(mods), name, args, kids))
        self.depth -= 1

    def block(self):
        self.want('{')
        kids = []
        while self.t[0] != '}':
            self.item(kids)
        self.adv()
        return kids

    def arg(self):
        if self.t[0] == 'ID':
            n = self.t[1].decode()
            self.adv()
            if self.t[0] == '=':
                self.adv()
                return (n, self.value())
            return (None, ('id', n))
        return (None, self.value())

    def value(self):
        k, t, _ = self.t
        if k == 'ID':
            self.adv()
            return ('id', t.decode())
        if k in ('INT', 'FLT'):
            if not NUM_OK.match(t):
                self.ext.add('odd number')
            if k == 'INT':
                try:
                    v = ('int', int(t))
                except ValueError:
                    v = ('int', None)
                if v[1] is None or not -2**63 <= v[1] < 2**63:
                    self.ext.add('odd number')
            else:
                try:
                    v = ('flt', float(t))
                except ValueError:
                    v = ('flt', None)
                if v[1] in (None, float('inf'), float('-inf')):
                    self.ext.add('odd number')
            self.adv()
            return v
        if k == 'STR':
            self.adv()
            return ('str', t)
        if k == '[':
            self.depth += 1
            if self.depth > 400:
                raise Unknown('nesting')
            self.adv()
            if self.t[0] == ']':
                self.adv()
                self.depth -= 1
                return ('arr', [])
            a = self.value()
            if self.t[0] == ':':
                self.adv()
                b = self.value()
                inc = None
                if self.t[0] == ':':
                    self.adv()
                    inc, b = b, self.value()
                self.want(']')
                self.depth -= 1
                return ('rng', a, inc, b)
            v = [a]
            while self.t[0] == ',':
                self.adv()
                if self.t[0] == ']':
                    self.ext.add('trailing comma')
                    break
                v.append(self.value())
            self.want(']')
            self.depth -= 1
            return ('arr', v)
        self.bad('expected value')


def parse(data):
    """-> (AST, set of extensions used, number of tokens)"""
    p = Parser(data)
    try:
        r = p.file()
    except Reject as e:
        e.ext = p.ext
        e.tokens = p.tokens
        raise
    return r, p.ext, p.tokens


def norm(ast):
    """canonical form for comparisons (numbers may change spelling)"""
    def val(v):
        if v[0] in ('int', 'flt'):
            return ('num', v[1])
        if v[0] == 'arr':
            return ('arr', [val(x) for x in v[1]])
        if v[0] == 'rng':
            return ('rng', val(v[1]), v[2] and val(v[2]), val(v[3]))
        return v

    def item(i):
        if i[0] == 'f':
            return ('f', i[1], i[2], [(k, val(v)) for k, v in i[3]], [item(x) for x in i[4]])
        if i[0] == 'b':
            return ('b', [item(x) for x in i[1]])
        return i
    return [item(i) for i in ast]


def same(a, b):
    """equality of norm()ed trees; numbers to 1e-14 relative"""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) == 2 and len(b) == 2 and a[0] == 'num' and b[0] == 'num':
            return a[1] == b[1] or abs(a[1] - b[1]) <= 1e-14 * max(abs(a[1]), abs(b[1]))
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


# ----------------------------------------------------------------------
def com_text(r, line):
    s = ''
    for _ in range(r.choice([0, 1, 1, 3, 8])):
        s += r.choice(['a', ' ', '"', '/', '//', '/*', '*', ';', '{', ')', "'", '\\', '\t', 'cube(9);', 'ü', '€', '**', '<', '\r',
                       'include <nofile.scad>', 'use <x>', '\x01', '\x7f', '#', '\\"'])
        if not line and r.random() < .2:
            s += '\n'
    if line:
        return s.replace('\n', '')
    s = s.replace('*/', '* ')
    while '*/' in s:
        s = s.replace('*/', '* ')
    return s


def gap(r, style):
    """white space or comments"""
    if style == 'min':
        return ''
    if style == 'plain':
        return r.choice(['', ' ', ' ', '\n', '  ', '\t'])
    s = ''
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        k = r.random()
        if k < .5:
            s += r.choice([' ', '\n', '\t', '\r\n', '\r', '   ', '\n\n\n'])
        elif k < .7:
            s += '//' + com_text(r, True) + r.choice(['\n', '\r\n'])
        else:
            t = com_text(r, False)
            s += '/*' + t + ('*/' if r.random() < .7 else '**/')
    return s


def fnum(r, v):
    return repr(v)


def emit(ast, r, style, marks=None):
    """text of AST with random layout.  marks: list to which (name, offset)
    of each functor is appended (offset in the UTF-8 encoding)"""
    out = []
    size = [0]

    def put(s):
        out.append(s)
        size[0] += len(s.encode('utf8', 'surrogateescape'))

    def tok(s):
        put(gap(r, style))
        put(s)

    def val(v):
        if v[0] == 'id':
            tok(v[1])
        elif v[0] == 'int':
            tok(str(v[1]))
        elif v[0] == 'flt':
            s = repr(v[1])
            if '.' not in s and 'e' not in s:
                s += '.0'
            tok(s)
        elif v[0] == 'str':
            tok('"' + v[1].decode('utf8', 'surrogateescape') + '"')
        elif v[0] == 'arr':
            tok('[')
            for i, x in enumerate(v[1]):
                if i:
                    tok(',')
                val(x)
            tok(']')
        else:
            tok('[')
            val(v[1])
            tok(':')
            if v[2]:
                val(v[2])
                tok(':')
            val(v[3])
            tok(']')

    def kids(k):
        tok('{')
        for x in k:
            item(x)
        tok('}')

    def item(i):
        if i[0] == 'use':
            tok('use')
            tok('<' + i[1].decode('utf8', 'surrogateescape') + '>')
            return
        if i[0] == 'b':
            kids(i[1])
            return
        for m in sorted(i[1]):
            tok(m)
        put(gap(r, style))
        if marks is not None:
            marks.append((i[2], size[0]))
        put(i[2])
        tok('(')
        for j, (k, v) in enumerate(i[3]):
            if j:
                tok(',')
            if k:
                tok(k)
                tok('=')
            val(v)
        tok(')')
        ks = i[4]
        if not ks:
            if r.random() < .7:
                tok(';')
            else:
                kids([])
        elif len(ks) == 1 and ks[0][0] == 'f' and r.random() < .5:
            item(ks[0])
        else:
            kids(ks)

    for i in ast:
        item(i)
    put(gap(r, style))
    return ''.join(out)
