"""LTL formulas as tuples: printing, parsing, and lasso semantics.

Independent of `tulip`.  Trees:

    ('var', name) ('num', text) ('str', text) ('bool', 'True'|'False')
    (op, a) (op, a, b) ('ite', a, b, c)

with canonical operators: ! X G F & | ^ -> <-> U W V
= != < <= > >= + - * / <<>>
"""
import re

UNARY = {'!': 12, 'X': 13, 'G': 6, 'F': 6}
BINARY = {
    '<->': 1, '->': 2, '^': 3, '|': 4, '&': 5,
    'U': 7, 'W': 7, 'V': 7, '=': 8, '!=': 8,
    '<': 9, '<=': 9, '>': 9, '>=': 9,
    '+': 10, '-': 10, '*': 11, '/': 11}
POSTFIX = 14
ATOM = 20

ALIAS = {
    '!': ['!'], 'X': ['X ', 'next '], 'G': ['G ', '[]'],
    'F': ['F ', '<>'], '&': ['&', '&&', '/\\'],
    '|': ['|', '||', '\\/'], '^': ['^'], '->': ['->'],
    '<->': ['<->'], 'U': ['U'], 'W': ['W'], 'V': ['V'],
    '=': ['='], '!=': ['!='], '<': ['<'], '<=': ['<='],
    '>': ['>'], '>=': ['>='], '+': ['+'], '-': ['-'], '*': ['*'],
    '/': ['/']}
WORDS = {
    'X': ['next'], 'G': ['always'], 'F': ['eventually'],
    'U': ['until', 'stronguntil'], 'W': ['weakuntil', 'unless'],
    'V': ['release'], '->': ['implies'], '<->': ['equivalent'],
    '!': ['not'], '&': ['and'], '|': ['or']}


def prec(t):
    if t[0] in ('var', 'num', 'str', 'bool', 'ite'):
        return ATOM
    if len(t) == 2:
        return UNARY[t[0]]
    return BINARY[t[0]]


class Printer:
    """Print with few parentheses, and random spellings."""

    def __init__(self, rng, words=False, extra=0.1, prime=0.4):
        self.rng = rng
        self.words = words
        self.extra = extra
        self.prime = prime

    def sp(self):
        r = self.rng.random()
        if r < 0.8:
            return ' '
        return self.rng.choice(['  ', '\t', '\n', ' \n '])

    def op(self, op):
        if self.words and op in WORDS and self.rng.random() < 0.7:
            w = self.rng.choice(WORDS[op])
            w = self.rng.choice([w, w, w.upper(), w.title()])
            if len(op) and op in UNARY:
                return w + ' '
            return w
        return self.rng.choice(ALIAS[op])

    def paren(self, s):
        return '(' + self.rng.choice(['', ' ']) + s + ')'

    def show(self, t, least=0):
        s = self._show(t, least)
        if self.rng.random() < self.extra:
            s = self.paren(s)
        return s

    def _show(self, t, least):
        k = t[0]
        if k in ('var', 'num'):
            return t[1]
        if k == 'bool':
            s = t[1]
            return self.rng.choice([s, s.upper(), s.lower()])
        if k == 'str':
            return f'"{t[1]}"'
        if k == 'ite':
            a, b, c = (self.show(x) for x in t[1:])
            return f'(ite {a}, {b}, {c})'
        p = prec(t)
        if len(t) == 2:
            a = t[1]
            if k == 'X' and self.rng.random() < self.prime:
                # postfix
                s = self.show(a, POSTFIX) + "'"
                return s if least <= POSTFIX else self.paren(s)
            s = self.op(k)
            arg = self.show(a, p)
            if s[-1] not in ' !~]>' or arg[0] not in '(':
                s = s + self.sp()
            s = s + arg
        else:
            a = self.show(t[1], p)
            b = self.show(t[2], p + 1)
            s = a + self.sp() + self.op(k) + self.sp() + b
        return s if p >= least else self.paren(s)


_TOKEN = re.compile(r'''
    \s* (?:
    (?P<name> [A-Za-z_][A-Za-z0-9._:]* )
  | (?P<num> \d+ )
  | (?P<op> <<>> | <-> | <=> | \[\] | <> | && | \|\| | /\\ | \\/
      | -> | => | != | /= | <= | =< | >= | == | [()!~&|^=<>+\-*/,"'] )
  )''', re.VERBOSE)

CANON = {
    '&&': '&', '/\\': '&', '||': '|', '\\/': '|', '=>': '->',
    '<=>': '<->', '/=': '!=', '=<': '<=', '~': '!', '[]': 'G',
    '<>': 'F', '==': '='}
RESERVED = {'next': 'X', 'X': 'X', 'G': 'G', 'F': 'F',
            'U': 'U', 'W': 'W', 'V': 'V', 'ite': 'ite'}


class ParseError(Exception):
    pass


def tokens(s, reserved=None):
    if reserved is None:
        reserved = RESERVED
    s = re.sub(r'\#[^\n]*', '', s)
    out = list()
    i = 0
    s = s.rstrip()
    while i < len(s):
        mt = _TOKEN.match(s, i)
        if not mt:
            raise ParseError(f'character {s[i:i + 5]!r}')
        i = mt.end()
        if mt.group('name'):
            w = mt.group('name')
            if w in reserved:
                out.append(('op', reserved[w]))
            elif w.lower() in ('true', 'false'):
                out.append(('bool', w.title()))
            else:
                out.append(('var', w))
        elif mt.group('num'):
            out.append(('num', mt.group('num')))
        else:
            w = mt.group('op')
            out.append(('op', CANON.get(w, w)))
    return out


class Parser:
    """Precedence-climbing parser."""

    def __init__(self, toks, unary=None, binary=None):
        self.toks = toks
        self.i = 0
        self.unary = UNARY if unary is None else unary
        self.binary = BINARY if binary is None else binary

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def take(self, *want):
        t = self.peek()
        if t is None or (want and t != want):
            raise ParseError(f'at {self.i}: {t}, expected {want}')
        self.i += 1
        return t

    def all(self):
        e = self.expr(0)
        if self.peek() is not None:
            raise ParseError(f'trailing {self.peek()}')
        return e

    def nud(self):
        t = self.take()
        k, v = t
        if k in ('var', 'num', 'bool'):
            return t
        if v == '(':
            if self.peek() == ('op', 'ite'):
                self.take()
                a = self.expr(0)
                self.take('op', ',')
                b = self.expr(0)
                self.take('op', ',')
                c = self.expr(0)
                self.take('op', ')')
                return ('ite', a, b, c)
            e = self.expr(0)
            self.take('op', ')')
            return e
        if v == '"':
            n = self.take()
            if n[0] != 'var':
                raise ParseError('string')
            self.take('op', '"')
            return ('str', n[1])
        if v == '-':
            n = self.take()
            if n[0] != 'num':
                raise ParseError('unary minus')
            return ('num', '-' + n[1])
        if v in self.unary:
            return (v, self.expr(self.unary[v]))
        raise ParseError(f'unexpected {t}')

    def expr(self, least):
        a = self.nud()
        while True:
            t = self.peek()
            if t is None or t[0] != 'op':
                if t is not None:
                    raise ParseError(f'juxtaposed {t}')
                return a
            v = t[1]
            if v == "'":
                if POSTFIX < least:
                    return a
                self.take()
                a = ('X', a)
                continue
            if v not in self.binary:
                if v in ')' or v == ',':
                    return a
                raise ParseError(f'unexpected {t}')
            p = self.binary[v]
            if p < least or (p == least and least in self.unary.values()):
                return a
            self.take()
            a = (v, a, self.expr(p + 1))


def parse(s, reserved=None):
    return Parser(tokens(s, reserved)).all()


def from_ast(u):
    """Tuple from a syntax tree of `tulip`."""
    if hasattr(u, 'operator'):
        return (u.operator, *(from_ast(x) for x in u.operands))
    return (u.type, u.value)


def rand_tree(rng, depth, temporal=True, arith=True, atoms=None,
              strings=True):
    """Random, not necessarily well-typed, formula."""
    if depth == 0 or rng.random() < 0.12:
        if atoms is not None:
            return atoms(rng)
        r = rng.random()
        if r < 0.6:
            return ('var', rng.choice(
                ['p', 'q', 'r0', 'Xp', 'Gone', 'x_1', 'y.z', 'w:v',
                 '_u', 'until_', 'Fail', 'truex', 'nextx', 'V2']))
        if r < 0.75:
            return ('num', rng.choice(['0', '1', '23', '-4', '-1']))
        if r < 0.87 and strings:
            return ('str', rng.choice(['a', 'home', 'B_2', 'c.d']))
        return ('bool', rng.choice(['True', 'False']))
    ops = ['!', '&', '|', '^', '->', '<->', '=', '!=',
           '<', '<=', '>', '>=', 'X']
    if temporal:
        ops += ['G', 'F', 'U', 'W', 'V', 'G', 'F', 'U']
    if arith:
        ops += ['+', '-', '*', '/']
    if rng.random() < 0.04:
        return ('ite', *(rand_tree(rng, depth - 1, temporal, arith, atoms,
                                   strings) for _ in range(3)))
    op = rng.choice(ops)
    n = 1 if op in UNARY else 2
    return (op, *(rand_tree(rng, depth - 1, temporal, arith, atoms, strings)
                  for _ in range(n)))


def size(t):
    if t[0] in ('var', 'num', 'str', 'bool'):
        return 1
    return 1 + sum(map(size, t[1:]))


# ---------------------------------------------------------------
# lasso semantics

class Lasso:
    """Word `stem . loop^omega`, of assignments."""

    def __init__(self, stem, loop):
        self.word = stem + loop
        self.n = len(self.word)
        self.back = len(stem)

    def succ(self, i):
        return i + 1 if i + 1 < self.n else self.back


def rand_lasso(rng, vrs, values, max_stem=3, max_loop=3):
    def letter():
        return {k: rng.choice(values(vrs[k])) for k in vrs}
    return Lasso(
        [letter() for _ in range(rng.randint(0, max_stem))],
        [letter() for _ in range(rng.randint(1, max_loop))])


def vals(t, w):
    """Values of `t` at the positions of lasso `w`."""
    k = t[0]
    rng = range(w.n)
    if k == 'var':
        return [w.word[i][t[1]] for i in rng]
    if k == 'num':
        return [int(t[1])] * w.n
    if k == 'str':
        return [t[1]] * w.n
    if k == 'bool':
        return [t[1] == 'True'] * w.n
    a = vals(t[1], w)
    if k == '!':
        return [not x for x in a]
    if k == 'X':
        return [a[w.succ(i)] for i in rng]
    if k == 'F':
        return _fix(w, [False] * w.n, lambda i, v: a[i] or v)
    if k == 'G':
        return _fix(w, [True] * w.n, lambda i, v: a[i] and v)
    if k == 'ite':
        b, c = vals(t[2], w), vals(t[3], w)
        return [b[i] if a[i] else c[i] for i in rng]
    b = vals(t[2], w)
    if k == '&':
        return [bool(x) and bool(y) for x, y in zip(a, b)]
    if k == '|':
        return [bool(x) or bool(y) for x, y in zip(a, b)]
    if k == '->':
        return [(not x) or bool(y) for x, y in zip(a, b)]
    if k == '^':
        return [bool(x) != bool(y) for x, y in zip(a, b)]
    if k == '<->':
        return [bool(x) == bool(y) for x, y in zip(a, b)]
    if k == '=':
        return [x == y for x, y in zip(a, b)]
    if k == '!=':
        return [x != y for x, y in zip(a, b)]
    if k == '<':
        return [x < y for x, y in zip(a, b)]
    if k == '<=':
        return [x <= y for x, y in zip(a, b)]
    if k == '>':
        return [x > y for x, y in zip(a, b)]
    if k == '>=':
        return [x >= y for x, y in zip(a, b)]
    if k == '+':
        return [x + y for x, y in zip(a, b)]
    if k == '-':
        return [x - y for x, y in zip(a, b)]
    if k == '*':
        return [x * y for x, y in zip(a, b)]
    if k == 'U':
        return _fix(w, [False] * w.n,
                    lambda i, v: b[i] or (a[i] and v))
    if k == 'W':
        return _fix(w, [True] * w.n,
                    lambda i, v: b[i] or (a[i] and v))
    if k == 'V':
        return _fix(w, [True] * w.n,
                    lambda i, v: b[i] and (a[i] or v))
    raise ValueError(t)


def _fix(w, start, f):
    v = list(start)
    while True:
        new = [bool(f(i, v[w.succ(i)])) for i in range(w.n)]
        if new == v:
            return v
        v = new


def holds(t, w):
    return bool(vals(t, w)[0])


def of_expr(e):
    """LTL tree of an expression of `rt.expr`."""
    k = e[0]
    if k in ('true', 'false'):
        return ('bool', k.title())

    def nx(name, p):
        return ('X', ('var', name)) if p else ('var', name)
    if k == 'var':
        return nx(e[1], e[2])
    if k == 'cmp':
        v = e[4]
        c = ('str', v) if isinstance(v, str) else ('num', str(v))
        return (e[1], nx(e[2], e[3]), c)
    if k == 'cmpv':
        return (e[1], nx(e[2], e[3]), nx(e[4], e[5]))
    op = {'not': '!', 'and': '&', 'or': '|', 'imp': '->',
          'iff': '<->', 'xor': '^'}[k]
    return (op, *(of_expr(x) for x in e[1:]))


def conj(ts):
    ts = list(ts)
    if not ts:
        return ('bool', 'True')
    out = ts[0]
    for t in ts[1:]:
        out = ('&', out, t)
    return out


def gr1(parts, sides=None):
    """`(assumption, guarantee)` of parts given as LTL trees."""
    def side(s):
        return conj(
            list(parts[s + '_init']) +
            [('G', t) for t in parts[s + '_safety']] +
            [('G', ('F', t)) for t in parts[s + '_prog']])
    return side('env'), side('sys')
