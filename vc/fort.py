"""The Fortran subset of magpie/src: parser and verification-condition generation.

A subroutine is executed on arbitrary arguments.  Conditionals are joined value by value.  A loop is
executed once, at an arbitrary iteration: every variable that the body assigns must be, at the start of
iteration k, a linear function of k (induction), the sum of what earlier iterations added (accumulation),
unset (assigned before use in every iteration), or, for an array, changed in each iteration in its own
range of cells only, the ranges of successive iterations being contiguous.  That form is found from the code
and obliged; a loop that is not of that form is out of reach.  Calls use the contract of the callee when there
is one and are executed otherwise.
Obligations: indices inside the extents, nothing read before it is set, denominators not zero, every
element of every intent(out) argument set, the preconditions of callees.
"""
import os
import re
from fractions import Fraction
import z3
from . import core as K
from . import npf
from .core import Sym, Unsupported, land, lor, lnot, implies, ite, cmp, add, sub, mul


# ------------------------------------------------------------------ parsing
class Routine(object):
    def __init__(self, name, args, where):
        self.name, self.args, self.where = name, args, where
        self.decl = {}          # name -> dict(ty, dims, intent, param)
        self.body = []


TOK = re.compile(r"""\s*(?:(?P<num>(?:\d+\.?\d*(?:[ed][+-]?\d+)?|\.\d+(?:[ed][+-]?\d+)?)(?:_\w+)?)(?![a-z])|(?P<dot>\.(?:and|or|not|eq|ne|lt|le|gt|ge|true|false|eqv|neqv)\.)
    |(?P<id>[a-z]\w*)|(?P<op>\*\*|==|/=|<=|>=|[-+*/(),<>=:]))""", re.X)


def tokens(s):
    out, i = [], 0
    s = s.strip()
    while i < len(s):
        # 1.and. and the like: a number must not swallow the dot of an operator
        m = re.compile(r"\s*(\d+)(?=\.(?:and|or|eq|ne|lt|le|gt|ge|eqv|neqv)\.)").match(s, i)
        if m:
            out.append(('num', m.group(1)))
            i = m.end()
            continue
        m = TOK.match(s, i)
        if not m:
            raise Unsupported('Fortran: %r' % s[i:i + 30])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
        while i < len(s) and s[i].isspace():
            i += 1
    return out


REL = {'==': '==', '.eq.': '==', '/=': '!=', '.ne.': '!=', '<': '<', '.lt.': '<', '<=': '<=', '.le.': '<=', '>': '>', '.gt.': '>', '>=': '>=', '.ge.': '>='}


class P(object):
    def __init__(self, s):
        self.t = tokens(s)
        self.i = 0

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def take(self, v=None):
        if self.i >= len(self.t) or v is not None and self.t[self.i][1] != v:
            raise Unsupported('Fortran: expected %s' % v)
        self.i += 1
        return self.t[self.i - 1]

    def done(self):
        return self.i >= len(self.t)

    def expr(self):
        x = self.conj()
        while self.peek() == '.or.':
            self.take()
            x = ('or', x, self.conj())
        return x

    def conj(self):
        x = self.neg()
        while self.peek() == '.and.':
            self.take()
            x = ('and', x, self.neg())
        return x

    def neg(self):
        if self.peek() == '.not.':
            self.take()
            return ('not', self.neg())
        x = self.arith()
        if self.peek() in REL:
            op = REL[self.take()[1]]
            return ('rel', op, x, self.arith())
        return x

    def arith(self):
        if self.peek() in ('+', '-'):
            op = self.take()[1]
            x = self.term()
            if op == '-':
                x = ('neg', x)
        else:
            x = self.term()
        while self.peek() in ('+', '-'):
            op = self.take()[1]
            x = ('bin', op, x, self.term())
        return x

    def term(self):
        x = self.power()
        while self.peek() in ('*', '/'):
            op = self.take()[1]
            x = ('bin', op, x, self.power())
        return x

    def power(self):
        x = self.atom()
        if self.peek() == '**':
            self.take()
            return ('bin', '**', x, self.power())
        return x

    def atom(self):
        k, v = self.take()
        if k == 'num':
            w = v.split('_')[0]
            if re.match(r'^\d+$', w):
                return ('num', int(w))
            return ('num', Fraction(w.replace('d', 'e')))
        if k == 'dot' and v in ('.true.', '.false.'):
            return ('num', v == '.true.')
        if v == '(':
            x = self.expr()
            self.take(')')
            return x
        if k == 'id':
            if self.peek() == '(':
                self.take()
                args = []
                while self.peek() != ')':
                    if self.i + 1 < len(self.t) and self.t[self.i][0] == 'id' and self.t[self.i + 1][1] == '=' and v in ('kind', 'real', 'int'):
                        self.take()
                        self.take()
                        self.expr()
                    else:
                        args.append(self.expr())
                    if self.peek() == ',':
                        self.take()
                self.take(')')
                return ('ref', v, args)
            return ('var', v)
        raise Unsupported('Fortran: %r' % (v,))


def parse_expr(s):
    p = P(s)
    x = p.expr()
    if not p.done():
        raise Unsupported('Fortran: %r' % s)
    return x


def split_top(s, sep=','):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch == '(':
            depth += 1
        elif ch == ')':
            depth -= 1
        if ch == sep and not depth:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    out.append(cur)
    return [x.strip() for x in out]


def lines_of(path, seen):
    """logical lines (file, line number, text) with includes expanded"""
    out = []
    cur, at = '', None
    with open(path, errors='replace') as f:
        raw = f.read().split('\n')
    for n, ln in enumerate(raw, 1):
        m = re.match(r"""^\s*include\s+["']([^"']+)["']""", ln, re.I)
        if m and not cur:
            p = os.path.join(os.path.dirname(path), m.group(1))
            if p not in seen:
                seen.add(p)
                out.extend(lines_of(p, seen))
            continue
        if '"' in ln or "'" in ln:
            c = ln.split('!')[0]
            if '"' in c or "'" in c:
                raise Unsupported('Fortran: a string (%s:%d)' % (os.path.basename(path), n))
        s = ln.split('!')[0].strip().lower()
        if not s:
            continue
        if s.startswith('&'):
            s = s[1:].strip()
        if at is None:
            at = n
        if s.endswith('&'):
            cur += s[:-1].strip() + ' '
            continue
        cur += s
        for part in split_top(cur, ';'):
            if part:
                out.append((os.path.basename(path), at, part))
        cur, at = '', None
    return out


def parse_file(path):
    ls = lines_of(path, set())
    subs = {}
    cur, stack = None, None
    for w, n, s in ls:
        where = '%s:%d' % (w, n)
        m = re.match(r'^subroutine\s+(\w+)\s*(?:\((.*)\))?$', s)
        if m:
            cur = Routine(m.group(1), [x for x in split_top(m.group(2) or '') if x], where)
            subs[cur.name] = cur
            stack = [cur.body]
            continue
        if re.match(r'^end\s*subroutine', s) or s == 'end' and cur is not None and len(stack) == 1:
            if len(stack) != 1:
                raise Unsupported('Fortran: block not closed (%s)' % where)
            cur = None
            continue
        if cur is None:
            raise Unsupported('Fortran: %r outside of a subroutine (%s)' % (s, where))
        if s.startswith('implicit'):
            continue
        m = re.match(r'^(integer|real|double\s*precision|logical)\b(.*)$', s)
        if m and not re.match(r'^\w+\s*(\([^=]*\))?\s*=[^=]', s):
            declare(cur, m.group(1), m.group(2), where)
            continue
        statement(cur, stack, s, where)
    return subs


def declare(r, ty, rest, where):
    if '::' in rest:
        attr, names = rest.split('::', 1)
    else:
        attr, names = '', rest
        if attr.startswith('('):
            raise Unsupported('Fortran: declaration (%s)' % where)
    intent, param, dim = None, False, None
    for a in split_top(attr.strip().lstrip(',')):
        a = a.strip()
        if a.startswith('('):
            a = a[a.index(')') + 1:].strip().lstrip(',').strip() if ')' in a else a
            if not a:
                continue
        m = re.match(r'^intent\s*\(\s*(\w+)\s*\)$', a)
        if m:
            intent = m.group(1)
        elif a == 'parameter':
            param = True
        elif a.startswith('dimension'):
            dim = [parse_expr(x) for x in split_top(a[a.index('(') + 1:a.rindex(')')])]
        elif a and not a.startswith('kind'):
            raise Unsupported('Fortran: attribute %r (%s)' % (a, where))
    t = {'integer': 'i', 'logical': 'b'}.get(ty, 'f')
    for nm in split_top(names):
        init = None
        if '=' in nm:
            nm, init = [x.strip() for x in nm.split('=', 1)]
            if not param:
                raise Unsupported('Fortran: saved variable %s (%s)' % (nm, where))
        m = re.match(r'^(\w+)\s*(?:\((.*)\))?$', nm)
        if not m:
            raise Unsupported('Fortran: declaration %r (%s)' % (nm, where))
        dims = [parse_expr(x) for x in split_top(m.group(2))] if m.group(2) else dim
        r.decl[m.group(1)] = dict(ty=t, dims=dims, intent=intent, param=param)


def statement(r, stack, s, where):
    blk = stack[-1]
    m = re.match(r'^do\s+(\w+)\s*=\s*(.*)$', s)
    if m:
        b = [parse_expr(x) for x in split_top(m.group(2))]
        node = ('do', where, m.group(1), b, [])
        blk.append(node)
        stack.append(node[4])
        return
    if re.match(r'^end\s*do$', s) or re.match(r'^end\s*if$', s):
        if len(stack) < 2:
            raise Unsupported('Fortran: end without a block (%s)' % where)
        stack.pop()
        return
    m = re.match(r'^if\s*\((.*)\)\s*then$', s)
    if m:
        node = ('if', where, [(parse_expr(m.group(1)), [])])
        blk.append(node)
        stack.append(node[2][0][1])
        return
    m = re.match(r'^else\s*if\s*\((.*)\)\s*then$', s)
    if m or s == 'else':
        stack.pop()
        node = stack[-1][-1]
        if node[0] != 'if':
            raise Unsupported('Fortran: else (%s)' % where)
        node[2].append((parse_expr(m.group(1)) if m else None, []))
        stack.append(node[2][-1][1])
        return
    m = re.match(r'^if\s*\(', s)
    if m:
        d, i = 0, s.index('(')
        for j in range(i, len(s)):
            d += (s[j] == '(') - (s[j] == ')')
            if d == 0:
                break
        inner = []
        blk.append(('if', where, [(parse_expr(s[i + 1:j]), inner)]))
        stack.append(inner)
        statement(r, stack, s[j + 1:].strip(), where)
        stack.pop()
        return
    m = re.match(r'^call\s+(\w+)\s*(?:\((.*)\))?$', s)
    if m:
        blk.append(('call', where, m.group(1), [parse_expr(x) for x in split_top(m.group(2) or '') if x]))
        return
    if s in ('continue',):
        return
    m = re.match(r'^(\w+)\s*(\(.*\))?\s*=(?!=)(.*)$', s)
    if m:
        p = P(m.group(1) + (m.group(2) or ''))
        blk.append(('set', where, p.atom(), parse_expr(m.group(3))))
        return
    raise Unsupported('Fortran: %r (%s)' % (s, where))


# ------------------------------------------------------------------ state
class Poison(object):
    def __repr__(self):
        return 'the value left by a loop'


POISON = Poison()


class Box(object):
    """a variable.  scalar: val = (value, set?); array: val = (at, set at)"""
    __slots__ = ('name', 'ty', 'dims', 'val', 'sub')

    def __init__(self, name, ty, dims, val):
        self.name, self.ty, self.dims, self.val, self.sub = name, ty, dims, val, None

    def __repr__(self):
        return self.name


def sort_of(ty):
    return {'f': K.R, 'i': K.I, 'b': K.B}[ty]


def sand(a, b):
    if a is True:
        return b
    if b is True:
        return a
    return land(a, b)


def mentions(v, ids):
    if isinstance(v, Sym):
        return K.mentions(v.t, ids)
    return False


def names_in(t):
    """ids of constants and names of functions in a term"""
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
    return out


def delta(end, s):
    """end - s, if end is s plus something (on every branch)"""
    if end.eq(s):
        return z3.RealVal(0) if s.sort() == K.R else z3.IntVal(0)
    if z3.is_app_of(end, z3.Z3_OP_ITE):
        a, b = delta(end.arg(1), s), delta(end.arg(2), s)
        return None if a is None or b is None else z3.If(end.arg(0), a, b)
    if z3.is_add(end):
        ch = end.children()
        hits = [x for x in ch if s.decl().name() in names_in(x)]
        if len(hits) != 1:
            return None
        d = delta(hits[0], s)
        if d is None:
            return None
        rest = [x for x in ch if not x.eq(hits[0])]
        if len(rest) != len(ch) - 1:
            return None
        r = rest[0]
        for x in rest[1:]:
            r = r + x
        dz = z3.simplify(d)
        return r if z3.is_rational_value(dz) and dz.as_fraction() == 0 or z3.is_int_value(dz) and dz.as_long() == 0 else r + d
    if z3.is_sub(end):
        ch = end.children()
        if any(s.decl().name() in names_in(x) for x in ch[1:]):
            return None
        d = delta(ch[0], s)
        if d is None:
            return None
        for x in ch[1:]:
            d = d - x
        return d
    return None


class Fort(object):
    def __init__(self, V, path):
        self.V = V
        self.path = path
        self.subs = parse_file(path)
        self.contracts = {}
        self.boxes = []
        self.wlog = None
        self.rlog = None
        self.depth = 0
        self.dry = 0
        self.calls = []
        self.iters = []

    # --- obligations
    def oblige(self, name, c):
        if self.dry:
            return
        self.V.ctx.oblige('%s (%s)' % (name, self.where), c, 'safety')

    # --- expressions
    def ev(self, e, env):
        k = e[0]
        if k == 'num':
            return e[1]
        if k == 'var':
            return self.read_scalar(self.box(e[1], env))
        if k == 'ref':
            return self.ref(e, env)
        if k == 'neg':
            v = self.ev(e[1], env)
            return K.neg(v)
        if k == 'bin':
            return self.binary(e[1], self.ev(e[2], env), self.ev(e[3], env))
        if k == 'rel':
            return cmp(e[1], self.ev(e[2], env), self.ev(e[3], env))
        if k == 'and':
            return land(self.ev(e[1], env), self.ev(e[2], env))
        if k == 'or':
            return lor(self.ev(e[1], env), self.ev(e[2], env))
        if k == 'not':
            return lnot(self.ev(e[1], env))
        raise Unsupported('Fortran: %s' % k)

    def binary(self, op, a, b):
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            self.oblige('denominator is not zero', cmp('!=', b, 0))
            if not K.isreal(a) and not K.isreal(b):
                if not (isinstance(b, int) and b > 0):
                    raise Unsupported('Fortran: integer division (%s)' % self.where)
                q = K.floordiv(a, b)
                return ite(cmp('>=', a, 0), q, K.neg(K.floordiv(K.neg(a), b)))
            r = K.div(K.toreal_s(a), b)
            return Sym(r.t) if isinstance(r, Sym) else r
        if op == '**':
            if isinstance(b, int) or isinstance(b, Fraction) and b.denominator == 1:
                return K.power(a, int(b))
            raise Unsupported('Fortran: power')
        raise Unsupported('Fortran: %s' % op)

    def ref(self, e, env):
        nm, args = e[1], e[2]
        b = env.get(nm)
        if b is not None:
            if b.dims is None or len(args) != len(b.dims):
                raise Unsupported('Fortran: reference %s (%s)' % (nm, self.where))
            i = self.ev(args[0], env)
            return self.read_cell(b, i)
        vs = [self.ev(a, env) for a in args]
        if nm in ('real', 'dble', 'float'):
            return K.toreal_s(vs[0])
        if nm == 'floor':
            return K.floor_int(vs[0])
        if nm == 'ceiling':
            return K.ceil_int(vs[0])
        if nm == 'int':
            return K.trunc_int(vs[0])
        if nm in ('nint', 'anint'):
            v = vs[0]
            r = ite(cmp('>=', v, 0), K.floor_int(add(v, Fraction(1, 2))), K.neg(K.floor_int(sub(Fraction(1, 2), v))))
            return r if nm == 'nint' else K.toreal_s(r)
        if nm == 'abs':
            return K.absv(vs[0])
        if nm in ('min', 'max'):
            r = vs[0]
            for v in vs[1:]:
                r = (K.minv if nm == 'min' else K.maxv)(r, v)
            return r
        if nm == 'mod' and isinstance(vs[1], int) and vs[1] > 0:
            return sub(vs[0], mul(vs[1], self.binary('/', vs[0], vs[1])))
        if nm == 'sqrt':
            return K.sqrt(vs[0])
        raise Unsupported('Fortran: %s (%s)' % (nm, self.where))

    def box(self, nm, env):
        if nm not in env:
            raise Unsupported('Fortran: %s is not declared (%s)' % (nm, self.where))
        return env[nm]

    def read_scalar(self, b):
        if b.dims is not None:
            raise Unsupported('Fortran: whole array %s (%s)' % (b.name, self.where))
        if b.val is POISON:
            raise Unsupported('Fortran: %s after a loop (%s)' % (b.name, self.where))
        v, d = b.val
        if d is not True:
            self.oblige('%s is set' % b.name, d)
            if v is None:
                v = Sym(z3.Const(K.CTX.name('unset'), sort_of(b.ty)))
        return v

    def read_cell(self, b, i):
        self.oblige('index of %s within bounds' % b.name, land(cmp('<=', 1, i), cmp('<=', i, b.dims[0])))
        if b.val is POISON:
            raise Unsupported('Fortran: %s after a loop (%s)' % (b.name, self.where))
        at, d = b.val
        s = d(i)
        if s is not True:
            self.oblige('element of %s is set' % b.name, s)
        if self.rlog is not None:
            self.rlog.append((b, i, list(K.CTX.path)))
        return at(i)

    def coerce(self, v, ty):
        if ty == 'f':
            return K.toreal_s(v)
        if ty == 'i':
            return K.trunc_int(v)
        return v

    # --- statements
    def block(self, body, env):
        for s in body:
            self.where = s[1]
            getattr(self, 'st_' + s[0])(s, env)

    def st_set(self, s, env):
        tg, e = s[2], s[3]
        v = self.ev(e, env)
        if tg[0] == 'var':
            b = self.box(tg[1], env)
            if b.dims is not None:
                v = self.coerce(v, b.ty)
                n = b.dims[0]
                if self.wlog is not None:
                    self.wlog.append((b, 'all', None, None))
                b.val = (lambda i: v, lambda i: True)
                return
            b.val = (self.coerce(v, b.ty), True)
            return
        b = self.box(tg[1], env)
        if b.dims is None or len(b.dims) != 1 or len(tg[2]) != 1:
            raise Unsupported('Fortran: assignment (%s)' % self.where)
        self.store(b, self.ev(tg[2][0], env), self.coerce(v, b.ty))

    def store(self, b, i, v):
        self.oblige('index of %s within bounds' % b.name, land(cmp('<=', 1, i), cmp('<=', i, b.dims[0])))
        if b.val is POISON:
            old = (None, None)
            z = Sym(z3.Const(K.CTX.name('lost'), sort_of(b.ty)))
            at0, d0 = (lambda j: z), (lambda j: False)
        else:
            at0, d0 = b.val
        if self.wlog is not None:
            self.wlog.append((b, 'range', i, i))

        def at(j):
            c = cmp('==', j, i)
            return v if c is True else ite(c, v, at0(j))

        def d(j):
            c = cmp('==', j, i)
            if c is True:
                return True
            x = d0(j)
            return True if x is True else lor(c, x)
        b.val = (at, d)

    def st_if(self, s, env):
        conds = []
        done = []
        c = K.CTX
        snap = [(b, b.val) for b in self.boxes]
        outs = []
        rest = []
        has_else = False
        for cond, body in s[2]:
            self.where = s[1]
            for b, v in snap:
                b.val = v
            path = list(rest)
            n = len(c.path)
            c.path.extend(K.tobool(x) for x in path)
            try:
                if cond is None:
                    g = True
                    has_else = True
                else:
                    g = self.ev(cond, env)
                c.path.append(K.tobool(g))
                self.block(body, env)
            finally:
                del c.path[n:]
            outs.append((land(*(path + [g])) if path or g is not True else True, dict((b, b.val) for b in self.boxes)))
            if g is not True:
                rest.append(lnot(g))
        if not has_else:
            outs.append((True, dict(snap)))
        # join
        for b in self.boxes:
            v = outs[-1][1].get(b)
            for g, o in reversed(outs[:-1]):
                v = self.join(b, g, o.get(b), v)
            b.val = v

    def join(self, b, g, x, y):
        if x is y or g is True:
            return x
        if g is False:
            return y
        if x is None or y is None:
            return POISON
        if x is POISON or y is POISON:
            return POISON
        if b.dims is None:
            (v, d), (w, e) = x, y
            if v is None and w is None:
                return y
            dd = d if d is e else ite(g, d, e)
            if v is None:
                return (w, dd)
            if w is None:
                return (v, dd)
            return (v if v is w else ite(g, v, w), dd)
        (a1, d1), (a2, d2) = x, y

        def at(i):
            p, q = a1(i), a2(i)
            return p if p is q else ite(g, p, q)

        def dd(i):
            p, q = d1(i), d2(i)
            return True if p is True and q is True else ite(g, p, q)
        return (at, dd)

    def modified(self, body, env, out):
        for s in body:
            if s[0] == 'set':
                out.add(self.box(s[2][1], env))
            elif s[0] == 'if':
                for _, b in s[2]:
                    self.modified(b, env, out)
            elif s[0] == 'do':
                out.add(self.box(s[2], env))
                self.modified(s[4], env, out)
            elif s[0] == 'call':
                r = self.subs.get(s[2])
                if r is None:
                    raise Unsupported('Fortran: %s is not in the file' % s[2])
                for a, d in zip(s[3], r.args):
                    if r.decl[d]['intent'] != 'in' and a[0] in ('var',):
                        out.add(self.box(a[1], env))
        return out

    def st_do(self, s, env):
        c = K.CTX
        where = s[1]
        bs = [self.ev(x, env) for x in s[3]]
        if len(bs) == 3 and bs[2] != 1 or len(bs) > 3:
            raise Unsupported('Fortran: step of a loop (%s)' % where)
        a, b = bs[0], bs[1]
        var = self.box(s[2], env)
        mods = self.modified(s[4], env, set())
        if var in mods:
            raise Unsupported('Fortran: loop variable assigned (%s)' % where)
        mods = sorted(mods, key=lambda x: x.name)
        before = dict((x, x.val) for x in self.boxes)
        k = z3.Const(c.name('it'), K.I)
        sk = Sym(k)
        rng = land(cmp('<=', a, sk), cmp('<=', sk, b))

        def go(start):
            for x in self.boxes:
                x.val = before[x]
            for x, v in start.items():
                x.val = v
            var.val = (sk, True)
            with npf.binding(k), c.under(rng):
                self.block(s[4], env)
            return dict((x, x.val) for x in self.boxes)

        def probe(start):
            """without a trace"""
            nf, nu, no = len(c.facts), len(c.universals), len(c.obls)
            w, r = self.wlog, self.rlog
            self.wlog, self.rlog = [], []
            self.dry += 1
            keep = self.calls
            self.calls = list(keep)
            try:
                end = go(start)
                return end, self.wlog, self.rlog
            finally:
                self.dry -= 1
                self.wlog, self.rlog = w, r
                self.calls = keep
                for f in c.facts[nf:]:
                    c.fact_ids.discard(f.get_id())
                del c.facts[nf:], c.obls[no:], c.universals[nu:]
                for n in list(c.univ_tag):
                    if n >= nu:
                        del c.univ_tag[n]
                for n in list(c.univ_origin):
                    if n >= nu:
                        del c.univ_origin[n]
                for n in list(c.pair_univ):
                    if n >= nu:
                        del c.pair_univ[n]
                for q, n in list(c.__dict__.get('inst_done', {}).items()):
                    if n > nf:
                        c.inst_done[q] = nf
                for q in list(c.inst_cache):
                    if q[0] >= nu:
                        del c.inst_cache[q]
                for x in self.boxes:
                    x.val = before[x]

        # --- scalars
        scal = [x for x in mods if x.dims is None]
        arrs = [x for x in mods if x.dims is not None]
        start, sym, ufs = {}, {}, {}
        for x in scal:
            sym[x] = z3.Const(c.name('at_' + x.name), sort_of(x.ty))
            start[x] = (Sym(sym[x]), True)
        for x in arrs:
            F = z3.Function(c.name('in_' + x.name), K.I, sort_of(x.ty))
            ufs[x] = F
            start[x] = ((lambda F: lambda i: Sym(F(K.lift(i))))(F), lambda i: True)
        loose = set(v.decl().name() for v in sym.values()) | set(F.name() for F in ufs.values())
        end, _, _ = probe(start)
        ind, acc = {}, []
        for x in scal:
            v = end[x]
            if v is POISON or v[1] is not True or not isinstance(v[0], Sym):
                continue
            nm = names_in(v[0].t)
            if not nm & loose:
                continue
            t = z3.simplify(v[0].t - sym[x]) if x.ty != 'b' else v[0].t
            if x.ty != 'b' and not names_in(t) & (loose | set([k.decl().name()])):
                ind[x] = K.mk(t)
                continue
            d = delta(v[0].t, sym[x]) if x.ty != 'b' else None
            if d is None:
                continue
            acc.append(x)
        # a sum may depend on variables that advance linearly, not on other sums
        v0 = {}
        for x in list(ind):
            if before[x] is POISON:
                raise Unsupported('Fortran: %s after a loop (%s)' % (x.name, where))
            v0[x] = before[x]
        steps = sub(sk, a)

        def begin():
            st = {}
            for x in scal:
                if x in ind:
                    w, d = v0[x]
                    if w is None:
                        w = Sym(z3.Const(c.name('unset'), sort_of(x.ty)))
                    st[x] = (add(w, mul(ind[x], steps)), d)
                elif x in acc:
                    st[x] = (Sym(sym[x]), before[x][1] if before[x] is not POISON else False)
                else:
                    st[x] = POISON
            return st
        start = begin()
        for x in arrs:
            F = ufs[x]
            start[x] = ((lambda F: lambda i: Sym(F(K.lift(i))))(F), lambda i: True)
        end, wl, rl = probe(start)
        kn = k.decl().name()
        cells, local, maps = {}, [], {}
        for x in arrs:
            ws = [w for w in wl if w[0] is x]
            if any(w[1] == 'all' for w in ws) or not ws:
                local.append(x)
                continue
            lo, hi = ws[0][2], ws[0][3]
            for w in ws[1:]:
                if not (same(w[2], lo) and same(w[3], hi)):
                    if same(w[2], w[3]) and any(True for _ in [0]) and self.inside(w, lo, hi):
                        continue
                    raise Unsupported('Fortran: writes to several ranges of %s in one iteration (%s)' % (x.name, where))
            free = lambda t: not isinstance(t, Sym) or not (names_in(t.t) & (loose - set([F.name() for F in ufs.values()])))
            if not free(lo) or not free(hi) or any(names_in(K.lift(t)) & loose for t in (lo, hi) if isinstance(t, Sym)):
                raise Unsupported('Fortran: range of %s is not a function of the iteration (%s)' % (x.name, where))
            dep = any(isinstance(t, Sym) and kn in names_in(t.t) for t in (lo, hi))
            for _, i, path in [q for q in rl if q[0] is x]:
                if not (same(i, lo) and same(lo, hi)):
                    from . import solve
                    if not solve.quick_unsat(c, path + [z3.Not(K.tobool(land(cmp('<=', lo, i), cmp('<=', i, hi))))]):
                        raise Unsupported('Fortran: %s is read outside the range of the iteration (%s)' % (x.name, where))
            if dep:
                maps[x] = (lo, hi)
            else:
                if not same(lo, hi):
                    raise Unsupported('Fortran: range of %s is the same in every iteration (%s)' % (x.name, where))
                cells[x] = lo
        # nothing may depend on the contents at the start of the iteration except through its own sum
        accsym = {}
        for x in acc:
            accsym[x] = sym[x]
        for x, i in cells.items():
            accsym[x] = ufs[x](K.lift(i))
        # --- the iteration itself
        start = begin()
        for x in arrs:
            if x in local:
                start[x] = POISON
            elif x in maps:
                if before[x] is POISON:
                    raise Unsupported('Fortran: %s after a loop (%s)' % (x.name, where))
                start[x] = before[x]
            else:
                if before[x] is POISON:
                    raise Unsupported('Fortran: %s after a loop (%s)' % (x.name, where))
                at0, d0 = before[x]
                start[x] = ((lambda x, at0: lambda i: Sym(accsym[x]) if same(i, cells[x]) else ite(cmp('==', i, cells[x]), Sym(accsym[x]), at0(i)))(x, at0), d0)
        w0, self.wlog = self.wlog, []
        r0, self.rlog = self.rlog, []
        end = go(start)
        wl2, self.wlog = self.wlog, w0
        rl2, self.rlog = self.rlog, r0
        if r0 is not None:
            r0.extend(rl2)
        self.where = where
        accn = set(v.decl().name() for v in accsym.values())
        terms = {}
        for x in accsym:
            if x in cells:
                v, d = end[x][0](cells[x]), True
            else:
                v, d = end[x]
            dl = delta(K.lift(v), accsym[x]) if isinstance(v, Sym) else None
            if dl is None or d is not True and x not in cells:
                raise Unsupported('Fortran: %s is not a sum (%s)' % (x.name, where))
            if names_in(dl) & (accn | loose):
                raise Unsupported('Fortran: the terms of %s depend on earlier iterations (%s)' % (x.name, where))
            terms[x] = dl
        some = cmp('<=', a, b)
        count = add(sub(b, a), 1)
        if isinstance(count, Sym) and c.proves(cmp('>=', count, 0)):
            last = add(b, 1)
        else:
            last, count = ite(some, add(b, 1), a), ite(some, count, 0)
        res = dict(before)
        res[var] = (last, True)
        for x in scal:
            if x in ind:
                w, d = v0[x]
                res[x] = (add(w, mul(ind[x], count)) if w is not None else None, d)
            elif x in acc:
                res[x] = (add(before[x][0], self.total(terms[x], k, a, b, x)), before[x][1])
            else:
                res[x] = POISON
        for x in arrs:
            if x in local:
                res[x] = POISON
                if w0 is not None:
                    w0.append((x, 'all', None, None))
            elif x in cells:
                res[x] = self.cell_sum(before[x], cells[x], terms[x], k, a, b, x)
                if w0 is not None:
                    w0.append((x, 'range', cells[x], cells[x]))
            else:
                lo, hi = maps[x]
                for v in (end[x],):
                    pass
                res[x] = self.mapped(x, before[x], end[x], lo, hi, k, a, b, rng, some, loose, where)
                if w0 is not None:
                    f = lambda t, j: K.subst_s(t, [(k, K.lift(j))])
                    w0.append((x, 'range', f(lo, a), f(hi, b)))
        for x in self.boxes:
            x.val = res[x]

    def inside(self, w, lo, hi):
        return False

    def total(self, t, k, a, b, x):
        tm = K.mk(t)
        return npf.sum_between(a, add(b, 1), lambda j: K.subst_s(tm, [(k, K.lift(j))]))

    def cell_sum(self, old, i0, t, k, a, b, x):
        at0, d0 = old
        new = add(at0(i0), self.total(t, k, a, b, x))
        return ((lambda i: new if same(i, i0) else ite(cmp('==', i, i0), new, at0(i))), d0)

    def mapped(self, x, old, end, lo, hi, k, a, b, rng, some, loose, where):
        c = K.CTX
        at0, d0 = old
        at1, d1 = end
        S = lambda t, j: K.subst_s(t, [(k, K.lift(j))]) if isinstance(t, Sym) else t
        shift = z3.simplify(K.lift(lo) - k)
        if same(lo, hi) and k.decl().name() not in names_in(shift):
            its = lambda i: sub(i, K.mk(shift))
        else:
            nxt = add(Sym(k), 1)
            with c.under(land(rng, cmp('<', Sym(k), b))):
                self.oblige('the ranges of successive iterations are contiguous', cmp('==', S(lo, nxt), add(hi, 1)))
            with c.under(rng):
                self.oblige('the range of an iteration', cmp('<=', lo, add(hi, 1)))
            bound = list(c.bound)
            memo = {}

            def its(i):
                key = K.lift(i).get_id()
                if key not in memo:
                    q = c.fresh('iter', K.I)
                    memo[key] = (q, i)
                    inr = land(some, cmp('<=', S(lo, a), i), cmp('<=', i, S(hi, b)))
                    c.fact(implies(inr, land(cmp('<=', a, q), cmp('<=', q, b), cmp('<=', S(lo, q), i), cmp('<=', i, S(hi, q)))))
                    # and it is the only one
                    once = lambda z: K.tobool(implies(land(cmp('<=', a, z), cmp('<=', z, b), cmp('<=', S(lo, z), i), cmp('<=', i, S(hi, z))), cmp('==', q, z)))
                    vs = list(c.bound)
                    z = z3.Const(c.name('z'), K.I)
                    guard = K.zand(*c.path) if c.path else z3.BoolVal(True)
                    body = z3.Implies(guard, once(Sym(z)))
                    path, c.path = c.path, []
                    try:
                        c.universal(len(vs) + 1, lambda ix: Sym(z3.substitute(body, *[(v, K.lift(x)) for v, x in zip(vs + [z], ix)])), 'iter',
                                    trig=[q.t.decl().name()] if vs else None)
                    finally:
                        c.path = path
                    self.iters.append((q, len(c.universals) - 1, vs))
                return memo[key][0]
            x.sub = its

        inside = lambda i: land(some, cmp('<=', S(lo, a), i), cmp('<=', i, S(hi, b)))

        def at(i):
            n = its(i)
            with npf.binding(k):
                v = at1(i)
            v = S(v, n) if isinstance(v, Sym) else v
            o = at0(i)
            return v if o is v else ite(inside(i), v, o)

        def d(i):
            n = its(i)
            with npf.binding(k):
                v = d1(i)
            v = S(v, n) if isinstance(v, Sym) else v
            o = d0(i)
            if o is True:
                return True if v is True else ite(inside(i), v, True)
            return ite(inside(i), v, o)
        return (at, d)

    def st_call(self, s, env):
        r = self.subs.get(s[2])
        if r is None:
            raise Unsupported('Fortran: %s is not in the file (%s)' % (s[2], s[1]))
        if len(r.args) != len(s[3]):
            self.oblige('number of arguments of %s' % r.name, False)
            raise Unsupported('Fortran: arguments of %s' % r.name)
        con = self.contracts.get(r.name)
        vals = {}
        outs = {}
        whole = {}
        used = set()
        for e, d in zip(s[3], r.args):
            dc = r.decl[d]
            if dc['dims'] is not None:
                if e[0] != 'var' or self.box(e[1], env).dims is None:
                    raise Unsupported('Fortran: array argument %s (%s)' % (d, s[1]))
                whole[d] = self.box(e[1], env)
                if whole[d].ty != dc['ty']:
                    self.oblige('type of %s' % d, False)
                if dc['intent'] != 'in' and whole[d] in used:
                    self.oblige('%s is not passed twice' % whole[d].name, False)
                used.add(whole[d])
            elif dc['intent'] == 'in':
                vals[d] = self.ev(e, env)
                if dc['ty'] == 'i' and K.isreal(vals[d]):
                    self.oblige('type of %s' % d, False)
                if dc['ty'] == 'f' and not K.isreal(vals[d]):
                    self.oblige('type of %s' % d, False)
            else:
                if e[0] != 'var':
                    raise Unsupported('Fortran: output argument %s (%s)' % (d, s[1]))
                outs[d] = self.box(e[1], env)
        # extents
        denv = {}
        for d in r.args:
            if d in vals:
                denv[d] = Box(d, r.decl[d]['ty'], None, (vals[d], True))
        dims = {}
        for d, bx in whole.items():
            n = self.ev(r.decl[d]['dims'][0], denv)
            if len(r.decl[d]['dims']) != 1:
                raise Unsupported('Fortran: extents of %s' % d)
            self.oblige('%s is large enough for %s' % (bx.name, r.name), cmp('>=', bx.dims[0], n))
            dims[d] = n
            if r.decl[d]['intent'] == 'in':
                if bx.val is POISON:
                    raise Unsupported('Fortran: %s after a loop (%s)' % (bx.name, s[1]))
                j = Sym(z3.Const(K.CTX.name('j'), K.I))
                with K.CTX.under(land(cmp('<=', 1, j), cmp('<=', j, n))):
                    q = bx.val[1](j)
                    if q is not True:
                        self.oblige('the elements of %s are set' % bx.name, q)
        if con is None:
            self.inline(r, vals, outs, whole, dims)
            return
        args = dict(vals)
        for d, bx in whole.items():
            args[d] = (dims[d], bx.val[0] if r.decl[d]['intent'] == 'in' else None)
        w = self.where
        res = con(self, args)
        self.where = w
        for d, bx in outs.items():
            bx.val = (res[d], True)
        for d, bx in whole.items():
            if r.decl[d]['intent'] == 'in':
                continue
            n = dims[d]
            at = res[d]
            if same(bx.dims[0], n):
                if self.wlog is not None:
                    self.wlog.append((bx, 'all', None, None))
                bx.val = (at, lambda i: True)
            else:
                raise Unsupported('Fortran: part of %s is set by %s' % (bx.name, r.name))

    def inline(self, r, vals, outs, whole, dims):
        if self.depth > 6:
            raise Unsupported('Fortran: recursion')
        env = self.locals_of(r, vals, outs, whole)
        self.depth += 1
        n = len(self.boxes)
        self.boxes.extend(b for b in env.values() if b not in self.boxes)
        self.calls.append(r.name)
        try:
            self.block(r.body, env)
        finally:
            self.depth -= 1
            del self.boxes[n:]

    def locals_of(self, r, vals, outs, whole):
        env = {}
        for d in r.args:
            if d not in r.decl:
                raise Unsupported('Fortran: argument %s is not declared' % d)
        for nm, dc in r.decl.items():
            if dc['param']:
                env[nm] = Box(nm, dc['ty'], None, (8, True))
            elif nm in vals:
                env[nm] = Box(nm, dc['ty'], None, (vals[nm], True))
        for nm, bx in list(outs.items()) + list(whole.items()):
            env[nm] = bx
        for nm, dc in r.decl.items():
            if nm in env:
                continue
            if dc['dims'] is None:
                env[nm] = Box(nm, dc['ty'], None, (None, False))
            else:
                if len(dc['dims']) != 1:
                    raise Unsupported('Fortran: rank of %s' % nm)
                n = self.ev(dc['dims'][0], env)
                z = z3.Function(K.CTX.name('junk_' + nm), K.I, sort_of(dc['ty']))
                env[nm] = Box(nm, dc['ty'], [n], ((lambda z: lambda i: Sym(z(K.lift(i))))(z), lambda i: False))
        return env

    # --- contracts
    def array_out(self, base, ty, facts):
        """a fresh array (also a function of the running iterations); facts(j, cells...) hold for every j"""
        c = K.CTX
        return c.fresh_fun(base, K.I, sort_of(ty))

    def forall_out(self, fns, facts):
        """facts(j) about fresh arrays, for every j and every iteration"""
        c = K.CTX
        bound = list(c.bound)
        guard = K.zand(*c.path) if c.path else z3.BoolVal(True)
        j = z3.Const(c.name('j'), K.I)
        body = z3.Implies(guard, K.tobool(facts(Sym(j))))
        names = [f(j).decl().name() for f in fns]
        vs = bound + [j]
        path, c.path = c.path, []
        try:
            c.universal(len(vs), lambda ix: Sym(z3.substitute(body, *[(v, K.lift(i)) for v, i in zip(vs, ix)])), 'out', trig=names)
        finally:
            c.path = path

    def iteration(self, got, *its):
        """got, with the iterations of the loops (the outermost first) in which the cell is set put in; lemma that it is these"""
        sb = []
        for n, z in enumerate(its):
            if n >= len(self.iters):
                break
            q, u, vs = self.iters[n]
            if len(vs) > n:
                break
            self.V.instance(u, *(list(its[n - len(vs):n]) + [z]))
            t = K.subst_s(q, [(v, K.lift(x)) for v, x in zip(vs, its[n - len(vs):n])]) if vs else q
            got = self.V.rewrite(got, t, z, 'iteration')
        return got

    # --- a subroutine on arbitrary arguments
    def verify(self, name, vals, arrays, post=None):
        """vals: scalar inputs; arrays: input arrays name -> function of the index"""
        r = self.subs.get(name)
        if r is None:
            raise Unsupported('Fortran: no subroutine %s' % name)
        V = self.V
        V.functions.add('%s:%s' % (os.path.basename(self.path), name))
        self.where = r.where
        whole, outs = {}, {}
        env0 = {}
        for d in r.args:
            dc = r.decl.get(d)
            if dc is None:
                raise Unsupported('Fortran: argument %s is not declared' % d)
            if dc['dims'] is None and dc['intent'] == 'in':
                if d not in vals:
                    raise Unsupported('Fortran: argument %s of %s is new' % (d, name))
                env0[d] = Box(d, dc['ty'], None, (vals[d], True))
        for d in r.args:
            dc = r.decl[d]
            if dc['dims'] is not None:
                n = self.ev(dc['dims'][0], env0)
                if dc['intent'] == 'in':
                    if d not in arrays:
                        raise Unsupported('Fortran: argument %s of %s is new' % (d, name))
                    whole[d] = Box(d, dc['ty'], [n], (arrays[d], lambda i: True))
                else:
                    z = z3.Function(K.CTX.name('junk_' + d), K.I, sort_of(dc['ty']))
                    whole[d] = Box(d, dc['ty'], [n], ((lambda z: lambda i: Sym(z(K.lift(i))))(z), lambda i: False))
            elif dc['intent'] != 'in':
                outs[d] = Box(d, dc['ty'], None, (None, False))
        self.boxes = list(whole.values()) + list(outs.values())
        pre, V.ctx.prefix = V.ctx.prefix, '%s: ' % name
        try:
            ins = dict((d, b.val) for d, b in whole.items() if r.decl[d]['intent'] == 'in')
            self.inline(r, dict((d, vals[d]) for d in env0), outs, whole, None)
            self.where = 'end of %s' % name
            for d, b in outs.items():
                if b.val is POISON:
                    raise Unsupported('Fortran: %s after a loop' % d)
                self.oblige('%s is set' % d, b.val[1])
            for d, b in whole.items():
                if d in ins:
                    self.oblige('%s is not modified' % d, b.val is ins[d])
                    continue
                if b.val is POISON:
                    raise Unsupported('Fortran: %s after a loop' % d)
                with V.ctx.under(True):
                    j = Sym(z3.Const(K.CTX.name('j'), K.I))
                    with V.ctx.under(land(cmp('<=', 1, j), cmp('<=', j, b.dims[0]))):
                        self.oblige('every element of %s is set' % d, b.val[1](j))
            ob = K.Obl(V.ctx.prefix + 'reached', list(V.ctx.path), z3.BoolVal(False), 'cover')
            V.ctx.obls.append(ob)
            self.iters = []
            if post is not None:
                post(dict([(d, b.val[0]) for d, b in outs.items()] + [(d, b.val[0]) for d, b in whole.items() if d not in ins]))
        finally:
            V.ctx.prefix = pre


def same(a, b):
    if a is b:
        return True
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return a == b
    x, y = K.lift(a), K.lift(b)
    if x.eq(y):
        return True
    if x.sort() != y.sort():
        return False
    d = z3.simplify(x - y, som=True)
    return z3.is_int_value(d) and d.as_long() == 0
