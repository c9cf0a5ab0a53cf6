"""Integer expressions and checked arithmetic against exact integers and a reference parser."""
import ctypes as C

import pointless  # noqa: F401

import capi
from capi import u8, u32, u64
from harness import expect, short

RULE = 'an expression of at least three tokens that was accepted and evaluated (or failed in evaluation), or one that was refused after its second token; distinct by its text'
LEVEL = 'exploration'
CONF = {'budget': 20}
CONF_THOROUGH = {'budget': 240}
ASSUMPTIONS = ['evaluating a variable is documented as not supported yet and is an error', 'more than 30 digits may be refused whatever the value',
               'white space after the last of 512 tokens may be refused', 'a context is evaluated only after a successful compilation']

U64 = 2**64 - 1
compile_ = capi.fn('intop_eval_compile', C.c_int, C.c_char_p, C.c_void_p, capi.ERR)
eval_ = capi.fn('intop_eval_eval', C.c_int, C.c_void_p, capi.P(u64), capi.ERR)

ERR, FREE = 'error', 'unspecified'


class Bad(Exception):
    pass


def tokens(s):
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if c in ' \t':
            i += 1
        elif c in '+-*/()x':
            out.append(c)
            i += 1
        elif c in '0123456789':
            j = i
            while j < len(s) and s[j] in '0123456789':
                j += 1
            if int(s[i:j]) > U64:
                raise Bad('number')
            out.append((int(s[i:j]), j - i > 30))
            i = j
        else:
            raise Bad('character')
    return out


PREC = {'+': 1, '-': 1, '*': 2, '/': 2}


def parse(toks):
    """postfix order"""
    out, ops = [], []
    want = True     # an operand is expected
    for t in toks:
        if want:
            if t == '(':
                ops.append(t)
            elif t == 'x' or isinstance(t, tuple):
                out.append(t if t == 'x' else t[0])
                want = False
            else:
                raise Bad('operand expected')
        elif t == ')':
            while ops and ops[-1] != '(':
                out.append(ops.pop())
            if not ops:
                raise Bad('unmatched )')
            ops.pop()
        elif t in PREC:
            while ops and ops[-1] != '(' and PREC[ops[-1]] >= PREC[t]:
                out.append(ops.pop())
            ops.append(t)
            want = True
        else:
            raise Bad('operator expected')
    if want:
        raise Bad('unfinished')
    while ops:
        o = ops.pop()
        if o == '(':
            raise Bad('unmatched (')
        out.append(o)
    return out


def value(post):
    """the value, or ERR"""
    st = []
    for t in post:
        if t == 'x':
            return ERR
        if isinstance(t, int):
            st.append(t)
            continue
        b = st.pop()
        a = st.pop()
        if t == '/':
            if b == 0:
                return ERR
            r = a // b
        else:
            r = a + b if t == '+' else a - b if t == '-' else a * b
        if not 0 <= r <= U64:
            return ERR
        st.append(r)
    assert len(st) == 1
    return st[0]


def model(s):
    """(compiles, value): True/False/FREE, number/ERR"""
    try:
        toks = tokens(s)
        free = any(isinstance(t, tuple) and t[1] for t in toks)
        if len(toks) > 512:
            return False, ERR
        if len(toks) == 512 and s[-1:] in ' \t':
            free = True
        post = parse(toks)
    except Bad:
        return False, ERR
    return FREE if free else True, value(post)


class Context:
    def __init__(self, fill=0):
        self.b = (u8 * capi.SIZES['eval'])()
        C.memset(self.b, fill, len(self.b))

    def compile(self, s):
        err = C.c_char_p()
        r = compile_(s.encode('latin-1'), self.b, C.byref(err))
        expect(r in (0, 1) and (r == 1 or err.value), 'no error text', lambda: 'compiling %r' % s)
        return r

    def eval(self):
        err = C.c_char_p()
        v = u64(0xdeadbeef)
        r = eval_(self.b, C.byref(v), C.byref(err))
        expect(r in (0, 1) and (r == 1 or err.value), 'no error text', 'evaluating')
        return v.value if r else ERR


def check(ctx, s, c, times=1):
    ok, v = model(s)
    got = ctx.compile(s)
    if ok is not FREE:
        expect(bool(got) == ok, 'accepted a malformed expression' if got else 'refused a well-formed expression', lambda: short(s, 400))
    c.note('expression', s)
    for _ in range(times if got else 0):
        x = ctx.eval()
        expect(x == v, 'wrong value' if v is not ERR else 'not reported as an error', lambda: '%s gives %s instead of %s' % (short(s, 400), x, v))
    kind = 'refused' if not got else 'evaluated' if v is not ERR else 'variable' if 'x' in s else 'failed in evaluation'
    c.label(kind)
    if len(s) > 2 and (got or len(s) > 4):
        c.nontrivial(s, short(s, 150) + (' = %s' % v if got else ' refused'))


def number(d):
    k = d.int(6)
    if k == 0:
        v = d.int(4)
    elif k == 1:
        v = d.choice([U64, U64 - 1, 2**63, 2**63 - 1, 2**32, 2**32 - 1, 2**32 + 1, 2**31, 10**19, 0, 1])
    elif k == 2:
        v = d.rng_int(0, U64)
    elif k == 3:
        v = 2**d.int(64) + d.int(3) - 1
    else:
        v = d.int(1000)
    return v


def lit(d, v):
    s = str(v)
    if d.int(12) == 0:
        s = '0' * d.choice([1, 2, 5, 30 - len(s), 31 - len(s), 29 - len(s)]) + s
    return s


def sp(d):
    return d.choice(['', '', '', '', ' ', '\t', '  ']) if d.int(3) == 0 else ''


def fit(d, v, room):
    """a number that takes v close to a limit under some operation, and the operation"""
    o = d.choice('+-*/')
    e = d.choice([-1, 0, 0, 1])
    if o == '+':
        w = U64 - v + e
    elif o == '-':
        w = v + e
    elif o == '*':
        w = (U64 // v if v else 5) + e
    else:
        w = d.choice([0, 1, v, v + 1, v // 2])
    return o, min(max(w, 0), U64 + (d.int(20) == 0))


def expr(d, n, near):
    """(text, value or None) of a well-formed expression of about n operands; small precedence mistakes change its value"""
    if n <= 1:
        if d.int(60) == 0:
            return 'x', None
        v = number(d) if d.int(3) else d.int(12)
        return sp(d) + lit(d, v) + sp(d), v
    k = d.int(8)
    if k == 0:
        s, v = expr(d, n - 1, near)
        return '(' + sp(d) + s + ')' + sp(d), v
    m = 1 + d.int(n - 1)
    s, v = expr(d, m, near)
    if k <= 2 and v is not None and near:
        o, w = fit(d, v, n)
        return '(' + s + ')' + sp(d) + o + sp(d) + lit(d, w), None
    s2, v2 = expr(d, n - m, near)
    o = d.choice('+++---**//')
    s = s + o + s2
    r = None
    if v is not None and v2 is not None:
        ok, r = model(s)
        if r is ERR or ok is not True:
            r = None
    return s, r


ALPHABET = '0123456789+-*/()x \t'


def g_text(d):
    k = d.int(10)
    if k == 0:
        return ''.join(d.choice('12+-*/()x ') for _ in range(d.int(12)))
    if k == 1:
        n = d.choice([2, 10, 100, 170, 250, 254, 255, 256, 257, 300, 511, 600])
        m = n + d.choice([0, 0, 0, 1, -1])
        s = '(' * n + lit(d, number(d)) + ')' * m
        return s + d.choice(['', '', ' ', '+1', '\t '])
    if k == 2:
        # as long as possible
        n = d.choice([200, 255, 256, 256, 257, 300])
        s = '1'
        for _ in range(n - 1):
            s += d.choice('+-*/') if d.int(3) == 0 else '+'
            s += str(d.int(10))
        return s + d.choice(['', '', ' ', '\t', '+', ')', '+1', '2'])
    if k == 3:
        # right or left nesting
        n = d.choice([5, 60, 100, 127, 128, 129, 170, 171])
        s = '1'
        for _ in range(n):
            s = '(' + s + d.choice('+*') + '1)' if d.bool() else '1' + d.choice('+*') + '(' + s + ')'
        return s
    s = expr(d, 1 + d.size(12) if d.int(8) else 20 + d.int(80), True)[0]
    if k >= 8 and s:
        # one change
        i = d.int(len(s) + 1)
        e = d.int(4)
        ch = d.choice(ALPHABET) if d.int(6) else chr(1 + d.int(255))
        if e == 0:
            s = s[:i] + ch + s[i:]
        elif e == 1:
            s = s[:i] + s[i + 1:]
        elif e == 2:
            s = s[:i] + ch + s[i + 1:]
        else:
            j = d.int(len(s) + 1)
            s = s[:i] + s[j:]
    return s


# ---- checked arithmetic

class SZ(C.Structure):
    _fields_ = [('o', C.c_int), ('v', C.c_size_t)]


class I32(C.Structure):
    _fields_ = [('o', C.c_int), ('v', u32)]


class I64(C.Structure):
    _fields_ = [('o', C.c_int), ('v', u64)]


ARITH = {}
for _t, _s, _vt, _bits in (('sizet', SZ, C.c_size_t, 64), ('u32', I32, u32, 32), ('u64', I64, u64, 64)):
    ARITH[_t] = (_s, _bits, capi.fn('intop_%s_init' % _t, _s, _vt), {o: capi.fn('intop_%s_%s' % (_t, o), _s, _s, _s) for o in ('add', 'mult')})


def arith(d, c):
    t = d.choice(list(ARITH))
    S, bits, init, ops = ARITH[t]
    top = 2**bits - 1

    def num():
        v = number(d)
        return v & top if d.bool() else min(v, top)
    v = num()
    x = init(v)
    exact, over = v, False
    text = [t, v]
    for _ in range(1 + d.int(4)):
        o = d.choice(['add', 'mult'])
        k = d.int(3)
        if k == 0 or over:
            w = num()
        elif o == 'add':
            w = min(max(top - exact + d.int(3) - 1, 0), top)
        else:
            w = min(max((top // exact if exact else 1) + d.int(3) - 1, 0), top)
        y = init(w)
        expect(y.o == 0 and y.v == w, 'value lost', lambda: repr((t, w)))
        if d.int(12) == 0:
            y.o = 1
        before = (x.o, x.v, y.o, y.v)
        r = exact + w if o == 'add' else exact * w
        over = over or y.o == 1 or r > top
        x = ops[o](x, y) if d.bool() else ops[o](y, x)
        text += [o, w, bool(y.o)]
        expect(bool(x.o) == over, 'overflow reported wrongly', lambda: '%r: %r' % (text, before))
        if over:
            exact = 0
        else:
            expect(x.v == r, 'wrong result of checked arithmetic', lambda: '%r: %d instead of %d' % (text, x.v, r))
            exact = r
    c.label('checked arithmetic' + (', overflow' if over else ''))
    c.nontrivial(repr(text), lambda: repr(text))


def prop(d, c):
    if d.int(4) == 0:
        for _ in range(4):
            arith(d, c)
        return
    ctx = Context(d.choice([0, 0xff, 0xa5]))
    for _ in range(1 + d.int(3)):
        check(ctx, g_text(d), c, 1 + d.int(2))


# ---- all short expressions

ENUM = '12+-*/()0 '


def enum_count(tier):
    return sum(len(ENUM)**k for k in range(0, 5 if tier == 'quick' else 7))


_ctx = Context()


def enum_case(i, c):
    k = 0
    while i >= len(ENUM)**k:
        i -= len(ENUM)**k
        k += 1
    s = ''
    for _ in range(k):
        s += ENUM[i % len(ENUM)]
        i //= len(ENUM)
    check(_ctx, s, c)


def example_kept(c):
    ctx = Context()
    for s in ('1+', '(1', '1-2-3', '10-2-3', '100/5/2', '2*(3+4)*5', '18446744073709551615+0', '18446744073709551615+1', '18446744073709551616', '1/0', '0-1', 'x', '', ' ', '\t1 +\t2', '4294967296*4294967295', '4294967296*4294967296',
              '1' * 30, '0' * 29 + '1', '1 2', '()', '1()', '(1)(2)', '+1', '-1', '1+-1', '1//1', '7/2*2', '7*2/4', '1+2*3-4/2', '(1+2)*(3-1)'):
        check(ctx, s, c, 2)
