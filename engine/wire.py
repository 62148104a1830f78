"""Wire format of the fixed-size numbers: which bit of which stream byte each bit of the item comes from, and the reverse."""
import re
import machine
from core import *
from plain import rule, rec, FNS
from spec import mentions
from drivers import kind_is, own_kind


W = 64
NAME = re.compile(r'^fixnum::([UIF])(\d+)(be|le)?(De|En)coder$')
BUF = ('S', ('arg', 'buf'))


def pow2(c):
    return c > 0 and c & (c - 1) == 0


def combine(a, b):
    """bitwise sum of two values with disjoint bits"""
    out = []
    for x, y in zip(a, b):
        if x == 0:
            out.append(y)
        elif y == 0:
            out.append(x)
        else:
            return None
    return out


def shl(a, k):
    return ([0] * k + a)[:W]


def const_bits(c):
    return [(c >> i) & 1 for i in range(W)]


def bits(v, memo=None):
    """W provenance bits (0, 1, or (leaf, index)) of an integer expression in two's complement; None when not understood"""
    if v is None:
        return None
    if v.const is not None:
        return const_bits(v.c)
    out = const_bits(v.c)
    if v.c < 0:
        return None
    for i, c in v.t:
        if not pow2(c):
            return None
        b = sym_bits(i)
        if b is None:
            return None
        if len(v.t) > 1 or v.c:
            if NSym.lo[i] < 0:
                return None
        out = combine(out, shl(b, c.bit_length() - 1))
        if out is None:
            return None
    return out


def leaf_bits(i):
    lo, hi = NSym.lo[i], NSym.hi[i]
    t = NSym.term[i]
    if lo >= 0:
        n = hi.bit_length()
        return [(t, j) for j in range(n)] + [0] * (W - n)
    n = (-lo - 1).bit_length() + 1
    return [(t, min(j, n - 1)) for j in range(W)]


def bitop(op, a, b):
    out = []
    for x, y in zip(a, b):
        if op == 'BitAnd':
            r = 0 if 0 in (x, y) else y if x == 1 else x if y == 1 else x if x == y else None
        elif op == 'BitOr':
            r = 1 if 1 in (x, y) else y if x == 0 else x if y == 0 else x if x == y else None
        else:
            r = y if x == 0 else x if y == 0 else (x ^ y if isinstance(x, int) and isinstance(y, int) else 0 if x == y else None)
        if r is None:
            return None
        out.append(r)
    return out


def sym_bits(i):
    t = NSym.term[i]
    if not isinstance(t, tuple):
        return leaf_bits(i)
    k = t[0]

    def sub(x):
        return bits(x) if isinstance(x, Lin) else None
    if k == 'trunc':
        b = sub(t[3])
        if b is None:
            return None
        n = t[1]
        return b[:n] + [b[n - 1] if t[2] else 0] * (W - n)
    if k == 'sext':
        b = sub(t[2])
        n = 8 * t[1]
        return None if b is None else b[:n] + [b[n - 1]] * (W - n)
    if k == 'shr':
        b = sub(t[2])
        return None if b is None else b[t[1]:] + [0] * t[1]
    if k == 'sar':
        b = sub(t[2])
        return None if b is None else b[t[1]:] + [b[-1]] * t[1]
    if k == 'div' and pow2(t[1]):
        b = sub(t[2])
        n = t[1].bit_length() - 1
        return None if b is None else b[n:] + [0] * n
    if k == 'rem' and pow2(t[1]):
        b = sub(t[2])
        n = t[1].bit_length() - 1
        return None if b is None else b[:n] + [0] * (W - n)
    if k == 'mask':
        b = sub(t[2])
        return None if b is None else bitop('BitAnd', b, const_bits(t[1]))
    if k == 'byte':
        b = sub(t[2])
        return None if b is None else b[8 * t[1]:8 * t[1] + 8] + [0] * (W - 8)
    if k == 'op' and len(t) == 4 and t[1] in ('BitAnd', 'BitOr', 'BitXor'):
        a, b = sub(t[2]), sub(t[3])
        return None if a is None or b is None else bitop(t[1], a, b)
    if k == 'op' and len(t) == 4 and t[1] in ('Shl', 'ShlUnchecked') and isinstance(t[3], Lin) and t[3].const is not None:
        b = sub(t[2])
        if b is None:
            return None
        hi = NSym.hi[i]
        n = hi.bit_length() + (1 if NSym.lo[i] < 0 else 0)
        b = shl(b, t[3].c)
        return b[:n] + [b[n - 1] if NSym.lo[i] < 0 else 0] * (W - n)
    if k in ('wrap', 'op', 'mul', 'b2i', 'lp', 'phi', 'cmp'):
        return None
    return leaf_bits(i)


def types(o, suffix):
    for c in o.w.codecs.values():
        mm = NAME.match(c.adt or '')
        if mm and mm.group(4) == suffix:
            yield c, mm.group(1), int(mm.group(2)), mm.group(3) or 'be'


def start_state(o, m, c):
    """(state with a new codec at SELF)"""
    from families import inherent
    b = inherent(o.w, c.adt, 'new')
    r = ('S', ('self',))
    m.rty[r] = c.ty
    out = []
    for st, v, _ in o.run(m, b, None, []):
        st = st.copy()
        st.mem[r] = v
        out.append((st, r))
    return out


def position(kind, size, endian, k):
    """stream position of byte k (least significant first) of a number of `size` bytes"""
    return size - 1 - k if endian == 'be' else k


def taint_unknown(s, why):
    n = s.copy()
    n.taint = s.taint + (why,)
    return n


class Copies(machine.Monitor):
    """values put into the output buffer"""

    def on_copy(self, m, s, dst, src, site):
        if dst.root == BUF and not dst.path and src.len.const is not None:
            try:
                cont = m.read(s, src.root, src.path)
            except KeyError:
                return
            for i in range(src.len.c):
                s.event(('put', dst.start + K(i), m.elem(cont, src.start + K(i))))

    def on_store(self, m, s, root, path, val, site):
        if root == BUF and path and path[-1][0] == 'e':
            s.event(('put', path[-1][1], val))


def mach(o, mon=None):
    return o.w.machine(mon or machine.Monitor(), 12, 60000)


@rule('C19')
def wire_decode(o):
    each(o, 'De', decode_one)


def each(o, role, f):
    for t in types(o, role):
        try:
            f(o, *t)
        except GIVEUP as e:
            import traceback
            o.errors.append((t[0].name, repr(e), traceback.format_exc()[-400:]))


def decode_one(o, c, kind, n, en):
    if True:
        size = n // 8
        m = mach(o)
        for s, me in start_state(o, m, c):
            b = c.m['decode']
            buf = m.mk(b['locals'][2][0], ('arg', 'buf'))
            eos = m.mk(b['locals'][3][0], ('arg', 'eos'))
            m.read(s, BUF, ())
            cont = m.read(s, BUF, ())
            for st in assume(s, LT(K(size), buf.len)):
                for x, v in m.exec_body(b, [Ref(me), buf, eos], st):
                    ok = isinstance(v, Enum) and v.k == 0
                    rec(m, x, b, 'wire-length', AND(ok, EQ(v.f[0], K(size))) if ok else False, 'decoding %d bits gives %r' % (n, v))
                    if not ok:
                        continue
                    f = c.m['finish']
                    for y, r in m.exec_body(f, [Ref(me)], x):
                        o.paths += 1
                        good = isinstance(r, Enum) and r.k == 0
                        rec(m, y, f, 'wire-item', good, 'a complete number is refused')
                        if not good:
                            continue
                        check_item(o, m, y, f, c, kind, n, en, r.f[0], [m.elem(cont, K(i)) for i in range(size)])
        o.merge(m)


def check_item(o, m, s, b, c, kind, n, en, item, stream):
    size = n // 8
    want = []
    for k in range(size):
        e = bits(stream[position(kind, size, en, k)])
        if e is None:
            return rec(m, taint_unknown(s, 'stream byte'), b, 'wire-value', False, 'not understood')
        want += e[:8]
    if kind == 'F':
        t = item.term if isinstance(item, Opq) else None
        if isinstance(t, tuple) and t[0] in ('farith', 'fconst') and plain_path(s):
            return rec(m, s, b, 'wire-value', False, 'the item is not the number read, but %s' % (t[1] if t[0] == 'farith' else 'a constant',))
        if not (isinstance(t, tuple) and t[0] == 'fbits'):
            return rec(m, taint_unknown(s, 'float from %r' % (item,)), b, 'wire-value', False, 'not understood')
        got = []
        for x in t[1]:
            e = bits(x)
            if e is None:
                return rec(m, taint_unknown(s, 'float from %r' % (item,)), b, 'wire-value', False, 'not understood')
            got += e[:8]
        return rec(m, s, b, 'wire-value', got == want, 'the bytes of the number are taken in another order')
    got = bits(item) if isinstance(item, Lin) else None
    if got is None:
        return rec(m, taint_unknown(s, 'number %r' % (item,)), b, 'wire-value', False, 'not understood')
    want = want + [want[-1] if kind == 'I' else 0] * (W - len(want))
    bad = [j for j in range(W) if got[j] != want[j]]
    rec(m, s, b, 'wire-value', not bad, 'bit %s of the item is %s instead of %s' % (bad[0], got[bad[0]], want[bad[0]]) if bad else '')


def plain_path(s):
    """the path depends on at most one test of a float, and that does not fix its value: some number read takes it"""
    ts = [(t, v) for t, v in s.lits.items() if isinstance(t, tuple) and t[0] == 'fpred']
    if len(ts) > 1:
        return False
    for t, v in ts:
        if t[1] == 'Eq' and v and not all(isinstance(x, tuple) and (x[0] != 'fconst' or int(x[1]) == 0) for x in t[2]):
            return False
    return True


@rule('C19')
def wire_encode(o):
    each(o, 'En', encode_one)


def encode_one(o, c, kind, n, en):
    if True:
        size = n // 8
        m = mach(o, Copies())
        for s, me in start_state(o, m, c):
            b = c.m['start']
            item = m.mk(b['locals'][2][0], ('arg', 'item'))
            for x, v in m.exec_body(b, [Ref(me), item], s):
                o.paths += 1
                if not isinstance(v, Enum):
                    continue
                fits = True if kind == 'F' or not isinstance(item, Lin) else LE(item, K((1 << n) - 1)) if kind == 'U' else True
                rec(m, x, b, 'wire-range', fits if v.k == 0 else NOT(fits), 'a number that %s is %s' % (('does not fit', 'accepted') if v.k == 0 else ('fits', 'refused')))
                if v.k:
                    k = own_kind(x)
                    if k is not None:
                        rec(m, x, b, 'wire-range', kind_is(o, m, k, 'InvalidInput'), 'a number that does not fit is reported as %r' % (k,))
                    continue
                e = c.m['encode']
                buf = m.mk(e['locals'][2][0], ('arg', 'buf'))
                eos = m.mk(e['locals'][3][0], ('arg', 'eos'))
                m.read(x, BUF, ())
                for y in assume(x, LT(K(size), buf.len)):
                    y = y.copy()
                    y.ev = None
                    for z, r in m.exec_body(e, [Ref(me), buf, eos], y):
                        ok = isinstance(r, Enum) and r.k == 0
                        rec(m, z, e, 'wire-length', AND(ok, EQ(r.f[0], K(size))) if ok else False, 'encoding %d bits gives %r' % (n, r))
                        if ok:
                            check_bytes(o, m, z, e, kind, n, en, item)
        o.merge(m)


def check_bytes(o, m, s, b, kind, n, en, item):
    size = n // 8
    put = {}
    for e in s.events():
        if e[0] == 'put':
            if e[1].const is None:
                return rec(m, taint_unknown(s, 'store at %r' % (e[1],)), b, 'wire-value', False, 'not understood')
            put[e[1].c] = e[2]
    full = bits(item) if isinstance(item, Lin) else None
    for k in range(size):
        p = position(kind, size, en, k)
        v = put.get(p)
        if v is None:
            return rec(m, taint_unknown(s, 'no store to byte %d' % p), b, 'wire-value', False, 'not understood')
        got = bits(v) if isinstance(v, Lin) else None
        if got is None:
            return rec(m, taint_unknown(s, 'byte %r' % (v,)), b, 'wire-value', False, 'not understood')
        if kind == 'F':
            if not plain_path(s):
                s = taint_unknown(s, 'several tests of the number')
            want = [(('fbyte', k, item.term), j) for j in range(8)]
        else:
            want = full[8 * k:8 * k + 8]
        bad = [j for j in range(8) if got[j] != want[j]]
        rec(m, s, b, 'wire-value', not bad, 'bit %s of stream byte %d is %s instead of %s' % (bad[0], p, got[bad[0]], want[bad[0]]) if bad else '')
