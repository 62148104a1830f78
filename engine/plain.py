"""Rules on functions that are not codecs: evaluated on every path, for all arguments."""
import machine
from core import *
from families import sat_eq, bc_sum, inherent, MAX
from spec import bc_var, bc_n, bc_finite


class Plain:
    """collects the obligations of one function or type"""

    def __init__(self, w, unroll=None):
        self.w = w
        self.P = w.P
        self.recs = {}
        self.errors = []
        self.paths = 0
        self.fns = set()
        self.unroll = unroll

    def machine(self, mon=None):
        m = self.w.machine(mon or machine.Monitor(), self.unroll, 60000)
        return m

    def merge(self, m):
        for k, r in m.recs.items():
            o = self.recs.get(k)
            if o is None:
                self.recs[k] = r
            else:
                o.proved += r.proved
                o.failed += r.failed
                o.undecided += r.undecided
        self.fns |= m.inlined

    def method(self, adt, name, trait=None):
        """body of a method of a local type (trait: last segment of the implemented trait)"""
        for f in self.P.fns:
            if f['name'] != name or f['pk'] == 'trait' or f['self'] is None:
                continue
            if (trait is None) != (not f['trait']):
                continue
            if trait and not f['trait'].split('<')[0].endswith(trait):
                continue
            t = self.P.ty(f['self'])
            if t['k'] == 'adt' and t['path'] == adt and f['key'] in self.P.bodies:
                return self.P.bodies[f['key']]
        return None

    def run(self, m, b, s=None, args=None):
        """[(state, value, args)]; arguments not given are symbolic; references point to fresh objects"""
        s = s or State()
        s.setg('fails', K(0))
        if args is None:
            args = self.args(m, b)
        out = []
        if self.unroll is not None:
            m.steps = 0
        for st, v in m.exec_body(b, args, s):
            self.paths += 1
            out.append((st, v, args))
        return out

    def args(self, m, b, first=()):
        a = list(first)
        for i in range(len(a), b['args']):
            a.append(m.mk(b['locals'][i + 1][0], ('arg', i)))
        return a

    def val(self, m, s, v):
        """value behind a reference"""
        while isinstance(v, Ref):
            v = m.read(s, v.root, v.path)
        return v


def bc_is(m, v, k, p=None):
    f = bc_var(m, v, k)
    if k == 0:
        q = bc_n(m, v)
        return False if q is None else AND(f, sat_eq(q, p))
    return f


def bc_cases(m, s, v):
    return [(k, y) for k in range(3) for y in assume(s, bc_var(m, v, k))]


BC = 'byte_count::ByteCount'
EOS = 'eos::Eos'
NAMES = ['Finite', 'Infinite', 'Unknown']
FNS = {}


def rule(prop):
    def d(f):
        FNS[f.__name__] = (prop, f)
        return f
    return d


def rec(m, s, b, rule, ok, msg):
    m.rec(s, 'R', rule, ok, msg=msg, site=b['path'])


def sum_table(o, name, dec):
    b = o.method(BC, name)
    m = o.machine()
    args = o.args(m, b)
    for st, k, p in bc_sum(m, State(), args, dec):
        for x, v, _ in o.run(m, b, st, args):
            rec(m, x, b, 'sum-table', bc_is(m, v, k, p), '%s of %s is %r' % (name, [NAMES[q] for a in args for q in x.vars.get(a.term, ())], v))
    o.merge(m)


@rule('C20')
def bc_add_dec(o):
    sum_table(o, 'add_for_decoding', True)


@rule('C20')
def bc_add_enc(o):
    sum_table(o, 'add_for_encoding', False)


@rule('C20')
def bc_tests(o):
    for name, k in (('is_finite', 0), ('is_infinite', 1), ('is_unknow', 2)):
        b = o.method(BC, name)
        m = o.machine()
        for x, v, a in o.run(m, b):
            f = m.as_bool(v)
            g = bc_var(m, o.val(m, x, a[0]), k)
            rec(m, x, b, 'variant-test', AND(IMP(f, g), IMP(g, f)), '%s() is %r' % (name, f))
        o.merge(m)


@rule('C20')
def bc_to_u64(o):
    b = o.method(BC, 'to_u64')
    m = o.machine()
    for x, v, a in o.run(m, b):
        s = o.val(m, x, a[0])
        for k, y in bc_cases(m, x, s):
            some = m.is_variant(v, 1, 2)
            ok = NOT(some) if k else False if (isinstance(v, Enum) and v.k == 0) else AND(some, EQ(m.proj(v, ('v', 1, 0)), bc_n(m, s)))
            rec(m, y, b, 'to-u64', ok, 'to_u64 of %s is %r' % (NAMES[k], v))
    o.merge(m)


@rule('C20')
def bc_default(o):
    b = o.method(BC, 'default', 'Default')
    m = o.machine()
    for x, v, a in o.run(m, b):
        rec(m, x, b, 'default', bc_var(m, v, 2), 'the default is %r' % (v,))
    o.merge(m)


def compare(o, adt, name, trait, f):
    b = o.method(adt, name, trait)
    m = o.machine()
    args = o.args(m, b)
    st0 = State()
    vals = [o.val(m, st0, a) for a in args]
    sts = [(st0, vals)]
    if adt == EOS:
        sts = [(y, [va, vb]) for x, va in o.w.eos_rem(m, st0, vals[0]) for y, vb in o.w.eos_rem(m, x, vals[1])]
    for st, (va, vb) in sts:
        for ka, y in bc_cases(m, st, va):
            for kb, z in bc_cases(m, y, vb):
                for x, v, _ in o.run(m, b, z, args):
                    f(o, m, x, b, v, ka, kb, va, vb)
    o.merge(m)


@rule('C20')
def bc_order(o):
    compare(o, BC, 'partial_cmp', 'PartialOrd', order)


@rule('C20')
def eos_order(o):
    compare(o, EOS, 'partial_cmp', 'PartialOrd', order)


@rule('C20')
def bc_eq(o):
    compare(o, BC, 'eq', 'PartialEq', equal)


@rule('C20')
def eos_eq(o):
    compare(o, EOS, 'eq', 'PartialEq', equal)


def equal(o, m, s, b, v, ka, kb, va, vb):
    same = ka == kb if ka or kb else EQ(bc_n(m, va), bc_n(m, vb))
    f = m.as_bool(v)
    rec(m, s, b, 'equal', AND(IMP(f, same), IMP(same, f)), 'comparing %s with %s for equality gives %r' % (NAMES[ka], NAMES[kb], v))


def order(o, m, s, b, v, ka, kb, va, vb):
    some = m.is_variant(v, 1, 2)

    def is_(i):
        if isinstance(v, Enum) and v.k == 0:
            return False
        return AND(some, m.is_variant(m.proj(v, ('v', 1, 0)), i, 3))
    if 2 in (ka, kb):
        ok = NOT(some)
    elif ka == 0 and kb == 0:
        x, y = bc_n(m, va), bc_n(m, vb)
        ok = OR(OR(AND(LT(x, y), is_(0)), AND(EQ(x, y), is_(1))), AND(LT(y, x), is_(2)))
    elif ka == 1 and kb == 1:
        ok = is_(1)
    else:
        ok = is_(2 if ka == 1 else 0)
    rec(m, s, b, 'order', ok, 'comparing %s with %s gives %r' % (NAMES[ka], NAMES[kb], v))


@rule('C20')
def eos_new(o):
    b = o.method(EOS, 'new')
    m = o.machine()
    for x, v, a in o.run(m, b):
        f = m.as_bool(a[0])
        for y, r in o.w.eos_rem(m, x, v):
            rec(m, y, b, 'eos-new', OR(AND(f, bc_finite(m, r, K(0))), AND(NOT(f), bc_var(m, r, 2))), 'Eos::new(%r) leaves %r' % (a[0], r))
    o.merge(m)


@rule('C20')
def eos_with(o):
    b = o.method(EOS, 'with_remaining_bytes')
    m = o.machine()
    for x, v, a in o.run(m, b):
        for y, r in o.w.eos_rem(m, x, v):
            for k, z in bc_cases(m, y, a[0]):
                rec(m, z, b, 'eos-with', bc_is(m, r, k, bc_n(m, a[0])), 'Eos::with_remaining_bytes(%r) leaves %r' % (a[0], r))
    o.merge(m)


@rule('C20')
def eos_is_reached(o):
    b = o.method(EOS, 'is_reached')
    m = o.machine()
    for x, v, a in o.run(m, b):
        for y, r in o.w.eos_rem(m, x, o.val(m, x, a[0])):
            f, g = m.as_bool(v), bc_finite(m, r, K(0))
            rec(m, y, b, 'eos-reached', AND(IMP(f, g), IMP(g, f)), 'is_reached() is %r with %r left' % (v, r))
    o.merge(m)


@rule('C20')
def eos_back(o):
    b = o.method(EOS, 'back')
    m = o.machine()
    for x, v, a in o.run(m, b):
        for y, r0 in o.w.eos_rem(m, x, o.val(m, x, a[0])):
            for z, r in o.w.eos_rem(m, y, v):
                for k, u in bc_cases(m, z, r0):
                    n = bc_n(m, r0)
                    rec(m, u, b, 'eos-back', bc_is(m, r, k, n + a[1] if k == 0 else None), 'back(%r) of %r leaves %r' % (a[1], r0, r))
    o.merge(m)
