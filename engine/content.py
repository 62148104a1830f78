"""Invalid content and foreign errors (C25): what is refused, and how it is classified."""
from core import *
import machine
from access import same_value
from corner import call, clean, busy
from done import enter
from families import obs
from plain import rule, rec, FNS
from spec import SELF, mentions

BUFFER = ('S', ('arg', 'buf'))
FOREIGN = {'JsonDecoder', 'JsonEncoder', 'BincodeDecoder', 'BincodeEncoder'}
MONO = {'MonolithicDecoder', 'MonolithicEncoder'}
KINDS = FOREIGN | MONO | {'PaddingDecoder', 'Utf8Decoder', 'MapErr'}


def run(sp):
    m = sp.machine(machine.Monitor())
    if sp.short == 'PaddingDecoder':
        padding(sp)
    if sp.short == 'Utf8Decoder':
        utf8(sp, m)
    if sp.short in FOREIGN | MONO:
        foreign(sp, m)
    if sp.short == 'MapErr':
        mapped(sp, m)
    sp.merge(m)


def made(st):
    return [e[1] for e in st.events() if e[0] == 'mkerr']


def invalid(sp, m, e):
    return sp.kind_is(m, e['kind'], 'InvalidInput')


# ------------------------------------------------------------------ padding
class Bytes(machine.Monitor):
    """the bytes of the buffer looked at: events, and how many from the front without a gap"""

    def __init__(self, sp):
        self.sp = sp

    def on_read_elem(self, m, s, root, path, idx):
        if root == BUFFER and not path and s.g('seen') is not None:
            s.event(('byte', idx, m.read(s, root, (('e', idx),))))
            if entails(s, EQ(idx, s.g('seen'))):
                s.setg('seen', s.g('seen') + K(1))

    def on_back(self, m, s, back):
        if back.g('seen') is not None and back.g('pad') is not None and not m.silent:
            same(self.sp, m, back, back.g('pad'))


def looked(st):
    return [e[2] for e in st.events() if e[0] == 'byte' and isinstance(e[2], Lin)]


def same(sp, m, st, want):
    f = True
    for b in looked(st):
        f = AND(f, EQ(b, want))
    sp.rec(m, st, 'content-checked', f, 'goes on after a byte that may differ from the expected one', 'decode')


def padding(sp):
    mon = Bytes(sp)
    m = sp.machine(mon)
    for s in sp.initial(m):
        for x, want in obs(sp, m, clean(s), 'expected_byte'):
            for some in (0, 1):
                for y in assume(x, m.is_variant(want, some, 2)):
                    for z in busy(sp, m, y):
                        for u, buf, eos, end in enter(sp, m, z, 'decode'):
                            u = u.copy()
                            pad = m.proj(want, ('v', 1, 0)) if some else None
                            if some:
                                u.setg('seen', K(0))
                                u.setg('pad', pad)
                            for st, v, cs in call(sp, m, u, 'decode', buf, eos):
                                padding_exit(sp, m, st, v, buf, pad)
    sp.merge(m)


def padding_exit(sp, m, st, v, buf, pad):
    if pad is None:
        sp.rec(m, st, 'content-accepted', v.k == 0, 'refuses padding although any byte is allowed', 'decode')
        return
    if v.k != 0:
        bs = looked(st)
        f = False
        for b in bs:
            f = OR(f, NOT(EQ(b, pad)))
        sp.rec(m, st, 'content-accepted', f, 'refuses padding that is as expected', 'decode')
        ks = made(st)
        sp.rec(m, st, 'content-kind', invalid(sp, m, ks[-1]) if ks else False, 'unexpected padding is reported as %r' % ([k['kind'] for k in ks],), 'decode')
        return
    if sp.unroll is None:
        same(sp, m, st, pad)
        sp.rec(m, st, 'content-checked', EQ(st.g('seen'), buf.len), 'accepts %r bytes without having compared all of them' % (buf.len,), 'decode')
        return
    for n in range(4):
        for x in assume(st, EQ(buf.len, K(n))):
            f = True
            for k in range(n):
                i = buf.start + K(k)
                g = EQ(m.read(x, BUFFER, (('e', i),)), pad)
                for e in x.events():
                    if e[0] == 'byte' and isinstance(e[2], Lin) and entails(x, EQ(e[1], i)):
                        g = OR(g, EQ(e[2], pad))
                f = AND(f, g)
            sp.rec(m, x, 'content-checked', f, 'accepts %d bytes that may differ from the expected one' % n, 'decode')


# ------------------------------------------------------------------ UTF-8
def utf8(sp, m):
    mn = 'finish'
    for s in sp.initial(m):
        for st, v, cs in call(sp, m, s, mn):
            us = [e[1] for e in st.events() if e[0] == 'utf8']
            got = [e['item'] for e in cs if e['kind'] == 'finish' and e['err'] is None]
            if v.k == 0:
                ok = bool(got) and any(u['err'] is None and same_value(m, u['arg'], got[-1]) is True and same_value(m, v.f[0], u['res']) is True for u in us)
                sp.rec(m, st, 'content-checked', ok, 'yields a string that is not the checked bytes of its component', mn)
            elif got:
                sp.rec(m, st, 'content-accepted', any(u['err'] is not None for u in us), 'refuses bytes that are valid UTF-8', mn)
                ks = made(st)
                sp.rec(m, st, 'content-kind', invalid(sp, m, ks[-1]) if ks else False, 'invalid UTF-8 is reported as %r' % ([k['kind'] for k in ks],), mn)


# ------------------------------------------------------------------ third-party codecs
def foreign(sp, m):
    for mn in ('decode', 'finish', 'encode'):
        if mn not in sp.c.m:
            continue
        for s in sp.initial(m):
            ins = [(clean(s), None, None)]
            if mn != 'finish':
                ins = [(x, buf, eos) for x, buf, eos, end in enter(sp, m, s, mn)]
            for x, buf, eos in ins:
                for st, v, cs in call(sp, m, x, mn, *([buf, eos] if mn != 'finish' else [])):
                    evs = st.events()
                    bad = [i for i, e in enumerate(evs) if e[0] in ('mono_read', 'mono_write_ret') and e[1].get('err') is not None]
                    if not bad:
                        continue
                    e = evs[bad[-1]][1]['err']
                    ks = [q[1] for q in evs[bad[-1]:] if q[0] == 'mkerr']
                    if sp.short in MONO:
                        ok = v.k == 1 and mentions(v.f[0], e.term, st) and not ks
                        sp.rec(m, st, 'foreign-kept', ok, 'an error of the wrapped codec is turned into another', mn)
                    else:
                        ok = v.k == 1 and mentions(v.f[0], e.term, st) and bool(ks)
                        sp.rec(m, st, 'foreign-kind', AND(ok, invalid(sp, m, ks[-1])) if ok else False,
                               'an error of the serializer is reported as %r' % ([k['kind'] for k in ks],), mn)


# ------------------------------------------------------------------ MapErr
def mapped(sp, m):
    for mn in ('decode', 'finish', 'encode', 'start'):
        if mn not in sp.c.m:
            continue
        for s in sp.initial(m):
            if mn in ('decode', 'encode'):
                ins = [(x, [buf, eos]) for x, buf, eos, end in enter(sp, m, s, mn)]
            elif mn == 'start':
                ins = [(clean(s), [m.mk(sp.c.m[mn]['locals'][2][0], ('arg', 'item'))])]
            else:
                ins = [(clean(s), [])]
            for x, args in ins:
                for st, v, cs in call(sp, m, x, mn, *args):
                    apps = [e[1] for e in st.events() if e[0] == 'app']
                    bad = [e for e in cs if e['err'] is not None]
                    if not bad:
                        sp.rec(m, st, 'error-mapped', not apps and v.k == 0, 'maps an error although its component did not fail', mn)
                        continue
                    ok = v.k == 1 and len(apps) == 1 and any(same_value(m, a, bad[-1]['err']) is True for a in apps[0]['args'])
                    ok = ok and isinstance(apps[0]['res'], Opq) and holds(v.f[0], apps[0]['res'].term)
                    sp.rec(m, st, 'error-mapped', ok, "the component's error is not what the closure makes of it", mn)


def holds(v, term):
    """the value is built from the term itself (not from what the term was computed from)"""
    if isinstance(v, Opq):
        return inside(v.term, term)
    if isinstance(v, (Agg, Enum)):
        return any(holds(x, term) for x in v.f)
    return False


def inside(t, term):
    if t == term:
        return True
    if isinstance(t, Opq):
        return inside(t.term, term)
    return isinstance(t, tuple) and any(inside(x, term) for x in t)


# ------------------------------------------------------------------ conversions into the crate's error
def conversions(o, arg):
    for f in o.P.fns:
        if f['name'] != 'from' or f['self'] is None or f['key'] not in o.P.bodies or not f['trait'].endswith('From'):
            continue
        b = o.P.bodies[f['key']]
        if o.P.ty(f['self']).get('path') == 'error::Error' and o.P.ty(b['locals'][1][0]).get('path') == arg:
            yield b


def variant(m, ty, name):
    """index and number of variants"""
    vs = [v['n'] for v in m.P.adts[m.P.ty(ty)['path']]['variants']]
    return vs.index(name), len(vs)


def classified(o, arg, want):
    for b in conversions(o, arg):
        m = o.machine()
        for st, v, args in o.run(m, b):
            ks = made(st)
            ok = bool(ks)
            if ok:
                ok = want(m, st, ks[-1], args[0])
            rec(m, st, b, 'foreign-class', ok, '%s is classified as %r' % (arg, [k['kind'] for k in ks]))
            src = args[0]
            rec(m, st, b, 'foreign-cause', isinstance(src, Opq) and mentions(v, src.term, st), 'the cause of the error is lost')
        o.merge(m)


@rule('C25')
def io_errors(o):
    def want(m, st, k, a):
        t = m.P.find_ty('std::io::ErrorKind')
        i, n = variant(m, t, 'UnexpectedEof')
        eof = ('var', ('iokind', a.term), i, n)
        kt = m.P.find_ty('error::ErrorKind')
        f = m.is_variant(k['kind'], *variant(m, kt, 'UnexpectedEos'))
        g = m.is_variant(k['kind'], *variant(m, kt, 'Other'))
        return AND(IMP(eof, f), IMP(NOT(eof), g))
    classified(o, 'std::io::Error', want)


@rule('C25')
def failures(o):
    def want(m, st, k, a):
        return m.is_variant(k['kind'], *variant(m, m.P.find_ty('error::ErrorKind'), 'Other'))
    classified(o, 'trackable::error::Failure', want)
