"""Optional, omitted and peeked items, and ends of streams that may be missing (C27)."""
from core import *
import machine
from access import same_value, same_ref
from families import obs, inherent
from spec import SELF, BUF, bc_finite, bc_var, bc_n, is_idle, same_bc, mentions

KINDS = {}


def kind(name):
    def d(f):
        KINDS[name] = f
        return f
    return d


def run(sp):
    m = sp.machine(machine.Monitor())
    KINDS[sp.short](sp, m)
    sp.merge(m)


def clean(s):
    s = s.copy()
    s.ev = None
    return s


def comps(s):
    return [e[2] for e in s.events() if e[0] == 'comp']


def call(sp, m, s, mn, *args):
    """[(state, result, component calls)]"""
    m.steps = 0
    out = []
    for st, v in m.exec_body(sp.c.m[mn], [Ref(SELF)] + list(args), clean(s)):
        sp.paths += 1
        if isinstance(v, Enum):
            out.append((st, v, comps(st)))
    return out


def buffers(sp, m, s, mn, tag=''):
    """a call's buffer and stream end: [(state, buf, eos, remaining)]"""
    b = sp.c.m[mn]
    buf = m.mk(b['locals'][2][0], ('arg', 'buf' + tag))
    s = s.copy()
    m.read(s, ('S', ('arg', 'buf' + tag)), ())
    eos = m.mk(b['locals'][3][0], ('arg', 'eos' + tag))
    return [(x, buf, eos, v) for x, v in sp.w.eos_rem(m, s, eos)]


def empty_end(sp, m, s, mn):
    """an empty buffer at the end of the stream"""
    b = sp.c.m[mn]
    root = ('S', ('arg', 'none'))
    s = s.copy()
    s.mem[root] = Seq(sp.P.find_ty('[u8]'), K(0), ('d', ('arg', 'none')))
    m.rty[root] = sp.P.find_ty('[u8]')
    eos = m.mk(b['locals'][3][0], ('arg', 'eosn'))
    return [(y, SRef(root, (), K(0), K(0)), eos) for x, v in sp.w.eos_rem(m, s, eos) for y in assume(x, bc_finite(m, v, K(0)))]


def busy(sp, m, s):
    """states with work left (a codec without work need not bother its component)"""
    return [clean(y) for x, f in sp.observe(m, s, 'is_idle') for y in assume(x, NOT(m.as_bool(f)))]


def site(sp, name):
    return '%s::%s' % (sp.c.adt, name)


def whole(sp, m, s, e, buf, rem, rec):
    """the component was given the caller's whole buffer and the caller's stream end"""
    w = e['win']
    rec(s, 'passes-all', AND(OR(EQ(w.len, K(0)), EQ(w.start, buf.start)), EQ(w.len, buf.len)) if w is not None and w.root == buf.root else False,
        'the component is not given the whole buffer')
    for y, ev in sp.w.eos_rem(m, s, e['eos']):
        rec(y, 'passes-end', same_bc(m, y, ev, rem, K(0)), 'the component is told that %r remain instead of %r' % (ev, rem))


# ------------------------------------------------------------------ Omittable
@kind('Omittable')
def omittable(sp, m):
    for s in sp.initial(m):
        for st, w in obs(sp, m, s, 'will_omit'):
            for omit in (True, False):
                f = m.as_bool(w)
                for x in assume(st, f if omit else NOT(f)):
                    omit_case(sp, m, x, omit)


def omit_case(sp, m, s, omit):
    def rec(st, rule, ok, msg, mn):
        sp.rec(m, st, rule, ok, msg, mn)
    pre = [s] if omit else busy(sp, m, s)
    for x, buf, eos, rem in [c for s_ in pre for c in buffers(sp, m, s_, 'decode')]:
        for st, v, cs in call(sp, m, x, 'decode', buf, eos):
            if omit:
                rec(st, 'omit-nothing', AND(v.k == 0 and not cs, EQ(v.f[0], K(0)) if v.k == 0 else False), 'an omitted item is decoded or fails', 'decode')
            else:
                rec(st, 'omit-not', len(cs) == 1 and cs[0]['kind'] == 'decode', 'an item that is not omitted is not decoded', 'decode')
                if len(cs) == 1 and cs[0]['win'] is not None:
                    whole(sp, m, st, cs[0], buf, rem, lambda y, r, ok, msg: rec(y, r, ok, msg, 'decode'))
                    if v.k == 0 and cs[0]['n'] is not None:
                        rec(st, 'omit-not', EQ(v.f[0], cs[0]['n']), 'reports %r bytes where the component took %r' % (v.f[0], cs[0]['n']), 'decode')
            kept(sp, m, st, 'will_omit', omit, 'decode')
    for st, v, cs in call(sp, m, s, 'finish'):
        if omit:
            rec(st, 'omit-nothing', v.k == 0 and not cs and isinstance(v.f[0], Enum) and v.f[0].k == 0, 'an omitted item is yielded as %r' % (v,), 'finish')
        elif v.k == 0:
            some = v.f[0]
            rec(st, 'omit-not', isinstance(some, Enum) and some.k == 1 and bool(cs) and same_value(m, some.f[0], cs[-1].get('item')),
                'an item that is not omitted is yielded as %r' % (some,), 'finish')
        kept(sp, m, st, 'will_omit', omit, 'finish')
    for st, f in sp.observe(m, clean(s), 'is_idle'):
        f = m.as_bool(f)
        if omit:
            rec(st, 'omit-nothing', f, 'not idle although the item is omitted', 'is_idle')
    for st, q in sp.observe(m, clean(s), 'requiring'):
        if omit:
            rec(st, 'omit-nothing', bc_finite(m, q, K(0)), 'requires %r for an omitted item' % (q,), 'requiring')


def kept(sp, m, s, acc, want, mn):
    for y, w in obs(sp, m, s, acc):
        f = m.as_bool(w)
        sp.rec(m, y, 'setting-kept', f if want else NOT(f), '%s() changes' % acc, mn)


# ------------------------------------------------------------------ Optional
@kind('Optional')
def optional(sp, m):
    b = sp.c.m['start']
    ity = b['locals'][2][0]
    for s in sp.initial(m):
        s = clean(s)
        for k in (0, 1):
            item = m.mk(ity, ('arg', 'item'))
            for x in assume(s, m.is_variant(item, k, 2)):
                before = x.mem[SELF]
                for st, v, cs in call(sp, m, x, 'start', item):
                    if k == 0:
                        sp.rec(m, st, 'none-started', v.k == 0 and not cs and st.mem[SELF] == before, 'no item is given but something is started or refused', 'start')
                    else:
                        inner = m.proj(item, ('v', 1, 0))
                        st_ = [e for e in cs if e['kind'] == 'start']
                        sp.rec(m, st, 'some-started', len(st_) == 1 and same_value(m, st_[0]['args'][0], inner), 'the given item is not started exactly once', 'start')


# ------------------------------------------------------------------ Peekable
@kind('Peekable')
def peekable(sp, m):
    for s in sp.initial(m):
        for acc in ('peek', 'peek_mut'):
            for st, p in obs(sp, m, clean(s), acc):
                shown = m.is_variant(p, 1, 2)
                for x, f in sp.observe(m, st, 'is_idle'):
                    f = m.as_bool(f)
                    m.rec(x, 'R', 'peek-shows', AND(IMP(shown, f), IMP(f, shown)), msg='%s() is %r, which does not tell whether an item is complete' % (acc, p), site=site(sp, acc))
                if isinstance(p, Enum) and p.k == 1 and isinstance(p.f[0], Ref):
                    val = m.read(st, p.f[0].root, p.f[0].path)
                    for x, v, cs in call(sp, m, st, 'finish'):
                        if v.k == 0:
                            m.rec(x, 'R', 'peek-yields', same_value(m, v.f[0], val), msg='%s() shows %r but %r is yielded' % (acc, val, v.f[0]), site=site(sp, acc))
        for st, v, cs in call(sp, m, s, 'finish'):
            if v.k == 0:
                for x, p in obs(sp, m, st, 'peek'):
                    sp.rec(m, x, 'peek-gone', m.is_variant(p, 0, 2), 'an item that was yielded can still be peeked', 'finish')
        for x, f0 in sp.observe(m, clean(s), 'is_idle'):
            for y in assume(x, NOT(m.as_bool(f0))):
                for z, buf, eos, rem in buffers(sp, m, y, 'decode'):
                    for st, v, cs in call(sp, m, z, 'decode', buf, eos):
                        if cs and cs[0]['kind'] == 'decode' and cs[0]['win'] is not None:
                            whole(sp, m, st, cs[0], buf, rem, lambda a, r, ok, msg: sp.rec(m, a, r, ok, msg, 'decode'))
                        if v.k != 0:
                            continue
                        done = [e for e in cs if e['kind'] == 'finish']
                        for u, f1 in sp.observe(m, st, 'is_idle'):
                            f1 = m.as_bool(f1)
                            if not done:
                                sp.rec(m, u, 'peek-held', NOT(f1), 'complete without an item of the component', 'decode')
                                for e in cs[-1:]:
                                    sp.rec(m, u, 'peek-held', NOT(is_idle(e['after'])), 'the component has completed its item, but it is not held ready', 'decode')
                            else:
                                sp.rec(m, u, 'peek-held', f1, 'the component yielded its item, but it is not held ready', 'decode')


# ------------------------------------------------------------------ MaybeEos
def told(sp, m, s):
    """does the component learn of the end of the stream from an empty buffer: [(state before, yes or no)]"""
    out = []
    for x, buf, eos in empty_end(sp, m, clean(s), 'decode'):
        m.silent += 1
        try:
            outs = call(sp, m, x, 'decode', buf, eos)
        finally:
            m.silent -= 1
        for st, v, cs in outs:
            cs = [e for e in cs if e['kind'] == 'decode']
            y = x.copy()
            y.facts, y.lits, y.vars, y.approx, y.taint = st.facts, st.lits, st.vars, st.approx, st.taint
            if not cs:
                out.append((y, False))
                continue
            for z, ev in sp.w.eos_rem(m, st, cs[0]['eos']):
                f = bc_finite(m, ev, K(0))
                for w, val in [(w, True) for w in assume(z, f)] + [(w, False) for w in assume(z, NOT(f))]:
                    y = x.copy()
                    y.facts, y.lits, y.vars, y.approx, y.taint = w.facts, w.lits, w.vars, w.approx, w.taint
                    out.append((y, val))
    return out


@kind('MaybeEos')
def maybe_eos(sp, m):
    b = inherent(sp.w, sp.c.adt, 'new')
    if b is not None:
        for st, v, args in sp.w.run_fn(m, b, sp.c.role):
            st = st.copy()
            st.mem[SELF] = v
            for x, t in told(sp, m, st):
                m.rec(x, 'R', 'end-hidden', not t, msg='a new decoder does not ignore the end of the stream before the first byte', site=site(sp, 'new'))
    for s in sp.initial(m):
        s = clean(s)
        for st, v, cs in call(sp, m, s, 'finish'):
            if v.k == 0:
                for x, t in told(sp, m, st):
                    sp.rec(m, x, 'end-hidden', not t, 'after an item was yielded the end of the stream is not ignored before the next', 'finish')
        for s0, t0 in [c for s_ in busy(sp, m, s) for c in told(sp, m, s_)]:
            y = clean(s0)
            for x, buf, eos, rem in buffers(sp, m, y, 'decode'):
                for st, v, cs in call(sp, m, x, 'decode', buf, eos):
                    ds = [e for e in cs if e['kind'] == 'decode']
                    for z in assume(st, OR(LT(K(0), buf.len), NOT(bc_finite(m, rem, K(0))))):
                        sp.rec(m, z, 'passes-all', len(ds) == 1, 'the component is not called', 'decode')
                        if len(ds) == 1:
                            whole(sp, m, z, ds[0], buf, rem, lambda a, r, ok, msg: sp.rec(m, a, r, ok, msg, 'decode'))
                    if v.k != 0:
                        continue
                    n = v.f[0]
                    for z, t1 in told(sp, m, st):
                        begun = OR(t0, LT(K(0), n))
                        if t1:
                            sp.rec(m, z, 'end-hidden', begun, 'the end of the stream is not ignored although no byte of the item was processed', 'decode')
                        else:
                            for z, f in sp.post_idle(m, z):
                                sp.rec(m, z, 'end-shown', OR(NOT(begun), f), 'the end of the stream is ignored in the middle of an item', 'decode')
