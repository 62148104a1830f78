"""What a codec announces and what its parts announce (C23)."""
from core import *
import machine
import spec as S
from spec import SELF, BUF, is_idle, bc_var, bc_n, bc_finite

MAX = K((1 << 64) - 1)
# codecs that adapt or limit a single component and have no work of their own
RELAY = {'Map', 'MapErr', 'TryMap', 'MapFrom', 'TryMapFrom', 'Optional', 'MaxBytes', 'Slice', 'MaybeEos', 'Utf8Decoder'}
# codecs that work through parts or items: the part at work is the last one that exists
PARTS = {'Omittable', 'Collect', 'CollectN', 'AndThen', 'Peekable', 'Last'}
# pending items whose size is not known before they are encoded
OPEN = {'Repeat', 'Last'}
SKIP_BOUND = {'Length'}         # its idleness is a recorded finding of C10 and C11; its size is C11's


def bc_eq(m, a, b):
    f = False
    pa, pb = bc_n(m, a), bc_n(m, b)
    if pa is not None and pb is not None:
        f = AND(AND(bc_var(m, a, 0), bc_var(m, b, 0)), EQ(pa, pb))
    for k in (1, 2):
        f = OR(f, AND(bc_var(m, a, k), bc_var(m, b, k)))
    return f


def iff(a, b):
    return AND(IMP(a, b), IMP(b, a))


def comps(sp, m, s):
    """[(guard, opaque component)] in the order of the generic parameters"""
    out = []
    for lp, g in codec_leaves(sp, m):
        v = sp.w.val(m, s, SELF, (), lp)
        if isinstance(v, Opq):
            out.append((sp.w.guardf(m, s, SELF, (), g), v))
    return out


def codec_leaves(sp, m):
    """(path, guards) of the components, in the order of the generic parameters"""
    if not hasattr(sp, '_cl'):
        x = State()
        m.read(x, SELF, ())
        args = list(sp.P.ty(sp.c.ty).get('args', ()))
        out = []
        for lp, kk, g in sp.w.leaves(sp.c.ty):
            v = sp.w.val(m, x, SELF, (), lp) if kk == 'comp' else None
            if isinstance(v, Opq) and v.ty in sp.w.codec_comps(sp.c):
                out.append((args.index(v.ty) if v.ty in args else 99, lp, g))
        sp._cl = [(lp, g) for i, lp, g in sorted(out, key=lambda x: x[0])]
    return sp._cl


def settle(sp, m, s):
    """states in which it is known which components have work left"""
    outs = [s]
    for g, v in comps(sp, m, s):
        outs = [y for x in outs for f in (is_idle(v.term), NOT(is_idle(v.term))) for y in assume(x, f)]
    return outs


def part_at_work(sp, m, s):
    """[(state, component or None)]: the last part that exists"""
    out = []
    rest = [s]
    for g, v in reversed(comps(sp, m, s)):
        out += [(y, v) for x in rest for y in assume(x, g)]
        rest = [y for x in rest for y in assume(x, NOT(g))]
    return out + [(x, None) for x in rest]


def req_of(sp, s, v):
    if s.lits.get(('idle', v.term)) is True:
        return Enum(bc_ty(sp), 0, (K(0),))
    return Opq(bc_ty(sp), ('req', v.term))


def bc_ty(sp):
    return sp.P.find_ty('byte_count::ByteCount') or sp.P.find_ty('ByteCount')


def run(sp):
    m = sp.machine(machine.Monitor())
    m.sizes = True
    if sp.short in RELAY or sp.short in PARTS or sp.c.adt is None or sp.c.adt.startswith(('std::', 'alloc::')):
        for s in sp.initial(m):
            for x in settle(sp, m, s):
                observers(sp, m, x)
    elif sp.short in OPEN:
        for s in sp.initial(m):
            for st, f in sp.observe(m, s, 'is_idle'):
                for x in assume(st, NOT(m.as_bool(f))):
                    open_ended(sp, m, x)
    sp.merge(m)
    mn = 'decode' if sp.c.role == 'dec' else 'encode'
    if mn in sp.c.m and not (sp.short in SKIP_BOUND and mn == 'decode') and not sp.wide():
        steps(sp, mn)


def open_ended(sp, m, s):
    for st, v in sp.observe(m, s, 'requiring'):
        sp.paths += 1
        sp.rec(m, st, 'requires-relay', bc_var(m, v, 2), 'items of unknown size are pending, but %r is announced' % (v,), 'requiring')


def observers(sp, m, s):
    short = sp.short
    for st, f in sp.observe(m, s, 'is_idle'):
        f = m.as_bool(f)
        for a, r in sp.observe(m, st, 'requiring'):
            sp.paths += 1
            if short not in RELAY and short not in PARTS:
                pointer(sp, m, a, f, r)
                continue
            if short == 'Last':
                # the pending item's size is not known
                for y in assume(a, NOT(f)):
                    for b, pend in pending(sp, m, y):
                        if pend:
                            sp.rec(m, b, 'requires-relay', bc_var(m, r, 2), 'an item of unknown size is pending, but %r is announced' % (r,), 'requiring')
                        else:
                            relay(sp, m, b, r, part_at_work(sp, m, b))
                continue
            if short in RELAY:
                for b, v in part_at_work(sp, m, a):
                    if v is not None:
                        sp.rec(m, b, 'idle-relay', iff(f, is_idle(v.term)), 'is_idle() differs from its component\'s', 'is_idle')
                relay(sp, m, a, r, part_at_work(sp, m, a))
            else:
                for y in assume(a, NOT(f)):
                    relay(sp, m, y, r, part_at_work(sp, m, y))
                for y in assume(a, f):
                    sp.rec(m, y, 'requires-none', bc_finite(m, r, K(0)), 'it has no work left, but %r is announced' % (r,), 'requiring')
                if short in ('AndThen', 'Omittable'):
                    n = len(comps(sp, m, a))
                    last = comps(sp, m, a)[-1] if n else None
                    omit = will_omit(sp, m, a) if short == 'Omittable' else [(a, False)]
                    for b, o in omit:
                        if last is None or (short == 'AndThen' and n < 2):
                            if short == 'AndThen':
                                sp.rec(m, b, 'idle-relay', NOT(f), 'idle although its second part does not exist', 'is_idle')
                            continue
                        sp.rec(m, b, 'idle-relay', iff(f, OR(o, AND(last[0], is_idle(last[1].term)))), 'is_idle() differs from that of its last part', 'is_idle')
        if 'exact' in sp.c.m and short in RELAY:
            for a, q in sp.observe(m, st, 'exact'):
                for b, v in part_at_work(sp, m, a):
                    if v is None:
                        continue
                    if b.lits.get(('idle', v.term)) is True:
                        sp.rec(m, b, 'exact-relay', EQ(q, K(0)), 'its component is idle but %r bytes are announced' % (q,), 'exact')
                    else:
                        sp.rec(m, b, 'exact-relay', EQ(q, symbol(('exact', v.term), 0, (1 << 64) - 1)),
                               'announces %r bytes, which is not its component\'s size' % (q,), 'exact')


def relay(sp, m, s, r, parts):
    for st, v in parts:
        if v is None:
            continue
        sp.rec(m, st, 'requires-relay', bc_eq(m, r, req_of(sp, st, v)), 'requires %r, its part at work requires %r' % (r, req_of(sp, st, v)), 'requiring')


def pending(sp, m, s):
    """[(state, an item waits to be started)]"""
    out = [(s, False)]
    for lp, kk, g in sp.w.leaves(sp.c.ty):
        if kk != 'opt' or g:
            continue
        v = sp.w.val(m, s, SELF, (), lp)
        f = m.is_variant(v, 1)
        out = [(y, b or t) for x, b in out for t, h in ((True, f), (False, NOT(f))) for y in assume(x, h)]
    return out


def will_omit(sp, m, s):
    b = [x for p, x in sp.w.fnbody.items() if p.endswith('Omittable::<D>::will_omit')]
    if not b:
        return []
    return [(st, m.as_bool(v)) for st, v in m.exec_body(b[0], [Ref(SELF)], s)]


def pointer(sp, m, s, f, r):
    """a reference or box: what is announced is one component's"""
    ts = []
    if isinstance(r, Opq) and isinstance(r.term, tuple) and r.term[0] == 'req':
        ts.append(r.term[1])
    for st in assume(s, NOT(f)):
        sp.rec(m, st, 'requires-relay', bool(ts), 'requires %r, which is not what its target requires' % (r,), 'requiring')
        for t in ts:
            sp.rec(m, st, 'idle-relay', NOT(is_idle(t)), 'not idle although its target is', 'is_idle')
    for st in assume(s, f):
        for t in ts:
            sp.rec(m, st, 'idle-relay', is_idle(t), 'idle although its target is not', 'is_idle')


def steps(sp, mn):
    """an announced number of bytes is what the item then takes"""
    m = sp.machine(machine.Monitor())
    m.sizes = True
    m.peel = sp.short == 'CollectN'
    b = sp.c.m[mn]
    for s in sp.initial(m):
        for x in settle(sp, m, s):
            for st, f in sp.observe(m, x, 'is_idle'):
                for y in assume(st, NOT(m.as_bool(f))):
                    for z, r in sp.observe(m, y, 'requiring'):
                        for e in assume(z, bc_var(m, r, 0)):
                            step(sp, m, b, mn, e, bc_n(m, r))
    sp.merge(m)


def step(sp, m, b, mn, s, q):
    s = s.copy()
    s.ev = None
    buf = m.mk(b['locals'][2][0], ('arg', 'buf'))
    m.read(s, BUF, ())
    eos = m.mk(b['locals'][3][0], ('arg', 'eos'))
    sts = [s]
    if mn == 'decode':
        sts = [y for x, v in sp.w.eos_rem(m, s, eos) for y in assume(x, NOT(bc_finite(m, v, K(0))))]
    for x in sts:
        m.steps = 0
        m.silent += 1
        try:
            outs = m.exec_body(b, [Ref(SELF), buf, eos], x)
        finally:
            m.silent -= 1
        for st, v in outs:
            if not isinstance(v, Enum) or v.k != 0:
                continue
            n = v.f[0]
            for y, f in sp.post_idle(m, st):
                if mn == 'decode':
                    for z in assume(y, f):
                        sp.paths += 1
                        sp.rec(m, z, 'lower-bound', LE(q, n), '%r bytes were announced to be needed, but the item is complete after %r and the stream goes on' % (q, n), mn)
                    continue
                for z in assume(y, f):
                    sp.paths += 1
                    sp.rec(m, z, 'requires-step', OR(EQ(n, q), EQ(q, MAX)), '%r bytes were announced, but the items are encoded after %r' % (q, n), mn)
                for z in assume(y, NOT(f)):
                    for w, r2 in sp.observe(m, z, 'requiring'):
                        sp.paths += 1
                        sp.rec(m, w, 'requires-step', OR(bc_finite(m, r2, q - n), EQ(q, MAX)), 'required %r bytes, wrote %r, now requires %r' % (q, n, r2), mn)
