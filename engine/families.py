"""Rules of particular codecs (by public type), evaluated at every exit of their operations."""
from core import *
import spec as S
from spec import SELF, BUF, is_idle, bc_finite, bc_n, bc_var, same_bc

MAX = K((1 << 64) - 1)
PRE = ('H', ('pre',))


def inherent(w, adt, name):
    """body of the inherent method `name` of a local type"""
    for f in w.P.fns:
        if f['name'] == name and not f['trait'] and f['pk'] != 'trait':
            b = w.P.bodies.get(f['key'])
            if b is None:
                continue
            t = w.P.ty(f['self']) if f['self'] is not None else None
            if t and t['k'] == 'adt' and t['path'] == adt:
                return b
    return None


class NoAnchor(Exception):
    pass


def obs(sp, m, s, name, root=SELF):
    """value of a public accessor in the current state: [(state, value)]"""
    b = inherent(sp.w, sp.c.adt, name)
    if b is None:
        raise KeyError('no accessor %s of %s' % (name, sp.c.adt))
    m.silent += 1
    try:
        return m.exec_body(b, [Ref(root)], s)
    finally:
        m.silent -= 1


def pre(sp, m, s, name):
    """value of a public accessor in the state at entry"""
    st = s.copy()
    st.mem[PRE] = s.g('self0')
    m.rty[PRE] = sp.c.ty
    return [(x, v) for x, v in obs(sp, m, st, name, PRE)]


def several(sp, m, s, *names):
    """[(state, {name: value})]; names ending in 0 are read in the entry state"""
    outs = [(s, {})]
    for n in names:
        nxt = []
        for st, d in outs:
            r = pre(sp, m, st, n[:-1]) if n.endswith('0') else obs(sp, m, st, n)
            nxt += [(x, dict(d, **{n: v})) for x, v in r]
        outs = nxt
    return outs


def own_error(v, comps):
    return v.k != 0 and not any(e.get('err') is not None for e in comps)


def last_kind(evs):
    ks = [e[1]['kind'] for e in evs if e[0] == 'mkerr']
    return ks[-1] if ks else None


def is_min(x, a, b):
    return OR(AND(LE(a, b), EQ(x, a)), AND(LT(b, a), EQ(x, b)))


def first(comps, kind):
    for e in comps:
        if e['kind'] == kind:
            return e
    return None


# ------------------------------------------------------------------ Length
def length_decode(sp, m, s, v, evs, comps):
    L = s.g('len')
    eos0 = s.g('eos')
    for st, d in several(sp, m, s, 'remaining_bytes0', 'remaining_bytes', 'expected_bytes0', 'expected_bytes'):
        rec = lambda rule, ok, msg: sp.rec(m, st, rule, ok, msg, 'decode')
        r0, r1 = d['remaining_bytes0'], d['remaining_bytes']
        rec('length-kept', EQ(d['expected_bytes0'], d['expected_bytes']), 'the expected length is changed by decoding')
        idle0 = s.g('idle0')
        p = bc_n(m, eos0)
        short = False if p is None else AND(bc_var(m, eos0, 0), LT(L + p, r0))
        if v.k == 0:
            rec('length-progress', EQ(r1 + v.f[0], r0), 'after %r bytes %r of %r remain' % (v.f[0], r1, r0))
        c = first(comps, 'decode')
        if not idle0:
            if c is not None:
                rec('length-window', AND(EQ(c['win'].start, K(0)), is_min(c['win'].len, L, r0)),
                    'the component is given %r bytes where %r exist and %r are left of the length' % (c['win'].len, L, r0))
                for x, ev in sp.w.eos_rem(m, st, c['eos']):
                    sp.rec(m, x, 'length-eos', bc_finite(m, ev, r0 - c['win'].len),
                           'the component is told that %r remain instead of the rest of the length' % (ev,), 'decode')
            if v.k == 0 or c is not None:
                rec('length-truncated', NOT(short), 'the stream is known to end before the length is used up but no error is raised')
        if own_error(v, comps):
            k = last_kind(evs)
            rec('length-refusal', short, 'refuses a stream that is long enough')
            if k is not None:
                rec('length-kind', sp.kind_is(m, k, 'UnexpectedEos'), 'a truncated stream is reported as %r' % (k,))


def refused(sp, m, s, v, comps, rule, ok, msg):
    """a complete item that the component itself refuses to yield is over as well"""
    c = first(comps, 'finish')
    if v.k != 0 and c is not None and c.get('err') is not None:
        for x in assume(s, is_idle(c['term'])):
            sp.rec(m, x, rule, ok, msg, 'finish')


def length_finish(sp, m, s, v, evs, comps):
    for st, d in several(sp, m, s, 'remaining_bytes0', 'remaining_bytes', 'expected_bytes0', 'expected_bytes'):
        rec = lambda rule, ok, msg: sp.rec(m, st, rule, ok, msg, 'finish')
        r0 = d['remaining_bytes0']
        rec('length-kept', EQ(d['expected_bytes0'], d['expected_bytes']), 'the expected length is changed by finishing')
        if v.k == 0:
            rec('length-exact', EQ(r0, K(0)), 'an item is yielded while %r bytes of the length are unused' % (r0,))
            rec('length-reset', EQ(d['remaining_bytes'], d['expected_bytes']), 'the next item starts with %r bytes' % (d['remaining_bytes'],))
        refused(sp, m, st, v, comps, 'length-reset', EQ(d['remaining_bytes'], d['expected_bytes']), 'the item was refused by the component, but the next one starts with %r bytes' % (d['remaining_bytes'],))
        if own_error(v, comps):
            rec('length-refusal', NE(r0, K(0)), 'refuses an item whose length is used up')
            k = last_kind(evs)
            if k is not None:
                rec('length-kind', sp.kind_is(m, k, 'IncompleteDecoding'), 'an incomplete item is reported as %r' % (k,))


def length_encode(sp, m, s, v, evs, comps):
    L = s.g('len')
    eos0 = s.g('eos')
    if s.g('idle0'):
        return
    for st, d in several(sp, m, s, 'remaining_bytes0', 'remaining_bytes', 'expected_bytes0', 'expected_bytes'):
        rec = lambda rule, ok, msg: sp.rec(m, st, rule, ok, msg, 'encode')
        r0, r1 = d['remaining_bytes0'], d['remaining_bytes']
        rec('length-kept', EQ(d['expected_bytes0'], d['expected_bytes']), 'the expected length is changed by encoding')
        c = first(comps, 'encode')
        short = AND(LT(L, r0), bc_finite(m, eos0, K(0)))
        if c is not None:
            rec('length-window', AND(EQ(c['win'].start, K(0)), is_min(c['win'].len, L, r0)),
                'the component is given %r bytes where %r exist and %r are left of the length' % (c['win'].len, L, r0))
            for x, ev in sp.w.eos_rem(m, st, c['eos']):
                sp.rec(m, x, 'length-eos', OR(LT(L, r0), bc_finite(m, ev, K(0))),
                       'the component is told that %r remain although its length ends in this buffer' % (ev,), 'encode')
        if v.k == 0:
            rec('length-truncated', NOT(short), 'the stream ends before the length is used up but no error is raised')
            if c is None:
                continue
            n = v.f[0]
            for x, f in sp.post_idle(m, st):
                for y in assume(x, f):
                    sp.rec(m, y, 'length-exact', EQ(r0, n), 'an item of a different size than the length is accepted (%r left, %r written)' % (r0, n), 'encode')
                for y in assume(x, NOT(f)):
                    sp.rec(m, y, 'length-progress', EQ(r1 + n, r0), 'after %r bytes %r of %r remain' % (n, r1, r0), 'encode')
        elif own_error(v, comps):
            f = short
            if c is not None and c['n'] is not None:
                f = OR(f, AND(is_idle(c['after']), NE(c['n'], r0)))
            rec('length-refusal', f, 'refuses an item of the right size')
            k = last_kind(evs)
            if k is not None:
                rec('length-kind', OR(AND(sp.kind_is(m, k, 'UnexpectedEos'), short),
                                      sp.kind_is(m, k, 'InvalidInput')), 'the failure is reported as %r' % (k,))


def length_start(sp, m, s, v, evs, comps):
    if v.k != 0:
        return
    for st, d in several(sp, m, s, 'remaining_bytes', 'expected_bytes'):
        sp.rec(m, st, 'length-reset', EQ(d['remaining_bytes'], d['expected_bytes']), 'a new item starts with %r bytes left' % (d['remaining_bytes'],), 'start')


# ------------------------------------------------------------------ MaxBytes
def max_decode(sp, m, s, v, evs, comps):
    L = s.g('len')
    eos0 = s.g('eos')
    for st, d in several(sp, m, s, 'consumed_bytes0', 'consumed_bytes', 'max_bytes0', 'max_bytes'):
        rec = lambda rule, ok, msg: sp.rec(m, st, rule, ok, msg, 'decode')
        c0, mx = d['consumed_bytes0'], d['max_bytes0']
        rec('max-kept', EQ(mx, d['max_bytes']), 'the limit is changed by decoding')
        p = bc_n(m, eos0)
        over = OR(bc_var(m, eos0, 1), AND(bc_var(m, eos0, 2), LT(mx, c0 + L)))
        if p is not None:
            over = OR(over, AND(AND(bc_var(m, eos0, 0), LT(mx, c0 + L + p)), NE(mx - c0, MAX)))
        if v.k == 0:
            if not s.g('idle0'):
                rec('max-limit', NOT(over), 'accepts input although the item is bound to exceed the limit')
            rec('max-count', EQ(d['consumed_bytes'], c0 + v.f[0]), 'after %r more bytes %r are counted instead of %r' % (v.f[0], d['consumed_bytes'], c0 + v.f[0]))
        elif own_error(v, comps):
            rec('max-refusal', OR(over, AND(bc_var(m, eos0, 0), EQ(mx - c0, MAX))), 'refuses input within the limit')
            k = last_kind(evs)
            if k is not None:
                rec('max-kind', sp.kind_is(m, k, 'InvalidInput'), 'an exceeded limit is reported as %r' % (k,))


def max_finish(sp, m, s, v, evs, comps):
    for st, d in several(sp, m, s, 'consumed_bytes', 'max_bytes0', 'max_bytes'):
        sp.rec(m, st, 'max-kept', EQ(d['max_bytes0'], d['max_bytes']), 'the limit is changed by finishing', 'finish')
        if v.k == 0:
            sp.rec(m, st, 'max-reset', EQ(d['consumed_bytes'], K(0)), 'the next item starts with %r bytes already counted' % (d['consumed_bytes'],), 'finish')
        refused(sp, m, st, v, comps, 'max-reset', EQ(d['consumed_bytes'], K(0)), 'the item was refused by the component, but the next one starts with %r bytes already counted' % (d['consumed_bytes'],))


def max_encode(sp, m, s, v, evs, comps):
    for st, d in several(sp, m, s, 'consumed_bytes0', 'consumed_bytes', 'max_bytes0', 'max_bytes'):
        rec = lambda rule, ok, msg: sp.rec(m, st, rule, ok, msg, 'encode')
        c0, mx = d['consumed_bytes0'], d['max_bytes0']
        rec('max-kept', EQ(mx, d['max_bytes']), 'the limit is changed by encoding')
        if v.k == 0:
            n = v.f[0]
            if s.g('idle0'):
                continue
            rec('max-limit', LE(c0 + n, mx), 'writes more bytes than the limit allows')
            for x, f in sp.post_idle(m, st):
                for y in assume(x, f):
                    sp.rec(m, y, 'max-reset', EQ(d['consumed_bytes'], K(0)), 'the next item starts with %r bytes already counted' % (d['consumed_bytes'],), 'encode')
                for y in assume(x, NOT(f)):
                    sp.rec(m, y, 'max-count', EQ(d['consumed_bytes'], c0 + n), 'after %r more bytes %r are counted' % (n, d['consumed_bytes']), 'encode')
        elif own_error(v, comps):
            n = K(0)
            for e in comps:
                if e['kind'] == 'encode' and e['n'] is not None:
                    n = n + e['n']
            rec('max-refusal', LT(mx, c0 + n), 'refuses output within the limit')
            k = last_kind(evs)
            if k is not None:
                rec('max-kind', sp.kind_is(m, k, 'InvalidInput'), 'an exceeded limit is reported as %r' % (k,))


# ------------------------------------------------------------------ Slice
def slice_code(mn):
    def h(sp, m, s, v, evs, comps):
        L = s.g('len')
        for st, d in several(sp, m, s, 'consumable_bytes0', 'consumable_bytes'):
            b0, b1 = d['consumable_bytes0'], d['consumable_bytes']
            c = first(comps, mn)
            if c is not None and not s.g('idle0'):
                sp.rec(m, st, 'slice-window', AND(EQ(c['win'].start, K(0)), is_min(c['win'].len, L, b0)),
                       'the component is given %r bytes where %r exist and the budget is %r' % (c['win'].len, L, b0), mn)
            if v.k == 0:
                sp.rec(m, st, 'slice-budget', EQ(b1 + v.f[0], b0), 'after %r bytes the budget went from %r to %r' % (v.f[0], b0, b1), mn)
            else:
                sp.rec(m, st, 'slice-budget', EQ(b1, b0), 'a failed call changes the budget from %r to %r' % (b0, b1), mn)
            sp.rec(m, st, 'slice-refusal', not own_error(v, comps), 'fails on its own', mn)
    return h


def slice_keep(mn):
    def h(sp, m, s, v, evs, comps):
        for st, d in several(sp, m, s, 'consumable_bytes0', 'consumable_bytes'):
            sp.rec(m, st, 'slice-budget', EQ(d['consumable_bytes0'], d['consumable_bytes']), 'the budget changes from %r to %r' % (d['consumable_bytes0'], d['consumable_bytes']), mn)
    return h


# ------------------------------------------------------------------ PreEncode
def preencode_start(sp, m, s, v, evs, comps):
    if v.k != 0 or s.g('wrote') is None:
        return
    req = False             # a component that announces its size writes exactly that much until it is idle
    for st, q in sp.observe(m, s, 'exact'):
        for e in comps:
            if e['kind'] == 'encode':
                req = OR(req, EQ(q, symbol(('vf', ('req', e['term']), 0, 0))))
        sp.rec(m, st, 'pre-encoded', OR(EQ(q, s.g('wrote')), req), 'the component encoded %r bytes, %r are kept for output' % (s.g('wrote'), q), 'start')


S.EXTRA.update({
    ('PreEncode', 'start'): preencode_start,
    ('Length', 'decode'): length_decode, ('Length', 'finish'): length_finish, ('Length', 'encode'): length_encode, ('Length', 'start'): length_start,
    ('MaxBytes', 'decode'): max_decode, ('MaxBytes', 'finish'): max_finish, ('MaxBytes', 'encode'): max_encode,
    ('Slice', 'decode'): slice_code('decode'), ('Slice', 'encode'): slice_code('encode'),
    ('Slice', 'finish'): slice_keep('finish'), ('Slice', 'start'): slice_keep('start'),
})


# ------------------------------------------------------------------ accessors and setters
def site(b):
    return b['path']


def setter_states(sp, name, nargs=1):
    """runs an inherent &mut self method: yields (machine, state, result, args, events)"""
    b = inherent(sp.w, sp.c.adt, name)
    if b is None:
        raise KeyError('no method %s of %s' % (name, sp.c.adt))
    import machine
    m = sp.machine(machine.Monitor())
    for s in sp.initial(m):
        s0 = s.copy()
        s0.setg('self0', s0.mem[SELF])
        s0.ev = None
        args = [Ref(SELF)] + [m.mk(b['locals'][i + 1][0], ('arg', i)) for i in range(1, b['args'])]
        for st, v in m.exec_body(b, args, s0):
            sp.paths += 1
            yield m, b, st, v, args
    sp.merge(m)


def length_set(sp):
    for m, b, s, v, args in setter_states(sp, 'set_expected_bytes'):
        for st, d in several(sp, m, s, 'remaining_bytes0', 'remaining_bytes', 'expected_bytes0', 'expected_bytes'):
            rec = lambda rule, ok, msg: m.rec(st, 'R', rule, ok, msg=msg, site=site(b))
            fresh = EQ(d['remaining_bytes0'], d['expected_bytes0'])
            if v.k == 0:
                rec('length-set', AND(EQ(d['expected_bytes'], args[1]), EQ(d['remaining_bytes'], args[1])), 'the new length is not in force')
                rec('length-set-busy', fresh, 'the length is changed in the middle of an item')
            else:
                rec('length-set-busy', NOT(fresh), 'the length cannot be changed between items')
                rec('length-set', AND(EQ(d['expected_bytes'], d['expected_bytes0']), EQ(d['remaining_bytes'], d['remaining_bytes0'])), 'a refused change has an effect')
                k = last_kind(st.events())
                if k is not None:
                    rec('length-kind', sp.kind_is(m, k, 'IncompleteDecoding'), 'reported as %r' % (k,))


def max_set(sp):
    for m, b, s, v, args in setter_states(sp, 'set_max_bytes'):
        for st, d in several(sp, m, s, 'consumed_bytes0', 'consumed_bytes', 'max_bytes0', 'max_bytes'):
            rec = lambda rule, ok, msg: m.rec(st, 'R', rule, ok, msg=msg, site=site(b))
            fits = LE(d['consumed_bytes0'], args[1])
            rec('max-set-count', EQ(d['consumed_bytes'], d['consumed_bytes0']), 'the number of counted bytes changes')
            if v.k == 0:
                rec('max-set', EQ(d['max_bytes'], args[1]), 'the new limit is not in force')
                rec('max-set-busy', fits, 'a limit that is already exceeded is accepted')
            else:
                rec('max-set-busy', NOT(fits), 'a limit that is not exceeded is refused')
                rec('max-set', EQ(d['max_bytes'], d['max_bytes0']), 'a refused change has an effect')
                k = last_kind(st.events())
                if k is not None:
                    rec('max-kind', sp.kind_is(m, k, 'InvalidInput'), 'reported as %r' % (k,))


def slice_set(sp):
    for m, b, s, v, args in setter_states(sp, 'set_consumable_bytes'):
        for st, x in obs(sp, m, s, 'consumable_bytes'):
            m.rec(st, 'R', 'slice-set', EQ(x, args[1]), msg='the new budget is not in force', site=site(b))
            for y, f in obs(sp, m, st, 'is_suspended'):
                f = m.as_bool(f)
                z = EQ(x, K(0))
                m.rec(y, 'R', 'slice-suspended', AND(IMP(f, z), IMP(z, f)), msg='is_suspended() does not tell whether the budget is used up', site=site(b))


def fresh(sp, name, vals):
    """the constructor `new(inner, n)` leaves the accessors at the given values"""
    import machine
    b = inherent(sp.w, sp.c.adt, 'new')
    if b is None:
        raise KeyError('no constructor of %s' % sp.c.adt)
    m = sp.machine(machine.Monitor())
    for st, v, args in sp.w.run_fn(m, b, sp.c.role):
        st = st.copy()
        st.mem[SELF] = v
        for x, d in several(sp, m, st, *[n for n, _ in vals]):
            for n, want in vals:
                w_ = args[1] if want == 'arg' else K(want)
                m.rec(x, 'R', name, EQ(d[n], w_), msg='a new value starts with %s = %r' % (n, d[n]), site=site(b))
    sp.merge(m)


SETTERS = {
    'Length': lambda sp: (length_set(sp), fresh(sp, 'length-new', [('expected_bytes', 'arg'), ('remaining_bytes', 'arg')])),
    'MaxBytes': lambda sp: (max_set(sp), fresh(sp, 'max-new', [('max_bytes', 'arg'), ('consumed_bytes', 0)])),
    'Slice': lambda sp: (slice_set(sp), fresh(sp, 'slice-new', [('consumable_bytes', 0)])),
}


# ------------------------------------------------------------------ tuples: the documented sum of what the parts require
def bc_sum(m, s, vals, dec):
    """[(state, variant, payload)] of the documented sum of byte counts (saturating)"""
    fin = K(0)
    kinds = []
    outs = [(s, ())]
    for v in vals:
        outs = [(y, ks + (k,)) for st, ks in outs for k in range(3) for y in assume(st, bc_var(m, v, k))]
    res = []
    for st, ks in outs:
        if 1 in ks:
            res.append((st, 1, None))
            continue
        fin = K(0)
        for v, k in zip(vals, ks):
            if k == 0:
                fin = fin + bc_n(m, v)
        unk = 2 in ks
        if unk and not dec:
            res.append((st, 2, None))
        elif unk:
            res += [(y, 2, None) for y in assume(st, EQ(fin, K(0)))]
            res += [(y, 0, fin) for y in assume(st, NE(fin, K(0)))]
        else:
            res.append((st, 0, fin))
    return res


def sat_eq(p, n):
    return OR(EQ(p, n), AND(LT(MAX, n), EQ(p, MAX)))


def tuple_sum(sp):
    import machine
    dec = sp.c.role == 'dec'
    mn = 'requiring'
    paths = [l[0] for l in sp.w.leaves(sp.c.ty) if l[1] == 'comp']
    m = sp.machine(machine.Monitor())
    n = len(paths)
    if n <= 3:
        combos = [None]
    else:
        combos = [()] + [((i, k),) for i in range(n) for k in (1, 2)] + [((0, 2), (n - 1, 2)), ((0, 1), (n - 1, 2)), ((0, 2), (n - 1, 1))]
    for combo in combos:
        s = State()
        m.read(s, SELF, ())
        reqs = []
        for p in paths:
            v = sp.w.val(m, s, SELF, (), p)
            if not isinstance(v, Opq):
                return
            reqs.append(Opq(sp.P.find_ty('byte_count::ByteCount') or sp.P.find_ty('ByteCount'), ('req', v.term)))
        sts = [s]
        if combo is not None:
            d = dict(combo)
            for i, r in enumerate(reqs):
                sts = [y for x in sts for y in assume(x, bc_var(m, r, d.get(i, 0)))]
        for s in sts:
            for s1, k, p in bc_sum(m, s, reqs, dec):
                for st, v in sp.observe(m, s1, 'requiring'):
                    sp.paths += 1
                    want = bc_var(m, v, k)
                    if k == 0:
                        q = bc_n(m, v)
                        want = False if q is None else AND(want, sat_eq(q, p))
                    sp.rec(m, st, 'size-sum', want, 'the parts require %r, which is documented to give %s, but %r is announced' % (
                        [sorted(st.vars.get(r.term, ())) for r in reqs], ['Finite(%r)' % (p,), 'Infinite', 'Unknown'][k], v), mn)
    sp.merge(m)


S.OBS = {'TupleDecoder': tuple_sum, 'TupleEncoder': tuple_sum}
