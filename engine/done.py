"""When a sequence, a collection or a stream-filling codec has completed its work (C24)."""
from core import *
import items
import machine
import sizes
from families import obs
from corner import call, clean, comps, busy
from spec import SELF, BUF, bc_finite, is_idle

TO_END = {'Collect', 'RemainingBytesDecoder', 'PaddingDecoder', 'MonolithicDecoder', 'JsonDecoder', 'BincodeDecoder', 'PaddingEncoder'}
WHOLE = TO_END - {'MonolithicDecoder', 'JsonDecoder', 'BincodeDecoder'}     # the reader of a monolithic item may leave bytes over
OPEN_PARTS = {'MonolithicEncoder', 'PreEncode', 'Length', 'Slice', 'MaxBytes'}
KINDS = TO_END | {'CollectN', 'Repeat'}


def applies(w, c):
    s = short(c)
    return s in KINDS or (c.role == 'enc' and s not in OPEN_PARTS)


def short(c):
    return (c.adt or c.name).split('::')[-1]


class Counter(machine.Monitor):
    """number of items the components have yielded"""

    def on_component_ret(self, m, s, kind, comp, info, res):
        if kind == 'finish' and info.get('err') is None and s.g('done') is not None:
            s.setg('done', s.g('done') + K(1))


def run(sp):
    m = sp.machine(Counter())
    mn = 'decode' if sp.c.role == 'dec' else 'encode'
    if sp.short in TO_END:
        to_end(sp, m, mn)
    if sp.short == 'CollectN':
        collectn(sp, m)
    if sp.short == 'Repeat':
        repeat(sp, m)
    if sp.c.role == 'enc' and sp.short not in OPEN_PARTS:
        part_idle(sp, m)
    sp.merge(m)
    if sp.short == 'PaddingEncoder':
        padding_bytes(sp)


def enter(sp, m, s, mn, tag=''):
    b = sp.c.m[mn]
    s = clean(s)
    buf = m.mk(b['locals'][2][0], ('arg', 'buf' + tag))
    m.read(s, ('S', ('arg', 'buf' + tag)), ())
    eos = m.mk(b['locals'][3][0], ('arg', 'eos' + tag))
    return [(x, buf, eos, bc_finite(m, v, K(0))) for x, v in sp.w.eos_rem(m, s, eos)]


def to_end(sp, m, mn):
    for s in sp.initial(m):
        for y in busy(sp, m, s):
            for x, buf, eos, end in enter(sp, m, y, mn):
                for st, v, cs in call(sp, m, x, mn, buf, eos):
                    if v.k != 0:
                        continue
                    for z, f in sp.post_idle(m, st):
                        sp.rec(m, z, 'end-only', IMP(f, end), 'complete although the stream goes on', mn)
                        if sp.short in WHOLE:
                            for u in assume(z, f):
                                sp.rec(m, u, 'end-whole', EQ(v.f[0], buf.len), 'complete after %r of the last %r bytes' % (v.f[0], buf.len), mn)
                        if not cs or sp.short != 'Collect':
                            sp.rec(m, z, 'end-complete', IMP(end, f), 'not complete although the stream has ended', mn)
                        if sp.short == 'Collect':
                            part = [e for e in cs if e['kind'] in ('decode', 'finish')][-1:]
                            for e in part:
                                if e['kind'] == 'decode' and e['n'] is not None:
                                    sp.rec(m, z, 'end-only', OR(NOT(f), EQ(e['n'], K(0))), 'complete although its component is in the middle of an item', mn)


def collectn(sp, m):
    mn = 'decode'
    for s in sp.initial(m):
        for x, r0 in obs(sp, m, clean(s), 'remaining_items'):
            for y, f in sp.post_idle(m, x):
                z = EQ(r0, K(0))
                sp.rec(m, y, 'count-idle', AND(IMP(f, z), IMP(z, f)), 'is_idle() does not tell whether remaining_items() is zero', 'is_idle')
            for y, buf, eos, end in enter(sp, m, x, mn):
                y = y.copy()
                y.setg('done', K(0))
                for st, v, cs in call(sp, m, y, mn, buf, eos):
                    if v.k != 0:
                        continue
                    n = st.g('done')
                    for z, r1 in obs(sp, m, st, 'remaining_items'):
                        sp.rec(m, z, 'count-step', EQ(r1 + n, r0), '%r of %r items remain after %r more have been collected' % (r1, r0, n), mn)
            for st, v, cs in call(sp, m, x, 'finish'):
                for z, r1 in obs(sp, m, st, 'remaining_items'):
                    sp.rec(m, z, 'count-kept', EQ(r1, r0), 'finishing changes the number of items to come from %r to %r' % (r0, r1), 'finish')


def repeat(sp, m):
    mn = 'encode'
    ity = sp.c.m['start']['locals'][2][0]
    for s in sp.initial(m):
        for y in busy(sp, m, s):
            held = items.atoms(m, y, y.mem.get(SELF), {})
            for x, buf, eos, end in enter(sp, m, y, mn):
                for st, v, cs in call(sp, m, x, mn, buf, eos):
                    if v.k != 0:
                        continue
                    last = [e[1] for e in st.events() if e[0] == 'next'][-1:]
                    out = bool(last) and last[0]['item'] is None
                    if not any(has_type(m, ity, ty) for ty in held.values()):
                        out = True          # the iterator ran out in an earlier call
                    for z, f in sp.post_idle(m, st):
                        sp.rec(m, z, 'repeat-done', OR(NOT(f), out), 'done although the iterator has not run out', mn)
                        if last and out:
                            rest = False
                            for g, c in sizes.comps(sp, m, z) or ():
                                rest = OR(rest, AND(g, NOT(is_idle(c.term))))
                            sp.rec(m, z, 'repeat-done', OR(f, rest), 'the iterator has run out and nothing is left to write, but it is not done', mn)


def has_type(m, ity, ty):
    if ty is None or ty == ity:
        return True
    t = m.P.ty(ty)
    return any(has_type(m, ity, a) for a in t.get('args', ()) if isinstance(a, int))


def part_idle(sp, m):
    for s in sp.initial(m):
        parts = sizes.comps(sp, m, s)
        if not parts or len(parts) > 8:
            continue
        for st, f in sp.post_idle(m, clean(s)):
            for x in assume(st, f):
                for g, v in parts:
                    sp.rec(m, x, 'parts-idle', IMP(g, is_idle(v.term)), 'idle although a component still has work', 'is_idle')


class Writes(machine.Monitor):
    def __init__(self, sp, item):
        self.sp, self.item = sp, item

    def check(self, m, s, val):
        if s.g('writing'):
            self.sp.rec(m, s, 'padding-byte', EQ(val, self.item) if isinstance(val, Lin) else False, 'writes %r instead of the padding byte %r' % (val, self.item), 'encode')

    def on_store(self, m, s, root, path, val, site):
        if root[0] == 'S' and path and path[-1][0] == 'e' and root != SELF:
            self.check(m, s, val)

    def on_store_range(self, m, s, sref, val, site):
        if sref.root[0] == 'S' and sref.root != SELF:
            self.check(m, s, val)


def padding_bytes(sp):
    m = sp.machine(machine.Monitor())
    b = sp.c.m['start']
    item = m.mk(b['locals'][2][0], ('arg', 'item'))
    for s in sp.initial(m):
        for x, f in sp.observe(m, clean(s), 'is_idle'):
            for y in assume(x, m.as_bool(f)):
                cur = [(st, v) for st, v, cs in call(sp, m, y, 'start', item) if v.k == 0]
                m.mon = Writes(sp, item)
                for tag in ('a', 'b'):
                    nxt = []
                    for st, v in cur:
                        for z in busy(sp, m, st):
                            for u, buf, eos, end in enter(sp, m, z, 'encode', tag):
                                u = u.copy()
                                u.setg('writing', True)
                                for w, r, cs in call(sp, m, u, 'encode', buf, eos):
                                    if r.k == 0:
                                        w = w.copy()
                                        w.setg('writing', None)
                                        nxt.append((w, r))
                    cur = nxt
                m.mon = machine.Monitor()
    sp.merge(m)
