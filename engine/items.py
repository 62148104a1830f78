"""Items on their way through the codecs: an ownership analysis.  Every item that enters a call (the argument, what a
component, iterator or function yields, what the receiver held) must, when the call succeeds, be part of the result,
be held by the receiver, or have been handed to a component, function or collection."""
from core import *
import natives
import spec as S
from spec import SELF

LOOSE = ('lp', 'ext')


def strip(t):
    while isinstance(t, tuple) and len(t) == 3 and t[0] == 'w':
        t = t[2]
    return t


def tag(t):
    """origin of a fresh name"""
    t = strip(t)
    while isinstance(t, tuple) and t and t[0] in ('vf', 'f', 'd') and len(t) > 1:
        t = strip(t[1])
    return t[1] if isinstance(t, tuple) and len(t) == 3 and t[0] == 'fresh' else None


def atoms(m, s, v, out, refs=True, d=0, seqs=False):
    """names of the items inside a value -> type"""
    if d > 8 or v is None:
        return out
    if isinstance(v, (Agg, Enum)):
        for x in v.f:
            atoms(m, s, x, out, refs, d + 1, seqs)
    elif isinstance(v, Arr):
        for x in v.e[:16]:
            atoms(m, s, x, out, refs, d + 1, seqs)
    elif isinstance(v, Ref):
        if refs:
            try:
                atoms(m, s, m.read(s, v.root, v.path), out, refs, d + 1, seqs)
            except GIVEUP:
                pass
    elif isinstance(v, Seq):
        if seqs:
            out[('seq', v.len, v.term)] = v.ty
    elif isinstance(v, Opq) and v.ty is not None:
        t = m.P.ty(v.ty)
        if t['k'] in ('param', 'alias'):
            out[strip(v.term)] = v.ty
        elif t['k'] == 'adt':
            p = t['path']
            if p.endswith('Error') or p.endswith('ErrorKind'):
                return out
            n = m.nvariants(v.ty)
            if n == 1 and p in m.P.adts:
                for i in range(m.nfields(v.ty, 0)):
                    atoms(m, s, m.proj(v, ('f', i)), out, refs, d + 1, seqs)
            elif n > 1:
                ks = s.vars.get(v.term)
                if ks is not None and len(ks) == 1:
                    k = next(iter(ks))
                    for i in range(m.nfields(v.ty, k)):
                        atoms(m, s, m.proj(v, ('v', k, i)), out, refs, d + 1, seqs)
                else:
                    inner = {}
                    for k in range(n):
                        for i in range(m.nfields(v.ty, k)):
                            x = m.proj(v, ('v', k, i))
                            if not (isinstance(x, Opq) and x.ty == v.ty):
                                atoms(m, s, x, inner, False, d + 1, seqs)
                    if inner:
                        out[v.term] = v.ty
    return out


def has_empty(m, s, term, ty):
    """formula: the undecided enum holds no item"""
    n = m.nvariants(ty)
    f = False
    if n < 2:
        return False
    for k in range(n):
        inner = {}
        for i in range(m.nfields(ty, k)):
            atoms(m, s, m.proj(Opq(ty, term), ('v', k, i)), inner, False)
        if not inner:
            f = OR(f, ('var', term, k, n))
    return f


def consumed(m, s, evs):
    """names handed on by the events of a call"""
    out = {}
    for e in evs:
        k, d = e[0], e[-1]
        vals = []
        if k == 'comp':
            out[strip(d['term'])] = d['ty']
            if d['kind'] not in ('decode', 'encode', 'finish'):
                vals = list(d.get('args') or ())
        elif k == 'app':
            vals = list(d['args'])
            out[strip(d['f'])] = None
        elif k == 'extend':
            vals = [d['item']]
        elif k == 'push':
            vals = [d['val']]
        elif k == 'mono_write':
            vals = [d['item']]
            if d.get('held') is not None:
                vals.append(d['held'])
        elif k == 'mono_read':
            vals = [d['reader']]
        elif k == 'utf8':
            vals = [d['arg']]
        elif k == 'next':
            out[strip(d['term'])] = d['ty']
        for v in vals:
            atoms(m, s, v, out, seqs=True)
    return out


def produced(m, s, evs):
    """[(name, type, where)]"""
    out = []

    def add(v, where):
        for t, ty in atoms(m, s, v, {}, False, seqs=True).items():
            out.append((t, ty, where))
    for e in evs:
        k, d = e[0], e[-1]
        if k == 'comp' and d['kind'] == 'finish' and d['err'] is None:
            add(d['item'], 'the item yielded by the component at %s' % d['site'])
        elif k == 'app':
            add(d['res'], 'the value computed by the function called at %s' % d['site'])
        elif k == 'next' and d['item'] is not None:
            add(d['item'], 'the item taken from the iterator at %s' % d['site'])
            out.append((strip(d['after']), d['ty'], 'the iterator advanced at %s' % d['site']))
        elif k == 'mono_read' and d['err'] is None:
            add(d['item'], 'the item decoded at %s' % d['site'])
        elif k == 'utf8' and d['err'] is None:
            add(d['res'], 'the text made at %s' % d['site'])
    return out


def flow(sp, m, s, v, mn, evs, comps):
    if not isinstance(v, Enum) or v.k != 0 or mn not in ('decode', 'finish', 'encode', 'start'):
        return
    q = mn in ('finish', 'start')
    kept = atoms(m, s, s.mem.get(SELF), {}, seqs=q)
    if mn == 'finish':
        atoms(m, s, v, kept, seqs=q)
    used = consumed(m, s, evs)
    loose = {ty for t, ty in kept.items() if tag(t) in LOOSE}
    loose |= {ty for t, ty in used.items() if tag(t) in LOOSE}
    src = produced(m, s, evs)
    if mn == 'start':
        item = s.g('item')
        if item is not None:
            src += [(t, ty, 'the accepted item') for t, ty in atoms(m, s, item, {}, False, seqs=q).items()]
    if not (mn == 'encode' and sp.leaf() and not any(e[0] == 'mono_write' for e in evs)):
        src += [(t, ty, 'what the codec held') for t, ty in atoms(m, s, s.g('self0'), {}, False, seqs=q).items()]
    for t, ty, where in src:
        ok = t in kept or t in used
        if not ok and ty in loose and where == 'what the codec held':
            continue
        if not ok and ty is not None and m.P.ty(ty)['k'] == 'adt':
            ok = has_empty(m, s, t, ty)
        sp.rec(m, s, 'item-kept', ok, '%s is dropped' % where, mn)


def back(sp, m, s, b, mn):
    """an item met in one round of a loop may not vanish before the next"""
    evs = b.events()[len(s.events()):]
    src = produced(m, b, evs)
    if not src:
        return
    kept = atoms(m, b, b.mem.get(SELF), {})
    used = consumed(m, b, evs)
    for t, ty, where in src:
        ok = t in kept or t in used
        if not ok and ty is not None and m.P.ty(ty)['k'] == 'adt':
            ok = has_empty(m, b, t, ty)
        sp.rec(m, b, 'item-kept', ok, '%s is dropped' % where, mn)


S.EVERY.append(flow)
S.BACK.append(back)
