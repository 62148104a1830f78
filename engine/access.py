"""Rules on accessors, setters and constructors (C28): what they show and change is what the operations work with."""
from core import *
from plain import rule, rec, FNS
from spec import SELF

PAIRS = [('inner_ref', 'inner_mut', 'into_inner'), ('stream_ref', 'stream_mut', 'into_stream'), ('read_buf_ref', 'read_buf_mut', None),
         ('write_buf_ref', 'write_buf_mut', None), ('peek', 'peek_mut', None)]
SETS = [('do_omit', 'will_omit')]
# what a new value shows: accessor -> argument of the constructor, or a constant
NEW = {
    'padding::PaddingDecoder::new': {'expected_byte': 0},
    'slice::OwnedSlice::<T>::new': {'start': 1, 'end': 2},
    'DecodeExt::length': {'expected_bytes': 1, 'remaining_bytes': 1},
    'EncodeExt::length': {'expected_bytes': 1, 'remaining_bytes': 1},
    'DecodeExt::max_bytes': {'max_bytes': 1, 'consumed_bytes': 'zero'},
    'EncodeExt::max_bytes': {'max_bytes': 1, 'consumed_bytes': 'zero'},
    'DecodeExt::slice': {'consumable_bytes': 'zero', 'is_suspended': 'true'},
    'EncodeExt::slice': {'consumable_bytes': 'zero', 'is_suspended': 'true'},
    'DecodeExt::collectn': {'remaining_items': 1},
    'DecodeExt::omit': {'will_omit': 1},
    'io::BufferedIo::<T>::new': {'read_buf_ref.capacity': 1, 'write_buf_ref.capacity': 2, 'read_buf_ref.len': 'zero', 'write_buf_ref.len': 'zero',
                                 'read_buf_ref.room': 1, 'write_buf_ref.room': 2, 'is_eos': 'false', 'would_block': 'false'},
    'io::ReadBuf::<B>::new': {'len': 'zero', 'is_empty': 'true'},
    'io::WriteBuf::<B>::new': {'len': 'zero', 'is_empty': 'true'},
}


def methods_of(w):
    """adt path -> {name: body} of the inherent methods of local types"""
    P = w.P
    w.class_methods_cached()
    if not hasattr(P, '_inh'):
        out = {}
        for f in P.fns:
            if f['trait'] or f['pk'] == 'trait' or f['self'] is None or f['key'] not in P.bodies:
                continue
            t = P.ty(f['self'])
            if t['k'] == 'adt' and t['path'] in P.adts:
                b = P.bodies[f['key']]
                if b['path'] not in w.hidden:
                    out.setdefault(t['path'], {})[f['name']] = b
        P._inh = out
    return P._inh


def methods(o):
    return methods_of(o.w)


def recv(o, b):
    """type of the receiver"""
    t = b['locals'][1][0]
    k = o.P.ty(t)
    return k['to'] if k['k'] == 'ref' else t


def setup(o, b, v=None):
    m = o.machine()
    s = State()
    m.rty[SELF] = recv(o, b)
    if v is not None:
        s.mem[SELF] = v
        if getattr(v, 'ty', None) is not None:
            m.rty[SELF] = v.ty
    m.read(s, SELF, ())
    return m, s


def run(o, m, b, s, args):
    m.steps = 0
    out = []
    for st, v in m.exec_body(b, args, s):
        o.paths += 1
        out.append((st, v))
    return out


def same_value(m, a, b):
    """formula: the two values are equal"""
    if a is None or b is None:
        return False
    if isinstance(a, Lin) and isinstance(b, Lin):
        return EQ(a, b)
    if isinstance(a, (Enum, Opq)) and isinstance(b, (Enum, Opq)) and a != b and m.nvariants(a.ty) and m.nvariants(a.ty) > 1:
        n = m.nvariants(a.ty)
        f = False
        for k in range(n):
            if (isinstance(a, Enum) and a.k != k) or (isinstance(b, Enum) and b.k != k):
                continue
            g = AND(m.is_variant(a, k, n), m.is_variant(b, k, n))
            for i in range(m.nfields(a.ty, k)):
                g = AND(g, same_value(m, m.proj(a, ('v', k, i)), m.proj(b, ('v', k, i))))
            f = OR(f, g)
        return f
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
        f = True
        for x, y in zip(a.f, b.f):
            f = AND(f, same_value(m, x, y))
        return f
    if isinstance(a, Agg) and isinstance(b, Opq):
        a, b = b, a
    if isinstance(a, Opq) and isinstance(b, Agg) and b.ty is not None:
        f = True
        for i in range(len(b.f)):
            f = AND(f, same_value(m, m.proj(a, ('f', i)), m.proj(b, ('f', i))))
        return f
    if a is True or a is False or b is True or b is False or isinstance(a, tuple) or isinstance(b, tuple):
        x, y = m.as_bool(a), m.as_bool(b)
        return AND(IMP(x, y), IMP(y, x))
    return a == b


def parts(o, names):
    ref, mut, into = names
    for adt, ms in sorted(methods(o).items()):
        if ref not in ms:
            continue
        b = ms[ref]
        m, s = setup(o, b)
        for st, r in run(o, m, b, s, [Ref(SELF)]):
            v = m.read(st, r.root, r.path) if isinstance(r, Ref) else r
            if mut in ms:
                for x, q in run(o, m, ms[mut], st, [Ref(SELF)]):
                    rec(m, x, ms[mut], 'part-same', same_ref(m, q, r), '%s() hands out %r but %s() shows %r' % (mut, q, ref, r))
            if into in ms:
                x0 = st.copy()
                for x, q in run(o, m, ms[into], x0, [x0.mem[SELF]]):
                    rec(m, x, ms[into], 'part-same', same_value(m, q, v), '%s() returns %r but %s() shows %r' % (into, q, ref, v))
        o.merge(m)


def same_ref(m, a, b):
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.root == b.root and a.path == b.path
    if isinstance(a, Enum) and isinstance(b, Enum):
        return a.k == b.k and all(same_ref(m, x, y) is True for x, y in zip(a.f, b.f))
    return a == b


@rule('C28')
def accessor_pairs(o):
    for p in PAIRS:
        parts(o, p)


def set_pairs(w, adt):
    ms = methods_of(w).get(adt, {})
    out = [(n, n[4:]) for n in ms if n.startswith('set_') and n[4:] in ms] + [p for p in SETS if p[0] in ms and p[1] in ms]
    return [p for p in sorted(out) if ms[p[0]]['args'] == 2]


def setters(sp):
    """task 'sets': every setter of a codec, in every reachable state"""
    import machine
    ms = methods_of(sp.w)[sp.c.adt]
    adt = sp.short

    def ask(m, s, b, *args):
        m.steps = 0
        out = []
        for st, v in m.exec_body(b, [Ref(SELF)] + list(args), s.copy()):
            sp.paths += 1
            out.append((st, v))
        return out
    for st_, get in set_pairs(sp.w, sp.c.adt):
        b = ms[st_]
        m = sp.machine(machine.Monitor())
        others = [g for g in sorted(ms) if g != get and public(sp.P, ms[g]) and ms[g]['args'] == 1 and simple(sp, ms[g]) and (adt, st_, g) not in LINKED]
        for s in sp.initial(m):
            a = m.mk(b['locals'][2][0], ('arg', 1))
            olds = [(s, {})]
            for g in others:
                olds = [(y, dict(d, **{g: v})) for x, d in olds for y, v in ask(m, x, ms[g])]
            for x, old in olds:
                for y, v in ask(m, x, b, a):
                    if isinstance(v, Enum) and v.k != 0:
                        continue
                    for z, q in ask(m, y, ms[get]):
                        rec(m, z, b, 'set-get', same_value(m, q, a), '%s() is %r after %s(%r)' % (get, q, st_, a))
                    for g in others:
                        for z, q in ask(m, y, ms[g]):
                            rec(m, z, b, 'set-only', same_value(m, q, old[g]), '%s(%r) changes %s() from %r to %r' % (st_, a, g, old[g], q))
        sp.merge(m)


def public(P, b):
    if not hasattr(P, '_public'):
        P._public = {f['key'] for f in P.fns if f['pub']}
    return b['key'] in P._public


LINKED = {('Length', 'set_expected_bytes', 'remaining_bytes'), ('Slice', 'set_consumable_bytes', 'is_suspended')}


def simple(o, b):
    """a parameterless query answering with a number, flag or option of these"""
    t = o.P.ty(b['locals'][1][0])
    if t['k'] != 'ref' or t.get('mut'):
        return False
    r = o.P.ty(b['locals'][0][0])
    return r['k'] in ('int', 'uint', 'bool', 'prim')


@rule('C28')
def constructors(o):
    ms = methods(o)
    for path, b in sorted(o.w.fnbody.items()):
        t = o.P.ty(b['locals'][0][0])
        if t['k'] != 'adt' or t['path'] not in ms or b['path'] in o.w.hidden or path.endswith('::clone'):
            continue
        mm = ms[t['path']]
        show = [p[0] for p in PAIRS if p[0] in mm and p[0] not in ('peek', 'read_buf_ref', 'write_buf_ref')]
        want = [w for k, w in NEW.items() if path.endswith(k)]
        if not show and not want:
            continue
        byval = [i for i in range(b['args']) if o.P.ty(b['locals'][i + 1][0])['k'] in ('param', 'adt', 'alias')]
        m0 = o.machine()
        m0.silent += 1
        s0 = State()
        args = [m0.mk(b['locals'][i + 1][0], ('arg', i)) for i in range(b['args'])]
        for st, v in run(o, m0, b, s0, args):
            if isinstance(v, Opq):
                v = m0.expand(v)
            if not isinstance(v, Agg):
                continue
            st = st.copy()
            m = o.machine()
            st.mem[SELF] = v
            m.rty[SELF] = v.ty
            for acc in show:
                if not byval:
                    continue
                for x, r in run(o, m, mm[acc], st, [Ref(SELF)]):
                    q = m.read(x, r.root, r.path) if isinstance(r, Ref) else r
                    a = args[byval[0]]
                    if isinstance(q, Agg) and len(byval) == len(q.f) == 2:
                        a = Agg(q.ty, tuple(args[i] for i in byval))        # both parts of a pair, in order
                    rec(m, x, b, 'new-part', same_value(m, q, a), '%s() of a new value shows %r instead of %r' % (acc, q, a))
            for w in want:
                for acc, k in w.items():
                    for x, q in shown(o, m, ms, mm, acc, st):
                        a = args[k] if isinstance(k, int) else K(0) if k == 'zero' else k == 'true'
                        rec(m, x, b, 'new-value', same_value(m, q, a), 'a new value has %s() = %r' % (acc, q))
            o.merge(m)


def shown(o, m, ms, mm, acc, st):
    """[(state, answer)] of a getter, or of a getter of the part another getter shows"""
    outs = [(st, Ref(SELF))]
    for name in acc.split('.'):
        if name not in mm:
            return []
        outs = [y for x, r in outs for y in run(o, m, mm[name], x, [r])]
        t = o.P.ty(mm[name]['locals'][0][0])
        t = o.P.ty(t['to']) if t['k'] == 'ref' else t
        mm = ms.get(t.get('path'), {})
    return outs


@rule('C28')
def stream_states(o):
    ms = methods(o).get('io::StreamState', {})
    for name, k in (('is_normal', 0), ('is_eos', 1), ('would_block', 2), ('is_error', 3)):
        if name not in ms:
            continue
        b = ms[name]
        m = o.machine()
        for x, v, a in o.run(m, b):
            f, g = m.as_bool(v), m.is_variant(o.val(m, x, a[0]), k, 4)
            rec(m, x, b, 'state-test', AND(IMP(f, g), IMP(g, f)), '%s() is %r' % (name, v))
        o.merge(m)


@rule('C28')
def owned_slice(o):
    adt = 'slice::OwnedSlice'
    ms = methods(o).get(adt, {})
    for name, trait in (('as_ref', 'AsRef'), ('as_mut', 'AsMut')):
        b = o.method(adt, name, trait)
        if b is None or 'start' not in ms:
            continue
        m, s = setup(o, b)
        m.silent += 1           # a range outside the slice is the caller's mistake
        outs = run(o, m, b, s, [Ref(SELF)])
        for st, v in outs:
            for x, a in run(o, m, ms['start'], st, [Ref(SELF)]):
                for y, e in run(o, m, ms['end'], x, [Ref(SELF)]):
                    for z, r in run(o, m, ms['inner_ref'], y, [Ref(SELF)]):
                        m.silent -= 1
                        ok = False
                        if isinstance(v, SRef):
                            whole = o.val(m, z, r)
                            ok = AND(AND(EQ(v.start, a), EQ(v.len, e - a)), v.root == r.root and v.path[:len(r.path)] == r.path)
                        rec(m, z, b, 'owned-slice', ok, '%s() is %r instead of the bytes from start() to end()' % (name, v))
                        m.silent += 1
        m.silent -= 1
        o.merge(m)
