"""Models of trait contracts (for opaque components) and of the std / third-party calls met in MIR."""
import re
from core import *
import num

OK_, ERR_ = 0, 1
NONE_, SOME_ = 0, 1
READY_, PENDING_ = 0, 1


# ------------------------------------------------------------------ helpers
def ret(s, v):
    return [(s, v)]


def ok(dty, v):
    return Enum(dty, OK_, (v,))


def err(dty, v):
    return Enum(dty, ERR_, (v,))


def some(dty, v):
    return Enum(dty, SOME_, (v,))


def none(dty):
    return Enum(dty, NONE_, ())


def targ(m, ty, i):
    t = m.P.ty(ty)
    a = t.get('args') or []
    return a[i] if i < len(a) else None


def deref(m, s, v):
    """follow a reference to its value"""
    if isinstance(v, Ref):
        return m.read(s, v.root, v.path)
    return v


def deref_all(m, s, v):
    n = 0
    while isinstance(v, Ref) and n < 10:
        v = m.read(s, v.root, v.path)
        n += 1
    return v


def chase(m, s, v):
    """(root, path) of the innermost place reached through references starting at v"""
    loc = None
    n = 0
    while isinstance(v, Ref) and n < 10:
        loc = (v.root, v.path)
        v = m.read(s, v.root, v.path)
        n += 1
    return loc, v


def as_sref(m, s, v):
    if isinstance(v, SRef):
        return v
    loc, c = chase(m, s, v)
    if isinstance(c, SRef):
        return c
    if loc is None:
        return None
    if isinstance(c, (Seq, Arr, Opq)):
        return SRef(loc[0], loc[1], K(0), m.len_of(c))
    return None


def taint(s, why):
    n = s.copy()
    n.taint = s.taint + (why,)
    return n


def split_le(s, a, b):
    """(states with a<=b, states with a>b)"""
    return assume(s, LE(a, b)), assume(s, LT(b, a))


def pmin(s, a, b):
    le, gt = split_le(s, a, b)
    return [(x, a) for x in le] + [(x, b) for x in gt]


def bc(m):
    return m.P.find_ty('byte_count::ByteCount')


# ------------------------------------------------------------------ codec contracts
def comp(m, s, v):
    """The opaque component behind a receiver: (root, path, Opq) or None."""
    loc, c = chase(m, s, v)
    if isinstance(c, Opq) and loc is not None:
        return loc[0], loc[1], c
    return None


def is_idle_f(t):
    return ('p', ('idle', t))


def opq_err(m, ety, tag):
    return Opq(ety, m.fresh(tag))


def next_comp(m, s, root, path, c, tag='st'):
    """the component moves to a new unknown state"""
    n = Opq(c.ty, m.fresh(tag))
    m.write(s, root, path, n)
    return n


def c_decode(m, s, c, args, dty, site, kind='decode'):
    cc = comp(m, s, args[0])
    if cc is None:
        return None
    root, path, v = cc
    win = as_sref(m, s, args[1])
    eos = args[2]
    info = dict(root=root, path=path, term=v.term, ty=v.ty, win=win, eos=eos, site=site, kind=kind)
    m.mon.on_component(m, s, kind, v, info)
    ety = targ(m, dty, 1)
    outs = []
    idle = is_idle_f(v.term)
    for st in assume(s, idle):
        n = st.copy()
        if kind == 'encode':
            pass
        i2 = dict(info, n=K(0), err=None, after=v.term, was_idle=True)
        n.event(('comp', kind, i2))
        m.mon.on_component_ret(m, n, kind, v, i2, K(0))
        outs.append((n, ok(dty, K(0))))
        n = st.copy()
        w = next_comp(m, n, root, path, v)
        e = opq_err(m, ety, 'err')
        i2 = dict(info, n=None, err=e, after=w.term, was_idle=True)
        n.event(('comp', kind, i2))
        m.mon.on_component_ret(m, n, kind, v, i2, None)
        outs.append((n, err(dty, e)))
    for st in assume(s, NOT(idle)):
        n = st.copy()
        w = next_comp(m, n, root, path, v)
        k = m.fresh_int('n', 0, U64)
        if add_fact(n, 'le', k - win.len):
            if kind == 'encode':
                m.clobber(n, SRef(win.root, win.path, win.start, k))
                # meaning of SizedEncode: what is left shrinks by exactly what was written
                add_fact(n, 'eq', symbol(('exact', w.term), 0, U64) + k - symbol(('exact', v.term), 0, U64))
            i2 = dict(info, n=k, err=None, after=w.term, was_idle=False)
            n.event(('comp', kind, i2))
            m.mon.on_component_ret(m, n, kind, v, i2, k)
            outs += [(x, ok(dty, k)) for x in (sizes_kept(m, n, kind, v, w, k, eos) if m.sizes else [n])]
        n = st.copy()
        w = next_comp(m, n, root, path, v)
        e = opq_err(m, ety, 'err')
        if kind == 'encode':
            m.clobber(n, win)
        i2 = dict(info, n=None, err=e, after=w.term, was_idle=False)
        n.event(('comp', kind, i2))
        m.mon.on_component_ret(m, n, kind, v, i2, None)
        outs.append((n, err(dty, e)))
    return outs


def sizes_kept(m, s, kind, v, w, k, eos):
    """meaning of announced sizes: a definite one is what the item then takes"""
    req0, req1 = ('req', v.term), ('req', w.term)
    q0, q1 = symbol(('vf', req0, 0, 0), 0, U64), symbol(('vf', req1, 0, 0), 0, U64)
    out = []
    for st in assume(s, is_idle_f(w.term)):
        for x in set_variant(st, req0, 0, 3, True):
            if kind == 'encode':
                x = x.copy()
                if add_fact(x, 'eq', k - q0):
                    out.append(x)
                continue
            for y, r in m.world.eos_rem(m, x, eos):
                over = AND(m.is_variant(r, 0, 3), EQ(r.f[0] if isinstance(r, Enum) else m.proj(r, ('v', 0, 0)), K(0))) if not isinstance(r, Enum) or r.k == 0 else False
                out += assume(y, over)
                for z in assume(y, NOT(over)):
                    z = z.copy()
                    if add_fact(z, 'le', q0 - k):
                        out.append(z)
        out += set_variant(st, req0, 0, 3, False)
    for st in assume(s, NOT(is_idle_f(w.term))):
        if kind != 'encode':
            out.append(st)
            continue
        for x in set_variant(st, req0, 0, 3, True):
            for y in set_variant(x, req1, 0, 3, True):
                y = y.copy()
                if add_fact(y, 'eq', q1 + k - q0):
                    out.append(y)
        out += set_variant(st, req0, 0, 3, False)
    return out


def c_encode(m, s, c, args, dty, site):
    return c_decode(m, s, c, args, dty, site, 'encode')


def c_finish(m, s, c, args, dty, site):
    cc = comp(m, s, args[0])
    if cc is None:
        return None
    root, path, v = cc
    info = dict(root=root, path=path, term=v.term, ty=v.ty, site=site, kind='finish')
    m.mon.on_component(m, s, 'finish', v, info)
    ety = targ(m, dty, 1)
    ity = targ(m, dty, 0)
    outs = []
    for st in assume(s, is_idle_f(v.term)):
        n = st.copy()
        w = next_comp(m, n, root, path, v)
        item = m.mk(ity, ('item', v.term)) if ity is not None else Opq(None, ('item', v.term))
        i2 = dict(info, item=item, err=None, after=w.term)
        n.event(('comp', 'finish', i2))
        m.mon.on_component_ret(m, n, 'finish', v, i2, item)
        outs.append((n, ok(dty, item)))
    n = s.copy()
    w = next_comp(m, n, root, path, v)
    e = opq_err(m, ety, 'err')
    i2 = dict(info, item=None, err=e, after=w.term)
    n.event(('comp', 'finish', i2))
    m.mon.on_component_ret(m, n, 'finish', v, i2, None)
    outs.append((n, err(dty, e)))
    return outs


def c_start(m, s, c, args, dty, site, kind='start'):
    cc = comp(m, s, args[0])
    if cc is None:
        return None
    root, path, v = cc
    item = args[1] if len(args) > 1 else None
    info = dict(root=root, path=path, term=v.term, ty=v.ty, item=item, args=args[1:], site=site, kind=kind)
    m.mon.on_component(m, s, kind, v, info)
    ety = targ(m, dty, 1) if m.P.ty(dty)['k'] == 'adt' else None
    outs = []
    if ety is None or m.P.ty(dty).get('path') != 'std::result::Result':
        n = s.copy()
        w = next_comp(m, n, root, path, v)
        i2 = dict(info, err=None, after=w.term)
        n.event(('comp', kind, i2))
        return [(n, m.mk(dty, m.fresh(kind)))]
    for st in assume(s, is_idle_f(v.term)):
        n = st.copy()
        w = next_comp(m, n, root, path, v)
        i2 = dict(info, err=None, after=w.term)
        n.event(('comp', kind, i2))
        outs.append((n, ok(dty, UNIT)))
        n = st.copy()
        w = next_comp(m, n, root, path, v)
        e = opq_err(m, ety, 'err')
        i2 = dict(info, err=e, after=w.term)
        n.event(('comp', kind, i2))
        outs.append((n, err(dty, e)))
    for st in assume(s, NOT(is_idle_f(v.term))):
        n = st.copy()
        e = opq_err(m, ety, 'err')
        i2 = dict(info, err=e, after=v.term, full=True)
        n.event(('comp', kind, i2))
        outs.append((n, err(dty, e)))
    return outs


def c_is_idle(m, s, c, args, dty, site):
    cc = comp(m, s, args[0])
    if cc is None:
        return None
    return ret(s, is_idle_f(cc[2].term))


def c_requiring(m, s, c, args, dty, site):
    cc = comp(m, s, args[0])
    if cc is None:
        return None
    t = cc[2].term
    if s.lits.get(('idle', t)) is True:
        return ret(s, Enum(dty, 0, (K(0),)))
    return ret(s, Opq(dty, ('req', t)))


def c_exact(m, s, c, args, dty, site):
    cc = comp(m, s, args[0])
    if cc is None:
        return None
    t = cc[2].term
    if s.lits.get(('idle', t)) is True:
        return ret(s, K(0))
    return ret(s, symbol(('exact', t), 0, U64))


def c_tag_start(m, s, c, args, dty, site):
    return c_start(m, s, c, args, dty, site, 'start')


# ------------------------------------------------------------------ monolithic
def srefs_behind_mut(m, s, v, out, mutable=False):
    """places holding a &[u8] that a consumed reader value can advance (through &mut)"""
    if isinstance(v, Agg):
        for x in v.f:
            srefs_behind_mut(m, s, x, out)
    elif isinstance(v, Ref):
        c = m.read(s, v.root, v.path)
        if isinstance(c, SRef):
            out.append((v.root, v.path, c))
        elif isinstance(c, (Ref, Agg)):
            srefs_behind_mut(m, s, c, out)


def direct_srefs(v, out):
    if isinstance(v, Agg):
        for x in v.f:
            direct_srefs(x, out)
    elif isinstance(v, SRef):
        out.append(v)


def mono_read(m, s, reader, dty, site, what):
    """a third-party decoder pulls bytes from `reader`"""
    outs = []
    dr = []
    direct_srefs(reader, dr)
    n = s.copy()
    pl = []
    srefs_behind_mut(m, n, reader, pl)
    m.mon.on_io(m, n, 'mono_read', dict(reader=reader, direct=dr, places=pl, site=site))
    for root, path, c in pl:
        k = m.fresh_int('taken', 0, U64)
        add_fact(n, 'le', k - c.len)
        m.write(n, root, path, SRef(c.root, c.path, c.start + k, c.len - k))
        m.mon.on_io_ret(m, n, 'mono_read', dict(win=c, n=k, site=site), k)
    ity, ety = targ(m, dty, 0), targ(m, dty, 1)
    a = n.copy()
    item = m.mk(ity, m.fresh('item')) if ity is not None else UNIT
    a.event(('mono_read', dict(reader=reader, direct=dr, places=pl, item=item, err=None, site=site, what=what)))
    outs.append((a, ok(dty, item)))
    b = n.copy()
    e = Opq(ety, m.fresh('err'))
    b.event(('mono_read', dict(reader=reader, direct=dr, places=pl, item=None, err=e, site=site, what=what)))
    outs.append((b, err(dty, e)))
    return outs


def c_mono_decode(m, s, c, args, dty, site):
    return mono_read(m, s, args[1], dty, site, 'monolithic_decode')


def n_from_reader(m, s, c, args, dty, site):
    return mono_read(m, s, args[0], dty, site, c['path'])


def mono_write(m, s, item, writer, dty, site, what):
    """a third-party encoder pushes an arbitrary sequence of slices into `writer`"""
    n = s.copy()
    root = ('H', m.fresh('writer'))
    n.mem[root] = writer
    held = item
    for _ in range(4):
        if isinstance(held, Ref):
            held = m.read(n, held.root, held.path)
    n.event(('mono_write', dict(item=item, held=held, writer=writer, site=site, what=what)))
    res = []

    def step(st):
        """one more write call; ('back', state) or exits"""
        data_t = m.fresh('chunk')
        u8s = m.P.find_ty('[u8]')
        droot = ('S', data_t)
        ln = symbol(('len', ('d', data_t)), 0, ISIZE)
        st = st.copy()
        m.rty[droot] = u8s
        st.mem[droot] = Seq(u8s, ln, ('d', data_t))
        b = st.copy()
        backs, exits = [], []
        wr = write_contract(m, b, Ref(root), SRef(droot, (), K(0), ln), None, site)
        for x, v in wr:
            if isinstance(v, Enum) and v.k == ERR_:
                exits.append((x, v.f[0]))
            else:
                backs.append(x)
        for x in backs:
            x.mem.pop(droot, None)
        for x, _ in exits:
            x.mem.pop(droot, None)
        return backs, exits

    if m.unroll is not None:
        heads = [n]
        for _ in range(m.unroll + 1):
            nxt = []
            for h in heads:
                res.append((h, None))
                b, e = step(h)
                nxt.extend(b)
                res.extend(e)
            heads = nxt
        m.truncated += len(heads)
    else:
        def stepf(st):
            b, e = step(st)
            return b, [(None, st.copy(), None)] + [('werr', x, v) for x, v in e]
        for kind, st, v in m.fix(n, stepf, 'writer loop'):
            res.append((st, v if kind == 'werr' else None))
    outs = []
    ety = targ(m, dty, 1)
    for st, e in res:
        st = st.copy()
        st.mem.pop(root, None)
        if e is None:
            a = st.copy()
            a.event(('mono_write_ret', dict(err=None, site=site)))
            outs.append((a, ok(dty, UNIT)))
        b = st.copy()
        ev = Opq(ety, m.fresh('err'))
        b.event(('mono_write_ret', dict(err=ev, site=site)))
        outs.append((b, err(dty, ev)))
    return outs


def c_mono_encode(m, s, c, args, dty, site):
    return mono_write(m, s, args[1], args[2], dty, site, 'monolithic_encode')


def n_to_writer(m, s, c, args, dty, site):
    return mono_write(m, s, args[1], args[0], dty, site, c['path'])


def local_write_body(m, ty):
    """the generic body of `Write::write` for a local type"""
    p = adt_path(m.P, ty) if ty is not None else None
    if p is None:
        return None
    for k, b in m.P.bodies.items():
        if k.startswith('|') or '||' not in k:
            pass
        if b['path'].endswith('::write') and ('<' + p + '<') in b['path'] and 'std::io::Write' in b['path']:
            return b
    return None


def io_result_ty(m):
    return m.P.find_ty('std::result::Result<usize, std::io::Error>')


def write_contract(m, s, w, data, dty, site):
    """io::Write::write on a concrete or opaque writer"""
    if dty is None:
        dty = io_result_ty(m)
    loc, c = chase(m, s, w)
    if loc is None:
        loc = None
    if isinstance(c, SRef):
        outs = []
        for st, n in pmin(s, data.len, c.len):
            st = st.copy()
            d = SRef(c.root, c.path, c.start, n)
            sr = SRef(data.root, data.path, data.start, n)
            m.mon.on_copy(m, st, d, sr, site)
            m.clobber(st, d, sr)
            m.write(st, loc[0], loc[1], SRef(c.root, c.path, c.start + n, c.len - n))
            outs.append((st, ok(dty, n)))
        return outs
    if isinstance(c, Seq):
        st = s.copy()
        append(m, st, loc, c, data, site)
        return [(st, ok(dty, data.len))]
    if isinstance(c, Agg) and c.ty is not None:
        b = local_write_body(m, c.ty)
        if b is not None:
            return m.exec_body(b, [Ref(loc[0], loc[1]), data], s)
    if isinstance(c, Opq):
        info = dict(root=loc[0], path=loc[1], win=data, site=site)
        m.mon.on_io(m, s, 'write', info)
        outs = []
        st = s.copy()
        next_comp(m, st, loc[0], loc[1], c, 'wr')
        k = m.fresh_int('w', 0, U64)
        add_fact(st, 'le', k - data.len)
        st.event(('io', 'write', dict(info, n=k, err=None)))
        m.mon.on_io_ret(m, st, 'write', info, k)
        outs.append((st, ok(dty, k)))
        st = s.copy()
        next_comp(m, st, loc[0], loc[1], c, 'wr')
        e = Opq(targ(m, dty, 1), m.fresh('ioerr'))
        st.event(('io', 'write', dict(info, n=None, err=e)))
        m.mon.on_io_ret(m, st, 'write', dict(info, err=e), None)
        outs.append((st, err(dty, e)))
        return outs
    st = taint(s, 'write to %r' % (c,))
    return [(st, m.mk(dty, m.fresh('wr')))]


def c_write(m, s, c, args, dty, site):
    return write_contract(m, s, args[0], as_sref(m, s, args[1]), dty, site)


def c_write_all(m, s, c, args, dty, site):
    loc, w = chase(m, s, args[0])
    data = as_sref(m, s, args[1])
    if isinstance(w, Seq):
        st = s.copy()
        append(m, st, loc, w, data, site)
        return [(st, ok(dty, UNIT))]
    if not isinstance(w, Opq):
        return [(taint(s, 'write_all to %r' % (w,)), m.mk(dty, m.fresh('wa')))]
    info = dict(root=loc[0], path=loc[1], win=data, site=site)
    m.mon.on_io(m, s, 'write_all', info)
    st = s.copy()
    next_comp(m, st, loc[0], loc[1], w, 'wr')
    st.event(('io', 'write_all', dict(info, n=data.len, err=None)))
    m.mon.on_io_ret(m, st, 'write_all', info, data.len)
    outs = [(st, ok(dty, UNIT))]
    st = s.copy()
    next_comp(m, st, loc[0], loc[1], w, 'wr')
    e = Opq(targ(m, dty, 1), m.fresh('ioerr'))
    st.event(('io', 'write_all', dict(info, n=None, err=e)))
    m.mon.on_io_ret(m, st, 'write_all', dict(info, err=e), None)
    outs.append((st, err(dty, e)))
    return outs


def c_read(m, s, c, args, dty, site):
    loc, r = chase(m, s, args[0])
    win = as_sref(m, s, args[1])
    if isinstance(r, SRef):
        outs = []
        for st, n in pmin(s, win.len, r.len):
            st = st.copy()
            d = SRef(win.root, win.path, win.start, n)
            sr = SRef(r.root, r.path, r.start, n)
            m.mon.on_copy(m, st, d, sr, site)
            m.clobber(st, d, sr)
            m.write(st, loc[0], loc[1], SRef(r.root, r.path, r.start + n, r.len - n))
            outs.append((st, ok(dty, n)))
        return outs
    if not isinstance(r, Opq):
        return [(taint(s, 'read from %r' % (r,)), m.mk(dty, m.fresh('rd')))]
    info = dict(root=loc[0], path=loc[1], win=win, site=site)
    m.mon.on_io(m, s, 'read', info)
    st = s.copy()
    next_comp(m, st, loc[0], loc[1], r, 'rd')
    k = m.fresh_int('r', 0, U64)
    add_fact(st, 'le', k - win.len)
    m.clobber(st, win)
    st.event(('io', 'read', dict(info, n=k, err=None)))
    m.mon.on_io_ret(m, st, 'read', info, k)
    outs = [(st, ok(dty, k))]
    st = s.copy()
    next_comp(m, st, loc[0], loc[1], r, 'rd')
    m.clobber(st, win)
    e = Opq(targ(m, dty, 1), m.fresh('ioerr'))
    st.event(('io', 'read', dict(info, n=None, err=e)))
    m.mon.on_io_ret(m, st, 'read', dict(info, err=e), None)
    outs.append((st, err(dty, e)))
    return outs


def c_read_exact(m, s, c, args, dty, site):
    loc, r = chase(m, s, args[0])
    win = as_sref(m, s, args[1])
    if not isinstance(r, Opq):
        return [(taint(s, 'read_exact from %r' % (r,)), m.mk(dty, m.fresh('rd')))]
    info = dict(root=loc[0], path=loc[1], win=win, site=site)
    m.mon.on_io(m, s, 'read', info)
    st = s.copy()
    next_comp(m, st, loc[0], loc[1], r, 'rd')
    m.clobber(st, win)
    st.event(('io', 'read', dict(info, n=win.len, err=None)))
    m.mon.on_io_ret(m, st, 'read', info, win.len)
    outs = [(st, ok(dty, UNIT))]
    st = s.copy()
    next_comp(m, st, loc[0], loc[1], r, 'rd')
    m.clobber(st, win)
    e = Opq(targ(m, dty, 1), m.fresh('ioerr'))
    st.event(('io', 'read', dict(info, n=None, err=e)))
    m.mon.on_io_ret(m, st, 'read', dict(info, err=e), None)
    outs.append((st, err(dty, e)))
    return outs


def c_poll_read(m, s, c, args, dty, site):
    loc, r = chase(m, s, args[0])
    bloc, rb = chase(m, s, args[2])
    if not isinstance(rb, Agg) or len(rb.f) != 2 or not isinstance(rb.f[0], SRef):
        return [(taint(s, 'poll_read into %r' % (rb,)), m.mk(dty, m.fresh('pr')))]
    sr, filled = rb.f
    win = SRef(sr.root, sr.path, sr.start + filled, sr.len - filled)
    info = dict(root=loc[0], path=loc[1], win=win, site=site, cx=args[1])
    m.mon.on_io(m, s, 'read', info)
    rty = targ(m, dty, 0)
    outs = []

    def nxt(s):
        st = s.copy()
        if isinstance(r, Opq):
            next_comp(m, st, loc[0], loc[1], r, 'rd')
        m.clobber(st, win)
        return st
    st = nxt(s)
    k = m.fresh_int('r', 0, U64)
    add_fact(st, 'le', k - win.len)
    m.write(st, bloc[0], bloc[1], Agg(rb.ty, (sr, filled + k)))
    st.event(('io', 'read', dict(info, n=k, err=None)))
    m.mon.on_io_ret(m, st, 'read', info, k)
    outs.append((st, Enum(dty, READY_, (ok(rty, UNIT),))))
    st = nxt(s)
    e = Opq(targ(m, rty, 1), m.fresh('ioerr'))
    st.event(('io', 'read', dict(info, n=None, err=e)))
    m.mon.on_io_ret(m, st, 'read', dict(info, err=e), None)
    outs.append((st, Enum(dty, READY_, (err(rty, e),))))
    st = nxt(s)
    st.event(('io', 'read', dict(info, n=None, err=None, pending=True)))
    m.mon.on_io_ret(m, st, 'read', dict(info, pending=True), None)
    outs.append((st, Enum(dty, PENDING_, ())))
    return outs


def c_poll_write(m, s, c, args, dty, site):
    loc, r = chase(m, s, args[0])
    win = as_sref(m, s, args[2])
    info = dict(root=loc[0], path=loc[1], win=win, site=site, cx=args[1])
    m.mon.on_io(m, s, 'write', info)
    rty = targ(m, dty, 0)
    outs = []

    def nxt(s):
        st = s.copy()
        if isinstance(r, Opq):
            next_comp(m, st, loc[0], loc[1], r, 'wr')
        return st
    st = nxt(s)
    k = m.fresh_int('w', 0, U64)
    add_fact(st, 'le', k - win.len)
    st.event(('io', 'write', dict(info, n=k, err=None)))
    m.mon.on_io_ret(m, st, 'write', info, k)
    outs.append((st, Enum(dty, READY_, (ok(rty, k),))))
    st = nxt(s)
    e = Opq(targ(m, rty, 1), m.fresh('ioerr'))
    st.event(('io', 'write', dict(info, n=None, err=e)))
    m.mon.on_io_ret(m, st, 'write', dict(info, err=e), None)
    outs.append((st, Enum(dty, READY_, (err(rty, e),))))
    st = nxt(s)
    st.event(('io', 'write', dict(info, n=None, err=None, pending=True)))
    m.mon.on_io_ret(m, st, 'write', dict(info, pending=True), None)
    outs.append((st, Enum(dty, PENDING_, ())))
    return outs


# ------------------------------------------------------------------ conversions
def c_as_ref(m, s, c, args, dty, site):
    loc, v = chase(m, s, args[0])
    t = m.P.ty(dty)
    if isinstance(v, SRef):
        return ret(s, v)
    if t['k'] == 'ref' and m.P.ty(t['to'])['k'] in ('slice', 'str'):
        if isinstance(v, (Seq, Arr, Opq)) and loc is not None:
            ln = m.len_of(v)
            return ret(s, SRef(loc[0], loc[1], K(0), ln))
        return ret(taint(s, 'as_ref of %r' % (v,)), m.mk(dty, m.fresh('asref')))
    return ret(s, args[0] if isinstance(args[0], Ref) else m.mk(dty, m.fresh('asref')))


def c_default(m, s, c, args, dty, site):
    v = default_of(m, dty)
    if v is not None:
        return ret(s, v)
    return ret(s, m.mk(dty, m.fresh('default')))


def default_of(m, ty):
    t = m.P.ty(ty)
    k = t['k']
    if k == 'int':
        return K(0)
    if k == 'bool':
        return False
    if k == 'tuple':
        fs = [default_of(m, e) for e in t['elems']]
        if any(f is None for f in fs):
            return None
        return Agg(ty, fs) if fs else UNIT
    if k == 'array' and t['len'] is not None and t['len'] <= 64:
        e = default_of(m, t['elem'])
        return None if e is None else Arr(ty, [e] * t['len'])
    if k == 'adt':
        if t['path'] in ('std::vec::Vec', 'std::string::String'):
            return Seq(ty, K(0), ('empty',))
        if t['path'] == 'std::option::Option':
            return none(ty)
    return None


def c_clone(m, s, c, args, dty, site):
    return ret(s, deref(m, s, args[0]))


def struct_eq(m, a, b):
    """equality of std enums and tuples of them, where it is structural"""
    if isinstance(a, Lin) and isinstance(b, Lin):
        return EQ(a, b)
    if isinstance(a, Enum) and isinstance(b, Enum):
        if a.k != b.k:
            return False
        f = True
        for x, y in zip(a.f, b.f):
            g = True if x == y else struct_eq(m, x, y)
            if g is None:
                return None
            f = AND(f, g)
        return f
    if isinstance(b, Enum) and isinstance(a, Opq):
        a, b = b, a
    if isinstance(a, Enum) and isinstance(b, Opq):
        f = m.is_variant(b, a.k)
        for i, x in enumerate(a.f):
            g = struct_eq(m, x, m.proj(b, ('v', a.k, i)))
            if g is None:
                return None
            f = AND(f, g)
        return f
    if isinstance(a, Opq) and isinstance(b, Opq) and a.ty == b.ty:
        n = m.nvariants(a.ty)
        if n and all(m.nfields(a.ty, k) == 0 for k in range(n)):
            f = False
            for k in range(n):
                f = OR(f, AND(m.is_variant(a, k), m.is_variant(b, k)))
            return f
    return None


def c_eq(m, s, c, args, dty, site):
    a, b = deref_all(m, s, args[0]), deref_all(m, s, args[1])
    if isinstance(a, Lin) and isinstance(b, Lin):
        f = EQ(a, b)
    elif a == b:
        f = True
    else:
        f = struct_eq(m, a, b)
        if f is None:
            f = ('p', ('eqv', a, b))
    if c['name'] == 'ne':
        f = NOT(f)
    return ret(s, f)


def c_cmp(m, s, c, args, dty, site):
    a, b = deref_all(m, s, args[0]), deref_all(m, s, args[1])
    if isinstance(a, Lin) and isinstance(b, Lin):
        part = c['name'] == 'partial_cmp'
        oty = targ(m, dty, 0) if part else dty
        outs = []
        for k, f in ((0, LT(a, b)), (1, EQ(a, b)), (2, LT(b, a))):
            for x in assume(s, f):
                v = Enum(oty, k, ())
                outs.append((x, some(dty, v) if part else v))
        return outs
    return ret(s, m.mk(dty, ('cmpv', c['name'], a, b)))


def c_rel(m, s, c, args, dty, site):
    a, b = deref_all(m, s, args[0]), deref_all(m, s, args[1])
    if isinstance(a, Lin) and isinstance(b, Lin):
        return ret(s, {'lt': LT(a, b), 'le': LE(a, b), 'gt': LT(b, a), 'ge': LE(b, a)}[c['name']])
    return None


def c_from(m, s, c, args, dty, site):
    a = args[0]
    if isinstance(a, Opq) and a.ty == dty:
        return ret(s, a)
    t = m.P.ty(dty)
    if len(c['targs']) > 1 and m.P.ty(c['targs'][1]).get('path', '').endswith('error::ErrorKind') and a_is_error_like(m, dty):
        return n_kind_error(m, s, dict(c, name='error'), args, dty, site)
    if t['k'] == 'adt' and a_is_error_like(m, dty):
        e = Opq(dty, ('from', a))
        return ret(s, e)
    return ret(s, m.mk(dty, ('from', a)))


def a_is_error_like(m, ty):
    return (m.P.ty(ty).get('path') or '').endswith('Error')


STD = ('std::', 'core::', 'alloc::')


def std_path(m, v):
    if isinstance(v, (Agg, Enum, Arr)) and isinstance(v.ty, int):
        p = m.P.ty(v.ty).get('path') or ''
        return p.split('::')[-1] if p.startswith(STD) else ''
    return ''


def items_of(m, s, it, site):
    """[(state, items)] of a short iterator over known items, or None"""
    p = std_path(m, it)
    if isinstance(it, Enum) and p == 'Option':
        return [(s, [] if it.k == NONE_ else [it.f[0]])]
    if isinstance(it, Arr):
        return [(s, list(it.e))]
    if not isinstance(it, Agg):
        return None
    if p == 'Once':
        v = it.f[0]
        while isinstance(v, Agg) and v.ty is not None and (m.P.ty(v.ty).get('path') or '').startswith(('std::option', 'core::option', 'std::array')):
            v = v.f[0]
        if isinstance(v, Enum) and (m.P.ty(v.ty).get('path') or '') == 'std::option::Option':
            return [(s, [] if v.k == NONE_ else [v.f[0]])]
        return [(s, [v])]
    if p in ('Filter', 'Map') and len(it.f) == 2:
        base = items_of(m, s, it.f[0], site)
        if base is None:
            return None
        outs = []
        for st, vs in base:
            cur = [(st, [])]
            for v in vs:
                nxt = []
                for x, acc in cur:
                    if p == 'Filter':
                        root = ('H', m.fresh('flt'))
                        x = x.copy()
                        x.mem[root] = v
                        for y, keep in c_fncall(m, x, dict(path='filter'), [it.f[1], Agg(None, (Ref(root),))], m.P.find_ty('bool'), site):
                            f = m.as_bool(keep)
                            for z, on in [(z, True) for z in assume(y, f)] + [(z, False) for z in assume(y, NOT(f))]:
                                z = z.copy()
                                z.mem.pop(root, None)
                                nxt.append((z, acc + [v] if on else acc))
                    else:
                        t = m.P.ty(it.f[1].ty) if isinstance(it.f[1], Agg) and it.f[1].ty is not None else {}
                        if t.get('k') != 'closure' or t['key'] not in m.P.bodies:
                            return None
                        rty = m.P.bodies[t['key']]['locals'][0][0]
                        for y, q in c_fncall(m, x, dict(path='map'), [it.f[1], Agg(None, (v,))], rty, site):
                            nxt.append((y, acc + [q]))
                cur = nxt
            outs += cur
        return outs
    return None


def c_extend(m, s, c, args, dty, site):
    loc, v0 = chase(m, s, args[0])
    outs = items_of(m, s, args[1], site)
    if outs is None:
        st = taint(s.copy(), 'extend with %r' % (args[1],))
        outs = [(st, None)]
    res = []
    for st, items in outs:
        st = st.copy()
        v = m.read(st, loc[0], loc[1])
        for item in items or ():
            st.event(('extend', dict(root=loc[0], path=loc[1], item=item, site=site)))
            m.mon.on_io(m, st, 'extend', dict(root=loc[0], path=loc[1], item=item, site=site))
        if items != []:
            if isinstance(v, Opq):
                m.write(st, loc[0], loc[1], Opq(v.ty, m.fresh('ext')))
            elif isinstance(v, Seq):
                ln = v.len + K(len(items)) if items else m.fresh_int('n', 0, ISIZE)
                m.write(st, loc[0], loc[1], Seq(v.ty, ln, m.fresh('ext')))
        res.append((st, UNIT))
    return res


# ------------------------------------------------------------------ consuming iterators
def advance(m, s, loc):
    """[(state, item or None)] of a slice iterator or range in place"""
    it = m.read(s, loc[0], loc[1])
    outs = []
    if isinstance(it, Iter):
        for x in assume(s, LT(it.start, it.end)):
            x = x.copy()
            m.write(x, loc[0], loc[1], Iter(it.root, it.path, it.start + K(1), it.end, it.kind, it.extra))
            m.mon.on_read_elem(m, x, it.root, it.path, it.start)
            r = Ref(it.root, it.path + (('e', it.start),))
            outs.append((x, m.read(x, r.root, r.path) if it.kind == 'val' else r))
        outs += [(x, None) for x in assume(s, LE(it.end, it.start))]
        return outs
    for x in assume(s, LT(it.f[0], it.f[1])):
        x = x.copy()
        m.write(x, loc[0], loc[1], Agg(it.ty, (it.f[0] + K(1), it.f[1])))
        outs.append((x, it.f[0]))
    return outs + [(x, None) for x in assume(s, LE(it.f[1], it.f[0]))]


def plain_iter(m, it):
    return isinstance(it, Iter) or (isinstance(it, Agg) and std_path(m, it) == 'Range' and len(it.f) == 2
                                    and isinstance(it.f[0], Lin) and isinstance(it.f[1], Lin))


def n_consume(m, s, c, args, dty, site):
    """Iterator::{all, any, position, find, for_each} over a slice or range"""
    name = c['name']
    st = s.copy()
    if name == 'for_each':
        loc = (('H', m.fresh('it')), ())
        st.mem[loc[0]] = args[0]
        it = args[0]
    else:
        loc, it = chase(m, st, args[0])
    if not plain_iter(m, it):
        return None
    start = it.start if isinstance(it, Iter) else it.f[0]
    f = args[1]
    if not isinstance(f, Ref):
        root = ('H', m.fresh('clo'))
        st.mem[root] = f
        f = Ref(root)
    rty = UNITTY(m) if name == 'for_each' else m.P.find_ty('bool')

    def step(x):
        backs, exits = [], []
        for y, v in advance(m, x, loc):
            if v is None:
                exits.append(('end', y, None))
                continue
            a = v
            hold = None
            if name == 'find':
                hold = ('H', m.fresh('fnd'))
                y.mem[hold] = v
                a = Ref(hold)
            for z, r in c_fncall(m, y, dict(path=name), [f, Agg(None, (a,))], rty, site):
                if name == 'for_each':
                    backs.append(z)
                    continue
                g = m.as_bool(r)
                stop = NOT(g) if name == 'all' else g
                for q in assume(z, stop):
                    exits.append(('hit', q, v))
                backs.extend(assume(z, NOT(stop)))
        return backs, exits
    res = []
    if m.unroll is not None:
        heads = [st]
        for _ in range(m.unroll + 1):
            nxt = []
            for h in heads:
                b, e = step(h)
                nxt.extend(b)
                res.extend(e)
            heads = nxt
        m.truncated += len(heads)
    else:
        res = m.fix(st, step, 'Iterator::%s at %s' % (name, site))
    outs = []
    for kind, x, v in res:
        if kind == 'end':
            r = UNIT if name == 'for_each' else name == 'all' if name in ('all', 'any') else none(dty)
        elif name in ('all', 'any'):
            r = name == 'any'
        elif name == 'find':
            r = some(dty, v)
        else:
            cur = m.read(x, loc[0], loc[1])
            r = some(dty, (cur.start if isinstance(cur, Iter) else cur.f[0]) - start - K(1))
        outs.append((x, r))
    return outs


def n_fold(m, s, c, args, dty, site):
    """Iterator::fold over a slice or range"""
    it, init, f = args
    if not plain_iter(m, it):
        return None
    st = s.copy()
    loc, acc = (('H', m.fresh('it')), ()), ('H', m.fresh('acc'))
    st.mem[loc[0]] = it
    st.mem[acc] = init
    m.rty[acc] = dty
    if not isinstance(f, Ref):
        root = ('H', m.fresh('clo'))
        st.mem[root] = f
        f = Ref(root)

    def step(x):
        backs, exits = [], []
        for y, v in advance(m, x, loc):
            if v is None:
                exits.append(('end', y, None))
                continue
            for z, r in c_fncall(m, y, dict(path='fold'), [f, Agg(None, (m.read(y, acc, ()), v))], dty, site):
                z = z.copy()
                m.write(z, acc, (), r)
                backs.append(z)
        return backs, exits
    a, b = (it.start, it.end) if isinstance(it, Iter) else it.f
    n = (b - a).const
    if n is not None and n <= 16:
        n = max(n, 0)
    else:
        n = m.unroll
    if n is not None:
        heads, res = [st], []
        for _ in range(n + 1):
            nxt = []
            for h in heads:
                k, e = step(h)
                nxt.extend(k)
                res.extend(e)
            heads = nxt
        m.truncated += len(heads)
    else:
        res = m.fix(st, step, 'Iterator::fold at %s' % site)
    return [(x, m.read(x, acc, ())) for _, x, _ in res]


def n_copied(m, s, c, args, dty, site):
    it = args[0]
    if not isinstance(it, Iter) or it.kind != 'ref':
        return None
    return ret(s, Iter(it.root, it.path, it.start, it.end, 'val', it.extra))


def n_skip_take(m, s, c, args, dty, site):
    """Iterator::{skip, take} over a slice or range"""
    it, n = args
    if not plain_iter(m, it) or not isinstance(n, Lin):
        return None
    a, b = (it.start, it.end) if isinstance(it, Iter) else it.f
    outs = []
    for x, cut in [(x, a + n) for x in assume(s, LE(a + n, b))] + [(x, b) for x in assume(s, LT(b, a + n))]:
        lo, hi = (cut, b) if c['name'] == 'skip' else (a, cut)
        outs.append((x, Iter(it.root, it.path, lo, hi, it.kind, it.extra) if isinstance(it, Iter) else Agg(it.ty, (lo, hi))))
    return outs


def UNITTY(m):
    for i, t in enumerate(m.P.T):
        if t.get('k') == 'tuple' and not t['elems']:
            return i
    return None


def n_once(m, s, c, args, dty, site):
    return ret(s, Agg(dty, (args[0],)))


# ------------------------------------------------------------------ functions / closures
def c_fncall(m, s, c, args, dty, site):
    f = args[0]
    tup = args[1] if len(args) > 1 else UNIT
    a = list(tup.f) if isinstance(tup, Agg) else [tup]
    g = f
    n = 0
    while isinstance(g, Ref) and n < 8:
        g2 = m.read(s, g.root, g.path)
        if isinstance(g2, Agg) and g2.ty is not None and m.P.ty(g2.ty)['k'] == 'closure':
            t = m.P.ty(g2.ty)
            b = m.P.bodies.get(t['key'])
            if b is not None:
                selfty = m.P.ty(b['locals'][1][0])
                a0 = g if selfty['k'] == 'ref' else g2
                return m.exec_body(b, closure_args(b, a0, a), s)
            break
        g = g2
        n += 1
    if isinstance(g, Agg) and g.ty is not None and m.P.ty(g.ty)['k'] == 'closure':
        t = m.P.ty(g.ty)
        b = m.P.bodies.get(t['key'])
        if b is not None:
            selfty = m.P.ty(b['locals'][1][0])
            if selfty['k'] == 'ref':
                root = ('H', m.fresh('clo'))
                s = s.copy()
                s.mem[root] = g
                a0 = Ref(root)
            else:
                a0 = g
            return m.exec_body(b, closure_args(b, a0, a), s)
    if isinstance(g, Fn):
        return m.call(s, g.callee, a, dty, site, False)
    return opaque_fn(m, s, g, a, dty, site)


def closure_args(b, a0, a):
    return [a0] + a


def opaque_fn(m, s, f, args, dty, site):
    st = s.copy()
    t = f.term if isinstance(f, Opq) else repr(f)
    r = m.mk(dty, ('app', m.fresh('c')[2], t))
    st.event(('app', dict(f=t, args=tuple(args), res=r, site=site)))
    # arguments passed by mutable reference may change
    return ret(st, r)


# ------------------------------------------------------------------ slices and vectors
def index_range(m, s, sr, idx):
    """(start, end) of an index argument relative to the slice, or None"""
    if isinstance(idx, Lin):
        return idx, None
    if isinstance(idx, Agg) and idx.ty is not None:
        p = (m.P.ty(idx.ty).get('path') or '').split('::')[-1]
        if p == 'RangeFrom':
            return idx.f[0], sr.len
        if p == 'RangeTo':
            return K(0), idx.f[0]
        if p == 'Range':
            return idx.f[0], idx.f[1]
        if p == 'RangeFull':
            return K(0), sr.len
        if p == 'RangeInclusive':
            return idx.f[0], idx.f[1] + K(1)
        if p == 'RangeToInclusive':
            return K(0), idx.f[0] + K(1)
    return None


def n_index(m, s, c, args, dty, site):
    sr = as_sref(m, s, args[0])
    if sr is None:
        return None
    r = index_range(m, s, sr, args[1])
    if r is None:
        return None
    a, b = r
    if b is None:
        f = LT(a, sr.len)
        good, bad = assume(s, f), assume(s, NOT(f))
        m.panic_check(s, bad, 'index', site)
        return [(x, Ref(sr.root, sr.path + (('e', sr.start + a),))) for x in good]
    f = AND(LE(a, b), LE(b, sr.len))
    good, bad = assume(s, f), assume(s, NOT(f))
    m.panic_check(s, bad, 'slice-range', site)
    return [(x, SRef(sr.root, sr.path, sr.start + a, b - a)) for x in good]


def n_get(m, s, c, args, dty, site):
    sr = as_sref(m, s, args[0])
    if sr is None:
        return None
    r = index_range(m, s, sr, args[1])
    if r is None:
        return None
    a, b = r
    if b is None:
        f = LT(a, sr.len)
        v = Ref(sr.root, sr.path + (('e', sr.start + a),))
    else:
        f = AND(LE(a, b), LE(b, sr.len))
        v = SRef(sr.root, sr.path, sr.start + a, b - a)
    return [(x, some(dty, v)) for x in assume(s, f)] + [(x, none(dty)) for x in assume(s, NOT(f))]


def n_copy_from_slice(m, s, c, args, dty, site):
    d, r = as_sref(m, s, args[0]), as_sref(m, s, args[1])
    if d is None or r is None:
        return None
    f = EQ(d.len, r.len)
    good, bad = assume(s, f), assume(s, NOT(f))
    m.panic_check(s, bad, 'copy-length', site)
    outs = []
    for x in good:
        x = x.copy()
        m.mon.on_copy(m, x, d, r, site)
        m.clobber(x, d, r)
        outs.append((x, UNIT))
    return outs


def n_copy_within(m, s, c, args, dty, site):
    """memory moved inside a slice; only monitors that follow such moves (and searches that do not look at contents) get it exactly"""
    if not (m.silent or m.mon.moves):
        return None
    sr = as_sref(m, s, args[0])
    r = index_range(m, s, sr, args[1]) if sr is not None else None
    if r is None or r[1] is None or not isinstance(args[2], Lin):
        return None
    a, b = r
    f = AND(AND(LE(a, b), LE(b, sr.len)), LE(args[2] + (b - a), sr.len))
    good, bad = assume(s, f), assume(s, NOT(f))
    m.panic_check(s, bad, 'copy-within', site)
    outs = []
    for x in good:
        x = x.copy()
        src = SRef(sr.root, sr.path, sr.start + a, b - a)
        dst = SRef(sr.root, sr.path, sr.start + args[2], b - a)
        m.mon.on_move(m, x, dst, src, site)
        m.clobber(x, sr)
        outs.append((x, UNIT))
    return outs


def n_fill(m, s, c, args, dty, site):
    d = as_sref(m, s, args[0])
    if d is None:
        return None
    x = s.copy()
    m.mon.on_store_range(m, x, d, args[1], site)
    m.clobber(x, d)
    return ret(x, UNIT)


def n_len(m, s, c, args, dty, site):
    sr = as_sref(m, s, args[0])
    if sr is None:
        return None
    return ret(s, sr.len)


def n_chars(m, s, c, args, dty, site):
    sr = as_sref(m, s, args[0])
    if sr is None:
        return None
    return ret(s, Opq(dty, ('chars', sr.root, sr.path, sr.len)))


def n_count(m, s, c, args, dty, site):
    """number of characters of a string: at most its bytes, and not more than four times fewer"""
    t = args[0].term if args and isinstance(args[0], Opq) else None
    if not (isinstance(t, tuple) and t[0] == 'chars'):
        return None
    n = symbol(('nchars',) + t[1:], 0, ISIZE)
    return [(x, n) for y in assume(s, LE(n, t[3])) for x in assume(y, LE(t[3], n.scale(4)))]


def n_is_empty(m, s, c, args, dty, site):
    sr = as_sref(m, s, args[0])
    if sr is None:
        return None
    return ret(s, EQ(sr.len, K(0)))


def n_same_slice(m, s, c, args, dty, site):
    sr = as_sref(m, s, args[0])
    if sr is None:
        return None
    return ret(s, sr)


def n_split_at(m, s, c, args, dty, site):
    sr = as_sref(m, s, args[0])
    if sr is None:
        return None
    k = args[1]
    f = LE(k, sr.len)
    good, bad = assume(s, f), assume(s, NOT(f))
    m.panic_check(s, bad, 'split_at', site)
    return [(x, Agg(dty, (SRef(sr.root, sr.path, sr.start, k), SRef(sr.root, sr.path, sr.start + k, sr.len - k))))
            for x in good]


def n_first(m, s, c, args, dty, site):
    sr = as_sref(m, s, args[0])
    if sr is None:
        return None
    f = LT(K(0), sr.len)
    i = sr.start if c['name'].startswith('first') else sr.start + sr.len - K(1)
    return [(x, some(dty, Ref(sr.root, sr.path + (('e', i),)))) for x in assume(s, f)] + \
           [(x, none(dty)) for x in assume(s, NOT(f))]


def n_iter(m, s, c, args, dty, site):
    sr = as_sref(m, s, args[0])
    if sr is None:
        return None
    return ret(s, Iter(sr.root, sr.path, sr.start, sr.start + sr.len, 'ref'))


def n_into_iter(m, s, c, args, dty, site):
    v = args[0]
    if isinstance(v, Iter) or is_zip(m, v):
        return ret(s, v)
    if isinstance(v, (SRef, Ref)):
        return n_iter(m, s, c, args, dty, site)
    if isinstance(v, Agg) and v.ty is not None and (m.P.ty(v.ty).get('path') or '').startswith(('std::ops::Range', 'core::ops::Range')):
        return ret(s, v)
    return None


def n_next(m, s, c, args, dty, site):
    loc, it = chase(m, s, args[0])
    if is_zip(m, it):
        return zip_next(m, s, c, loc, it, dty, site)
    if isinstance(it, Iter):
        outs = []
        for x in assume(s, LT(it.start, it.end)):
            x = x.copy()
            idx = it.start
            m.write(x, loc[0], loc[1], Iter(it.root, it.path, it.start + K(1), it.end, it.kind, it.extra))
            m.mon.on_read_elem(m, x, it.root, it.path, idx)
            r = Ref(it.root, it.path + (('e', idx),))
            v = r
            if it.kind == 'val':
                v = m.read(x, r.root, r.path)
            outs.append((x, some(dty, v)))
        for x in assume(s, LE(it.end, it.start)):
            outs.append((x, none(dty)))
        return outs
    if isinstance(it, Agg) and it.ty is not None and (m.P.ty(it.ty).get('path') or '').endswith('ops::Range') \
            and isinstance(it.f[0], Lin) and isinstance(it.f[1], Lin):
        outs = []
        a, b = it.f[0], it.f[1]
        for x in assume(s, LT(a, b)):
            x = x.copy()
            m.write(x, loc[0], loc[1], Agg(it.ty, (a + K(1), b)))
            outs.append((x, some(dty, a)))
        for x in assume(s, LE(b, a)):
            outs.append((x, none(dty)))
        return outs
    if isinstance(it, Opq):
        outs = []
        ity = targ(m, dty, 0)
        st = s.copy()
        n = next_comp(m, st, loc[0], loc[1], it, 'it')
        item = m.mk(ity, m.fresh('nx'))
        st.event(('next', dict(root=loc[0], path=loc[1], term=it.term, ty=it.ty, item=item, after=n.term, site=site)))
        outs.append((st, some(dty, item)))
        st = s.copy()
        n = next_comp(m, st, loc[0], loc[1], it, 'it')
        st.event(('next', dict(root=loc[0], path=loc[1], term=it.term, ty=it.ty, item=None, after=n.term, site=site)))
        outs.append((st, none(dty)))
        return outs
    return None


def n_next_back(m, s, c, args, dty, site):
    loc, it = chase(m, s, args[0])
    if isinstance(it, Iter):
        outs = []
        for x in assume(s, LT(it.start, it.end)):
            x = x.copy()
            idx = it.end - K(1)
            m.write(x, loc[0], loc[1], Iter(it.root, it.path, it.start, idx, it.kind, it.extra))
            m.mon.on_read_elem(m, x, it.root, it.path, idx)
            r = Ref(it.root, it.path + (('e', idx),))
            v = r
            if it.kind == 'val':
                v = m.read(x, r.root, r.path)
            outs.append((x, some(dty, v)))
        for x in assume(s, LE(it.end, it.start)):
            outs.append((x, none(dty)))
        return outs
    if isinstance(it, Agg) and it.ty is not None and (m.P.ty(it.ty).get('path') or '').endswith('ops::Range') \
            and isinstance(it.f[0], Lin) and isinstance(it.f[1], Lin):
        outs = []
        a, b = it.f[0], it.f[1]
        for x in assume(s, LT(a, b)):
            x = x.copy()
            m.write(x, loc[0], loc[1], Agg(it.ty, (a, b - K(1))))
            outs.append((x, some(dty, b - K(1))))
        for x in assume(s, LE(b, a)):
            outs.append((x, none(dty)))
        return outs
    return None


def is_zip(m, it):
    return isinstance(it, Agg) and it.ty is not None and (m.P.ty(it.ty).get('path') or '').endswith('::Zip') and len(it.f) >= 2


def n_zip(m, s, c, args, dty, site):
    a, b = args
    if isinstance(b, (SRef, Ref)):
        r = n_iter(m, s, c, [b], dty, site)
        if not r:
            return None
        s, b = r[0]
    if not all(isinstance(x, Iter) or (isinstance(x, Agg) and x.ty is not None and (m.P.ty(x.ty).get('path') or '').endswith('ops::Range'))
               for x in (a, b)):
        return None
    return ret(s, Agg(dty, (a, b, K(0), K(0))[:max(2, m.nfields(dty, 0))]))


def zip_next(m, s, c, loc, it, dty, site):
    t = m.P.ty(targ(m, dty, 0))
    if t['k'] != 'tuple' or len(t['elems']) != 2:
        return None
    oty = [option_of(m, x) for x in t['elems']]
    if None in oty:
        oty = [dty, dty]
    outs = []
    r0 = n_next(m, s, c, [Ref(loc[0], loc[1] + (('f', 0),))], oty[0], site)
    if r0 is None:
        return None
    for x, v in r0:
        if v.k == 0:
            outs.append((x, none(dty)))
            continue
        r1 = n_next(m, x, c, [Ref(loc[0], loc[1] + (('f', 1),))], oty[1], site)
        if r1 is None:
            return None
        for y, u in r1:
            outs.append((y, none(dty)) if u.k == 0 else (y, some(dty, Agg(targ(m, dty, 0), (v.f[0], u.f[0])))))
    return outs


def option_of(m, ty):
    for i, t in enumerate(m.P.T):
        if t.get('k') == 'adt' and t.get('path') == 'std::option::Option' and t['args'] == [ty]:
            return i
    return None


def n_copied(m, s, c, args, dty, site):
    it = args[0]
    if isinstance(it, Iter):
        return ret(s, Iter(it.root, it.path, it.start, it.end, 'val', it.extra))
    return None


def n_vec_new(m, s, c, args, dty, site):
    return ret(s, Seq(dty, K(0), ('empty',)))


def n_from_elem(m, s, c, args, dty, site):
    return ret(s, Seq(dty, args[1], ('rep', args[0])))


def append(m, st, loc, v, sr, site):
    m.mon.on_append(m, st, Ref(loc[0], loc[1]), sr, site)
    nl = v.len + sr.len
    add_fact(st, 'le', nl - K(ISIZE))
    m.write(st, loc[0], loc[1], Seq(v.ty, nl, m.fresh('app')))


def n_extend_from_slice(m, s, c, args, dty, site):
    loc, v = chase(m, s, args[0])
    sr = as_sref(m, s, args[1])
    if not isinstance(v, Seq) or sr is None:
        return None
    st = s.copy()
    append(m, st, loc, v, sr, site)
    return ret(st, UNIT)


def n_push(m, s, c, args, dty, site):
    loc, v = chase(m, s, args[0])
    if not isinstance(v, Seq):
        return None
    st = s.copy()
    st.event(('push', dict(root=loc[0], path=loc[1], val=args[1], site=site)))
    nl = v.len + K(1)
    add_fact(st, 'le', nl - K(ISIZE))
    m.write(st, loc[0], loc[1], Seq(v.ty, nl, m.fresh('app')))
    return ret(st, UNIT)


def n_clear(m, s, c, args, dty, site):
    loc, v = chase(m, s, args[0])
    if not isinstance(v, Seq):
        return None
    st = s.copy()
    m.write(st, loc[0], loc[1], Seq(v.ty, K(0), ('empty',)))
    return ret(st, UNIT)


def n_truncate(m, s, c, args, dty, site):
    loc, v = chase(m, s, args[0])
    if not isinstance(v, Seq):
        return None
    outs = []
    for st, n in pmin(s, args[1], v.len):
        st = st.copy()
        m.write(st, loc[0], loc[1], Seq(v.ty, n, m.fresh('trn')))
        outs.append((st, UNIT))
    return outs


def n_pop(m, s, c, args, dty, site):
    loc, v = chase(m, s, args[0])
    if not isinstance(v, Seq):
        return None
    outs = [(x, none(dty)) for x in assume(s, EQ(v.len, K(0)))]
    for st in assume(s, LT(K(0), v.len)):
        st = st.copy()
        m.write(st, loc[0], loc[1], Seq(v.ty, v.len - K(1), m.fresh('pop')))
        outs.append((st, some(dty, m.mk(targ(m, dty, 0), m.fresh('el')))))
    return outs


def n_remove(m, s, c, args, dty, site):
    loc, v = chase(m, s, args[0])
    if not isinstance(v, Seq):
        return None
    f = LT(args[1], v.len)
    m.panic_check(s, assume(s, NOT(f)), 'remove', site)
    outs = []
    for st in assume(s, f):
        st = st.copy()
        m.write(st, loc[0], loc[1], Seq(v.ty, v.len - K(1), m.fresh('rem')))
        outs.append((st, m.mk(dty, m.fresh('el'))))
    return outs


def n_insert(m, s, c, args, dty, site):
    loc, v = chase(m, s, args[0])
    if not isinstance(v, Seq):
        return None
    f = LE(args[1], v.len)
    m.panic_check(s, assume(s, NOT(f)), 'insert', site)
    outs = []
    for st in assume(s, f):
        st = st.copy()
        add_fact(st, 'le', v.len + K(1) - K(ISIZE))
        m.write(st, loc[0], loc[1], Seq(v.ty, v.len + K(1), m.fresh('ins')))
        outs.append((st, UNIT))
    return outs


def n_split_off(m, s, c, args, dty, site):
    loc, v = chase(m, s, args[0])
    if not isinstance(v, Seq):
        return None
    f = LE(args[1], v.len)
    m.panic_check(s, assume(s, NOT(f)), 'split_off', site)
    outs = []
    for st in assume(s, f):
        st = st.copy()
        m.write(st, loc[0], loc[1], Seq(v.ty, args[1], m.fresh('spl')))
        outs.append((st, Seq(dty, v.len - args[1], m.fresh('spl'))))
    return outs


def n_resize(m, s, c, args, dty, site):
    loc, v = chase(m, s, args[0])
    if not isinstance(v, Seq):
        return None
    st = s.copy()
    m.write(st, loc[0], loc[1], Seq(v.ty, args[1], m.fresh('rsz')))
    return ret(st, UNIT)


def n_reserve(m, s, c, args, dty, site):
    """Vec::reserve / reserve_exact: capacity overflow panics, an absurd size aborts."""
    loc, v = chase(m, s, args[0])
    if not isinstance(v, Seq):
        return None
    st = s.copy()
    st.event(('reserve', dict(root=loc[0], path=loc[1], n=args[1], site=site)))
    m.mon.on_io(m, st, 'reserve', dict(root=loc[0], path=loc[1], n=args[1], site=site))
    f = LE(v.len + args[1], K(ISIZE))
    bad = assume(st, NOT(f))
    m.panic_check(st, bad, 'capacity', site)
    return [(x, UNIT) for x in assume(st, f)]


def n_try_reserve(m, s, c, args, dty, site):
    return [(s, ok(dty, UNIT)), (s.copy(), err(dty, Opq(targ(m, dty, 1), m.fresh('reserve'))))]


def n_capacity(m, s, c, args, dty, site):
    sr = as_sref(m, s, args[0])
    if sr is None:
        return None
    k = m.fresh_int('cap', 0, ISIZE)
    st = s.copy()
    add_fact(st, 'le', sr.len - k)
    return ret(st, k)


def n_utf8(m, s, c, args, dty, site):
    v = args[0]
    a, b = s.copy(), s.copy()
    sty, ety = targ(m, dty, 0), targ(m, dty, 1)
    if isinstance(v, Seq):
        good = Seq(sty, v.len, v.term)
    elif isinstance(v, SRef):
        good = v
    else:
        good = m.mk(sty, ('utf8', v))
    e = Opq(ety, m.fresh('utf8err'))
    a.event(('utf8', dict(arg=v, err=None, res=good, site=site)))
    b.event(('utf8', dict(arg=v, err=e, res=None, site=site)))
    return [(a, ok(dty, good)), (b, err(dty, e))]


def n_unchecked(m, s, c, args, dty, site):
    v = args[0]
    if isinstance(v, Seq):
        return ret(s, Seq(dty, v.len, v.term))
    if isinstance(v, SRef):
        return ret(s, v)
    return ret(s, m.mk(dty, ('str', v)))


def n_into_bytes(m, s, c, args, dty, site):
    v = args[0]
    if isinstance(v, Seq):
        return ret(s, Seq(dty, v.len, v.term))
    return None


# ------------------------------------------------------------------ memory
def n_replace(m, s, c, args, dty, site):
    r = args[0]
    if not isinstance(r, Ref):
        return None
    old = m.read(s, r.root, r.path)
    st = s.copy()
    m.write(st, r.root, r.path, args[1])
    return ret(st, old)


def n_take(m, s, c, args, dty, site):
    r = args[0]
    if not isinstance(r, Ref):
        return None
    old = m.read(s, r.root, r.path)
    d = default_of(m, dty)
    if d is None:
        if m.P.ty(dty)['k'] in ('param', 'alias'):
            d = m.mk(dty, m.fresh('default'))
        else:
            return None
    st = s.copy()
    m.write(st, r.root, r.path, d)
    return ret(st, old)


def n_swap(m, s, c, args, dty, site):
    a, b = args
    if not (isinstance(a, Ref) and isinstance(b, Ref)):
        return None
    x, y = m.read(s, a.root, a.path), m.read(s, b.root, b.path)
    st = s.copy()
    m.write(st, a.root, a.path, y)
    m.write(st, b.root, b.path, x)
    return ret(st, UNIT)


def n_deref(m, s, c, args, dty, site):
    """Deref/DerefMut: identity on Box, Pin, &mut T; Vec/String -> slice"""
    t = m.P.ty(dty)
    if t['k'] == 'ref' and m.P.ty(t['to'])['k'] in ('slice', 'str'):
        sr = as_sref(m, s, args[0])
        return None if sr is None else ret(s, sr)
    v = args[0]
    if isinstance(v, Ref):
        c0 = m.read(s, v.root, v.path)
        if isinstance(c0, (Ref, SRef)):
            return ret(s, c0)
        return ret(s, v)
    return None


def n_identity(m, s, c, args, dty, site):
    return ret(s, args[0])


def n_unit(m, s, c, args, dty, site):
    return ret(s, UNIT)


# ------------------------------------------------------------------ integers
def split_range(m, s, e, lo, hi):
    inr = AND(LE(K(lo), e), LE(e, K(hi)))
    return assume(s, inr), assume(s, LT(e, K(lo))), assume(s, LT(K(hi), e))


INT_RE = re.compile(r'(?:core|std)::num::<impl (\w+)>::(\w+)')


def n_int(m, s, ity, name, args, dty, site):
    lo, hi = m.bounds(ity)
    a = args[0]
    b = args[1] if len(args) > 1 else None
    if not isinstance(a, Lin):
        return None
    ops = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}
    mm = re.match(r'(checked|saturating|wrapping|overflowing|unchecked|strict)_(add|sub|mul)$', name)
    if mm and isinstance(b, Lin):
        e = m.arith(ops[mm.group(2)], a, b)
        if e is None:
            e = symbol(('mul', a, b), -(1 << 127), 1 << 127)
        good, lows, highs = split_range(m, s, e, lo, hi)
        k = mm.group(1)
        if k == 'checked':
            return [(x, some(dty, e)) for x in good] + [(x, none(dty)) for x in lows + highs]
        if k == 'saturating':
            return [(x, e) for x in good] + [(x, K(lo)) for x in lows] + [(x, K(hi)) for x in highs]
        if k == 'wrapping':
            w = symbol(('wrap', ops[mm.group(2)], a, b, ity), lo, hi)
            return [(x, e) for x in good] + [(x, w) for x in lows + highs]
        if k == 'overflowing':
            w = symbol(('wrap', ops[mm.group(2)], a, b, ity), lo, hi)
            return [(x, Agg(dty, (e, False))) for x in good] + [(x, Agg(dty, (w, True))) for x in lows + highs]
        if k == 'strict':
            m.panic_check(s, lows + highs, 'overflow', site)
        return [(x, e) for x in good]
    if name in ('min', 'max') and isinstance(b, Lin):
        le, gt = split_le(s, a, b)
        if name == 'min':
            return [(x, a) for x in le] + [(x, b) for x in gt]
        return [(x, b) for x in le] + [(x, a) for x in gt]
    if name == 'abs_diff' and isinstance(b, Lin):
        le, gt = split_le(s, a, b)
        return [(x, b - a) for x in le] + [(x, a - b) for x in gt]
    if name in ('to_be_bytes', 'to_le_bytes', 'to_ne_bytes'):
        n = m.P.ty(ity)['bits'] // 8
        bs = [m.byte(a, i) for i in range(n)]
        if name == 'to_be_bytes':
            bs.reverse()
        return ret(s, Arr(dty, bs))
    if name in ('swap_bytes', 'to_be', 'from_be'):
        n = m.P.ty(ity)['bits'] // 8
        return ret(s, from_bytes(m, s, [m.byte(a, n - 1 - i) for i in range(n)], ity))
    if name in ('to_le', 'from_le'):
        return ret(s, a)
    if name == 'pow' and a.const is not None and b is not None and b.const is not None:
        return ret(s, K(a.c ** b.c))
    if name in ('is_power_of_two',):
        return None
    return None


def from_bytes(m, s, le, ity):
    """integer from little-endian byte values"""
    bits = m.P.ty(ity)['bits']
    signed = m.P.ty(ity)['signed']
    # whole value reassembled from its own bytes
    e = K(0)
    for i, b in enumerate(le):
        e = e + b.scale(1 << (8 * i))
    # all bytes of the same value v in order
    src = None
    okk = len(le) * 8 == bits
    for i, b in enumerate(le):
        if len(b.t) == 1 and b.c == 0 and b.t[0][1] == 1:
            t = NSym.term[b.t[0][0]]
            if isinstance(t, tuple) and t[0] == 'byte' and t[1] == i and (src is None or src == t[2]):
                src = t[2]
                continue
        okk = False
        break
    if okk and src is not None:
        return m.wrap(src, bits, signed)
    if signed and len(le) * 8 == bits:
        return m.wrap(e, bits, True)
    return e


def n_from_bytes(m, s, ity, name, args, dty):
    a = args[0]
    if isinstance(a, Ref):
        a = m.read(s, a.root, a.path)
    if not isinstance(a, Arr):
        return None
    bs = list(a.e)
    if not all(isinstance(x, Lin) for x in bs):
        return None
    if name == 'from_be_bytes':
        bs.reverse()
    return ret(s, from_bytes(m, s, bs, ity))


FLOAT_RE = re.compile(r'<impl f(32|64)>::(from_bits|to_bits|(?:from|to)_[bln]e_bytes)$')


def n_float(m, s, width, name, args, dty):
    """floats are their bytes; little-endian order in the term"""
    n = int(width) // 8
    a = args[0]
    if isinstance(a, Ref):
        a = m.read(s, a.root, a.path)
    if name.startswith('from'):
        if name == 'from_bits':
            if not isinstance(a, Lin):
                return None
            bs = [m.byte(a, i) for i in range(n)]
        else:
            if not isinstance(a, Arr):
                return None
            bs = list(a.e)
            if name == 'from_be_bytes':
                bs.reverse()
        return ret(s, Opq(dty, ('fbits', tuple(bs))))
    if not isinstance(a, Opq):
        return None
    if isinstance(a.term, tuple) and a.term[0] == 'fbits':
        bs = list(a.term[1])
    else:
        bs = [symbol(('fbyte', i, a.term), 0, 255) for i in range(n)]
    if name == 'to_bits':
        e = K(0)
        for i, b in enumerate(bs):
            e = e + b.scale(1 << (8 * i))
        return ret(s, e)
    if name == 'to_be_bytes':
        bs.reverse()
    return ret(s, Arr(dty, bs))


FPRED_RE = re.compile(r'<impl f(?:32|64)>::(is_nan|is_infinite|is_finite|is_normal|is_subnormal|is_sign_negative|is_sign_positive)$')
FARITH_RE = re.compile(r'<impl f(?:32|64)>::(abs|floor|ceil|round|trunc|fract|max|min|clamp|signum|copysign|mul_add|sqrt|recip|to_degrees|to_radians)$')


def n_float_calc(m, s, path, args, dty):
    """tests of a float are free propositions, calculations give a number that is not the argument"""
    args = tuple(m.read(s, a.root, a.path) if isinstance(a, Ref) else a for a in args)
    if not all(isinstance(a, Opq) for a in args):
        return None
    mm = FPRED_RE.search(path)
    if mm:
        return ret(s, ('p', ('fpred', mm.group(1), args[0].term)))
    return ret(s, Opq(dty, ('farith', FARITH_RE.search(path).group(1), args)))


# ------------------------------------------------------------------ byteorder
BO_RE = re.compile(r'byteorder::ByteOrder::(read|write)_(\w+)')


def bo_endian(m, c):
    st = c.get('self')
    if st is None and c['targs']:
        st = c['targs'][0]
    p = m.P.ty(st).get('path') or m.P.ty(st)['s']
    return 'be' if 'BigEndian' in p else 'le'


def n_byteorder(m, s, c, args, dty, site):
    mm = BO_RE.match(c['path'])
    rw, what = mm.groups()
    en = bo_endian(m, c)
    sr = as_sref(m, s, args[0])
    if sr is None:
        return None
    nb = None
    if what in ('u8', 'i8'):
        nb = 1
    elif what in ('uint', 'int', 'uint128', 'int128'):
        nbv = args[1] if rw == 'read' else args[2]
        nb = nbv.const if isinstance(nbv, Lin) else None
    else:
        x = re.match(r'[uif](\d+)$', what)
        nb = int(x.group(1)) // 8 if x else None
    if nb is None:
        return None
    signed = what[0] == 'i'
    f = LE(K(nb), sr.len)
    good, bad = assume(s, f), assume(s, NOT(f))
    m.panic_check(s, bad, 'byteorder-length', site)
    outs = []
    for x in good:
        if rw == 'read':
            cont = m.read(x, sr.root, sr.path)
            bs = [m.elem(cont, sr.start + K(i)) for i in range(nb)]
            if en == 'be':
                bs.reverse()
            if what[0] == 'f':
                outs.append((x, Opq(dty, ('fbits', tuple(bs)))))
                continue
            t = m.P.ty(dty)
            e = K(0)
            for i, b in enumerate(bs):
                e = e + b.scale(1 << (8 * i))
            if signed:
                if nb * 8 == t['bits']:
                    e = m.wrap(e, t['bits'], True)
                else:
                    e = symbol(('sext', nb, e), *m.bounds(dty))
            outs.append((x, e))
        else:
            v = args[1]
            x = x.copy()
            if isinstance(v, Opq):
                bs = [symbol(('fbyte', i, v.term), 0, 255) for i in range(nb)]
            elif isinstance(v, Lin):
                if what in ('uint', 'u24', 'u48', 'int', 'uint128'):
                    g = LE(v, K((1 << (8 * nb)) - 1)) if not signed else True
                    b2 = assume(x, NOT(g))
                    m.panic_check(x, b2, 'byteorder-range', site)
                    xs = assume(x, g)
                    if not xs:
                        continue
                    x = xs[0].copy()
                bs = [m.byte(v, i) for i in range(nb)]
            else:
                return None
            if en == 'be':
                bs.reverse()
            root = ('H', m.fresh('bytes'))
            u8 = m.P.find_ty('u8')
            x.mem[root] = Arr(None, bs)
            src = SRef(root, (), K(0), K(nb))
            dst = SRef(sr.root, sr.path, sr.start, K(nb))
            m.mon.on_copy(m, x, dst, src, site)
            m.clobber(x, dst, src)
            x.mem.pop(root, None)
            outs.append((x, UNIT))
    return outs


# ------------------------------------------------------------------ errors
def n_kind_error(m, s, c, args, dty, site):
    """ErrorKindExt::{error,cause,takes_over}: a tracked error of that kind"""
    st = s.copy()
    cause = args[1] if len(args) > 1 else None
    if c['name'] == 'takes_over' and isinstance(cause, Opq):
        pass
    v = Agg(dty, (args[0], cause if cause is not None else UNIT, Opq(None, m.fresh('hist'))))
    st.event(('mkerr', dict(kind=args[0], cause=cause, site=site)))
    return ret(st, v)


def n_io_kind(m, s, c, args, dty, site):
    v = deref_all(m, s, args[0])
    if isinstance(v, Opq):
        return ret(s, Opq(dty, ('iokind', v.term)))
    return ret(s, m.mk(dty, m.fresh('iokind')))


def n_opaque(m, s, c, args, dty, site):
    return ret(s, m.mk(dty, m.fresh('op')))


# ------------------------------------------------------------------ tokio / task
def n_tok_new(m, s, c, args, dty, site):
    sr = as_sref(m, s, args[0])
    if sr is None:
        return None
    return ret(s, Agg(dty, (sr, K(0))))


def n_tok_filled(m, s, c, args, dty, site):
    loc, v = chase(m, s, args[0])
    if not (isinstance(v, Agg) and len(v.f) == 2 and isinstance(v.f[0], SRef)):
        return None
    return ret(s, SRef(v.f[0].root, v.f[0].path, v.f[0].start, v.f[1]))


def n_tok_remaining(m, s, c, args, dty, site):
    loc, v = chase(m, s, args[0])
    if not (isinstance(v, Agg) and len(v.f) == 2 and isinstance(v.f[0], SRef)):
        return None
    return ret(s, v.f[0].len - v.f[1])


def n_tok_capacity(m, s, c, args, dty, site):
    loc, v = chase(m, s, args[0])
    if not (isinstance(v, Agg) and len(v.f) == 2 and isinstance(v.f[0], SRef)):
        return None
    return ret(s, v.f[0].len)


def n_waker(m, s, c, args, dty, site):
    loc, v = chase(m, s, args[0])
    t = v.term if isinstance(v, Opq) else repr(v)
    root = ('S', ('waker', t))
    m.rty[root] = m.P.ty(dty)['to']
    return ret(s, Ref(root))


def n_wake(m, s, c, args, dty, site):
    st = s.copy()
    v = deref_all(m, s, args[0])
    st.event(('wake', dict(waker=v, site=site)))
    m.mon.on_io(m, st, 'wake', dict(waker=v, site=site))
    return ret(st, UNIT)


# ------------------------------------------------------------------ options of a few std shapes
def n_opt_replace(m, s, c, args, dty, site):
    r = args[0]
    if not isinstance(r, Ref):
        return None
    old = m.read(s, r.root, r.path)
    st = s.copy()
    m.write(st, r.root, r.path, some(dty, args[1]))
    return ret(st, old)


def n_min(m, s, c, args, dty, site):
    if len(args) == 2 and isinstance(args[0], Lin) and isinstance(args[1], Lin):
        nm = c['name']
        nm = 'min' if 'min' in nm else 'max'
        return n_int(m, s, dty, nm, args, dty, site)
    return None


def n_clamp(m, s, c, args, dty, site):
    if all(isinstance(a, Lin) for a in args) and len(args) == 3:
        x, lo, hi = args
        return [(y, lo) for y in assume(s, LT(x, lo))] + [(y, hi) for y in assume(s, AND(LE(lo, x), LT(hi, x)))] + \
               [(y, x) for y in assume(s, AND(LE(lo, x), LE(x, hi)))]
    return None


CONTRACTS = {
    'decode::Decode::decode': c_decode,
    'decode::Decode::finish_decoding': c_finish,
    'decode::Decode::is_idle': c_is_idle,
    'decode::Decode::requiring_bytes': c_requiring,
    'decode::TaggedDecode::start_decoding': c_tag_start,
    'decode::TryTaggedDecode::try_start_decoding': c_tag_start,
    'encode::Encode::encode': c_encode,
    'encode::Encode::is_idle': c_is_idle,
    'encode::Encode::requiring_bytes': c_requiring,
    'encode::Encode::start_encoding': c_start,
    'encode::SizedEncode::exact_requiring_bytes': c_exact,
    'monolithic::MonolithicDecode::monolithic_decode': c_mono_decode,
    'monolithic::MonolithicEncode::monolithic_encode': c_mono_encode,
}

TABLE = {
    'std::clone::Clone::clone': c_clone,
    'std::cmp::PartialEq::eq': c_eq,
    'std::cmp::PartialEq::ne': c_eq,
    'std::cmp::PartialOrd::partial_cmp': c_cmp,
    'std::cmp::Ord::cmp': c_cmp,
    'std::cmp::Ord::min': n_min,
    'std::cmp::Ord::max': n_min,
    'std::cmp::Ord::clamp': n_clamp,
    'std::cmp::min': n_min,
    'std::cmp::max': n_min,
    'std::intrinsics::integer_min': n_min,
    'std::intrinsics::integer_max': n_min,
    'std::convert::AsRef::as_ref': c_as_ref,
    'std::convert::AsMut::as_mut': c_as_ref,
    'std::convert::From::from': c_from,
    'std::convert::Into::into': c_from,
    'std::default::Default::default': c_default,
    'std::io::Read::read': c_read,
    'std::io::Read::read_exact': c_read_exact,
    'std::io::Read::by_ref': n_identity,
    'std::io::Write::by_ref': n_identity,
    'std::io::Write::write': c_write,
    'std::io::Write::write_all': c_write_all,
    'std::io::Write::flush': None,
    'tokio::io::AsyncRead::poll_read': c_poll_read,
    'tokio::io::AsyncWrite::poll_write': c_poll_write,
    'std::iter::Extend::extend': c_extend,
    'std::iter::once': n_once,
    'std::iter::Iterator::next': n_next,
    'std::iter::IntoIterator::into_iter': n_into_iter,
    'std::iter::DoubleEndedIterator::next_back': n_next_back,
    'std::iter::Iterator::zip': n_zip,
    'std::iter::Iterator::all': n_consume,
    'std::iter::Iterator::any': n_consume,
    'std::iter::Iterator::position': n_consume,
    'std::iter::Iterator::find': n_consume,
    'std::iter::Iterator::fold': n_fold,
    'std::iter::Iterator::copied': n_copied,
    'std::iter::Iterator::skip': n_skip_take,
    'std::iter::Iterator::take': n_skip_take,
    'std::iter::Iterator::for_each': n_consume,
    'std::iter::Iterator::copied': n_copied,
    'std::iter::Iterator::cloned': n_copied,
    'std::ops::Fn::call': c_fncall,
    'std::ops::FnMut::call_mut': c_fncall,
    'std::ops::FnOnce::call_once': c_fncall,
    'std::ops::Index::index': n_index,
    'std::ops::IndexMut::index_mut': n_index,
    'std::ops::Deref::deref': n_deref,
    'std::ops::DerefMut::deref_mut': n_deref,
    'std::mem::replace': n_replace,
    'std::mem::take': n_take,
    'std::mem::swap': n_swap,
    'std::mem::drop': n_unit,
    'std::mem::forget': n_unit,
    'std::hint::must_use': n_identity,
    'std::io::Error::kind': n_io_kind,
    'std::io::Read::chain': None,
    'core::slice::<impl [T]>::copy_from_slice': n_copy_from_slice,
    'core::slice::<impl [T]>::clone_from_slice': n_copy_from_slice,
    'core::slice::<impl [T]>::copy_within': n_copy_within,
    'core::slice::<impl [T]>::len': n_len,
    'core::slice::<impl [T]>::is_empty': n_is_empty,
    'core::slice::<impl [T]>::iter': n_iter,
    'core::slice::<impl [T]>::iter_mut': n_iter,
    'core::slice::<impl [T]>::get': n_get,
    'core::slice::<impl [T]>::get_mut': n_get,
    'core::slice::<impl [T]>::fill': n_fill,
    'core::slice::<impl [T]>::split_at': n_split_at,
    'core::slice::<impl [T]>::split_at_mut': n_split_at,
    'core::slice::<impl [T]>::first': n_first,
    'core::slice::<impl [T]>::last': n_first,
    'core::slice::<impl [T]>::first_mut': n_first,
    'core::slice::<impl [T]>::last_mut': n_first,
    'core::str::<impl str>::as_bytes': n_same_slice,
    'core::str::<impl str>::len': n_len,
    'core::str::<impl str>::chars': n_chars,
    'std::iter::Iterator::count': n_count,
    'core::str::<impl str>::is_empty': n_is_empty,
    'std::string::String::from_utf8': n_utf8,
    'std::str::from_utf8': n_utf8,
    'std::string::String::from_utf8_lossy': n_opaque,
    'std::string::String::from_utf8_lossy_owned': n_opaque,
    'std::string::String::from_utf8_unchecked': n_unchecked,
    'std::str::from_utf8_unchecked': n_unchecked,
    'core::str::from_utf8_unchecked': n_unchecked,
    'std::string::FromUtf8Error::utf8_error': n_opaque,
    'std::string::FromUtf8Error::into_bytes': n_opaque,
    'std::str::Utf8Error::valid_up_to': n_opaque,
    'core::str::Utf8Error::valid_up_to': n_opaque,
    'serde_json::Error::is_eof': n_opaque,
    'serde_json::Error::is_io': n_opaque,
    'serde_json::Error::is_data': n_opaque,
    'serde_json::Error::is_syntax': n_opaque,
    'serde_json::Error::classify': n_opaque,
    'core::str::from_utf8': n_utf8,
    'std::string::String::into_bytes': n_into_bytes,
    'std::string::String::as_bytes': n_same_slice,
    'std::string::String::as_str': n_same_slice,
    'std::string::String::len': n_len,
    'std::string::String::is_empty': n_is_empty,
    'std::string::String::new': n_vec_new,
    'std::vec::Vec::<T>::new': n_vec_new,
    'std::vec::Vec::<T>::with_capacity': n_vec_new,
    'std::vec::from_elem': n_from_elem,
    'std::vec::Vec::<T, A>::as_slice': n_same_slice,
    'std::vec::Vec::<T, A>::as_mut_slice': n_same_slice,
    'std::vec::Vec::<T, A>::len': n_len,
    'std::vec::Vec::<T, A>::is_empty': n_is_empty,
    'std::vec::Vec::<T, A>::clear': n_clear,
    'std::vec::Vec::<T, A>::truncate': n_truncate,
    'std::vec::Vec::<T, A>::resize': n_resize,
    'std::vec::Vec::<T, A>::push': n_push,
    'std::vec::Vec::<T, A>::pop': n_pop,
    'std::vec::Vec::<T, A>::remove': n_remove,
    'std::vec::Vec::<T, A>::swap_remove': n_remove,
    'std::vec::Vec::<T, A>::insert': n_insert,
    'std::vec::Vec::<T, A>::split_off': n_split_off,
    'std::string::String::clear': n_clear,
    'std::vec::Vec::<T, A>::capacity': n_capacity,
    'std::vec::Vec::<T, A>::extend_from_slice': n_extend_from_slice,
    'std::vec::Vec::<T, A>::reserve_exact': n_reserve,
    'std::vec::Vec::<T, A>::reserve': n_reserve,
    'std::vec::Vec::<T, A>::try_reserve': n_try_reserve,
    'std::vec::Vec::<T, A>::try_reserve_exact': n_try_reserve,
    'serde_json::from_reader': n_from_reader,
    'bincode::deserialize_from': n_from_reader,
    'serde_json::to_writer': n_to_writer,
    'bincode::serialize_into': n_to_writer,
    'trackable::error::ErrorKindExt::cause': n_kind_error,
    'trackable::error::ErrorKindExt::error': n_kind_error,
    'trackable::error::ErrorKindExt::takes_over': n_kind_error,
    'trackable::Trackable::track': n_identity,
    'trackable::Location::new': n_opaque,
    "tokio::io::ReadBuf::<'a>::new": n_tok_new,
    "tokio::io::ReadBuf::<'a>::filled": n_tok_filled,
    "tokio::io::ReadBuf::<'a>::remaining": n_tok_remaining,
    "tokio::io::ReadBuf::<'a>::capacity": n_tok_capacity,
    "std::task::Context::<'a>::waker": n_waker,
    'std::task::Waker::wake_by_ref': n_wake,
    'std::task::Waker::wake': n_wake,
    'std::task::Waker::clone_from': None,
}

TRACK_UNIT = ('trackable::Trackable::track',)

PURE_PREFIX = ('std::fmt', 'core::fmt', 'alloc::fmt', 'std::any', 'core::any', 'std::panic::Location',
               'trackable::', 'std::string::ToString', 'std::fmt::format')


def n_chain(m, s, c, args, dty, site):
    return ret(s, Agg(dty, (args[0], args[1])))


def n_wflush(m, s, c, args, dty, site):
    return ret(s, ok(dty, UNIT)) if not c.get('key') else None


TABLE['std::io::Read::chain'] = n_chain
TABLE['std::io::Write::flush'] = n_wflush


def track(m, s, c, args, dty, site):
    """Trackable::track: appends to the error's history; no effect on what the caller can branch on"""
    t = m.P.ty(dty)
    if t['k'] == 'tuple' and not t['elems']:
        return ret(s, UNIT)
    return ret(s, args[0])


TABLE['trackable::Trackable::track'] = track


def norm(p):
    return p.replace('alloc::', 'std::') if p.startswith('alloc::') else p


def dispatch(m, s, c, args, dty, site, diverges):
    kind = c['kind']
    path = c['path']
    if kind == 'ctor':
        t = m.P.ty(dty)
        a = m.P.adts.get(t.get('path'))
        if a and a['kind'] == 'enum':
            return ret(s, Enum(dty, c['variant'], args))
        return ret(s, Agg(dty, args))
    if diverges:
        m.panic_check(s, [s], 'panic:' + path.split('::')[-1], site)
        return []
    key = c.get('key')
    h = TABLE.get(path) or TABLE.get(norm(path))
    rp = c.get('rpath')
    if h is c_fncall:
        return c_fncall(m, s, c, args, dty, site)
    # a local implementation always wins over a model of the trait method
    if key and c.get('local') and key in m.P.bodies:
        return m.call_key(key, args, s)
    if path in CONTRACTS:
        r = CONTRACTS[path](m, s, c, args, dty, site)
        if r is not None:
            return r
    if h is c_from and key and key in m.P.bodies:
        return m.call_key(key, args, s)
    if h is not None:
        try:
            r = h(m, s, c, args, dty, site)
        except (AttributeError, TypeError, ValueError):
            r = None            # arguments of a shape the model does not know
        if r is not None:
            m.natives_used.add(path)
            return r
    if path.startswith('byteorder::ByteOrder::'):
        r = n_byteorder(m, s, c, args, dty, site)
        if r is not None:
            return r
    mm = INT_RE.match(path) or (rp and INT_RE.match(rp))
    if mm:
        ity = m.P.find_ty(mm.group(1))
        if ity is not None:
            if mm.group(2) in ('from_be_bytes', 'from_le_bytes'):
                r = n_from_bytes(m, s, ity, mm.group(2), args, dty)
            else:
                r = n_int(m, s, ity, mm.group(2), args, dty, site)
            if r is not None:
                return r
    if FPRED_RE.search(path) or FARITH_RE.search(path):
        r = n_float_calc(m, s, path, args, dty)
        if r is not None:
            return r
    mm = FLOAT_RE.search(path)
    if mm:
        r = n_float(m, s, mm.group(1), mm.group(2), args, dty)
        if r is not None:
            return r
    if path.startswith('std::option::Option::<T>::replace') or path == 'std::option::Option::<T>::replace':
        r = n_opt_replace(m, s, c, args, dty, site)
        if r is not None:
            return r
    if key and key in m.P.bodies and not path.startswith(PURE_PREFIX):
        return m.call_key(key, args, s)
    # trackable errors converting into each other
    if path.startswith(PURE_PREFIX):
        return ret(s, m.mk(dty, m.fresh('op')))
    if key and key in m.P.bodies:
        return m.call_key(key, args, s)
    # unknown: havoc whatever is reachable mutably through the arguments
    m.unknown_calls.add(path)
    st = taint(s, 'unmodelled call %s' % path)
    for a in args:
        if isinstance(a, Ref):
            try:
                v = m.read(st, a.root, a.path)
                if isinstance(v, Seq):
                    nv = Seq(v.ty, m.fresh_int('ln', 0, ISIZE), m.fresh('hv'))
                else:
                    nv = m.havoc_leaf(v, 'hv', [])
                m.write(st, a.root, a.path, nv)
            except KeyError:
                pass
        elif isinstance(a, SRef):
            try:
                m.clobber(st, a)
            except KeyError:
                pass
    return ret(st, m.mk(dty, m.fresh('uk')))
