"""Rules on the functions that drive a whole codec: decode_exact, encode_all, decode_from_bytes, encode_into_bytes, with_item."""
import machine
from core import *
from plain import rule, rec, Plain
from spec import bc_var, bc_n, bc_finite, mentions, is_idle, kind_names

ME = ('S', ('arg', 0))


def kind_is(o, m, v, name):
    ks = kind_names(o.P)
    return m.is_variant(v, ks.index(name), len(ks)) if name in ks else False


def own_kind(s):
    ks = [e[1]['kind'] for e in s.events() if e[0] == 'mkerr']
    return ks[-1] if ks else None


def failures(s):
    """errors of the component and of the stream on the path"""
    return [e[2]['err'] for e in s.events() if e[0] in ('comp', 'io') and e[2].get('err') is not None]


def calls(s, kind=None):
    return [e[2] for e in s.events() if e[0] == 'comp' and (kind is None or e[2]['kind'] == kind)]


def relay(m, s, b, v, prefix):
    """a failed component or stream fails the driver with that error; returns the failure"""
    fs = failures(s)
    if isinstance(v, Enum) and v.k == 0:
        rec(m, s, b, prefix + '-swallowed', AND(not fs, EQ(s.g('fails', K(0)), K(0))), 'succeeds although something failed')
        return fs
    if fs:
        rec(m, s, b, prefix + '-error', mentions(v, fs[-1].term, s), 'the error is replaced by another one')
    return fs


def eos_is(o, m, s, b, name, eos, reached):
    for x, ev in o.w.eos_rem(m, s, eos):
        f = bc_finite(m, ev, K(0))
        rec(m, x, b, name, OR(AND(reached, f), AND(NOT(reached), bc_var(m, ev, 2))), 'the codec is told that %r remain' % (ev,))


class ExactMon(machine.Monitor):
    """decode_exact: every decode call gets exactly what the preceding read delivered"""

    def __init__(self, o, b):
        self.o = o
        self.b = b

    def on_io(self, m, s, kind, info):
        if kind != 'read':
            rec(m, s, self.b, 'exact-io', False, 'unexpected %s' % kind)
            return
        w = info['win']
        c = m.read(s, ME, ())
        req = Opq(m.P.find_ty('byte_count::ByteCount'), ('req', c.term))
        rec(m, s, self.b, 'exact-unread', EQ(s.g('have'), K(0)), 'reads on although %r bytes have not been decoded' % (s.g('have'),))
        n = bc_n(m, req)
        idle = s.lits.get(('idle', c.term))
        rec(m, s, self.b, 'exact-minimal', AND(idle is not True, AND(IMP(bc_var(m, req, 0), LE(w.len, n)), IMP(bc_var(m, req, 2), LE(w.len, K(1))))),
            'reads %r bytes though %r are required' % (w.len, req))
        rec(m, s, self.b, 'exact-nonempty', LE(K(1), w.len), 'a read with an empty buffer looks like the end of the stream')

    def on_io_ret(self, m, s, kind, info, res):
        if kind == 'read' and res is not None:
            s.setg('have', res)
            s.setg('pos', info['win'].start)
            s.setg('read', K(1))

    def on_component(self, m, s, kind, comp, info):
        if info.get('root') != ME:
            return
        if kind == 'decode':
            w = info['win']
            rs = [e[2]['win'].root for e in s.events() if e[0] == 'io']
            rec(m, s, self.b, 'exact-window', AND(not rs or rs[-1] == w.root, True), 'the decoder is not given the memory the reader filled')
            rec(m, s, self.b, 'exact-window', AND(EQ(w.len, s.g('have')), OR(EQ(w.len, K(0)), EQ(w.start, s.g('pos')))),
                'the decoder is given %r bytes from %r, but %r were read' % (w.len, w.start, s.g('have')))
            reached = AND(EQ(s.g('read'), K(1)), EQ(s.g('have'), K(0)))
            eos_is(self.o, m, s, self.b, 'exact-eos', info['eos'], reached)
        elif kind == 'finish':
            rec(m, s, self.b, 'exact-finish', is_idle(comp.term), 'asks for the item before the decoder has finished')
            rec(m, s, self.b, 'exact-unread', EQ(s.g('have'), K(0)), 'finishes although %r bytes have not been decoded' % (s.g('have'),))

    def on_component_ret(self, m, s, kind, comp, info, res):
        if kind == 'decode' and info.get('root') == ME and res is not None:
            s.setg('left', s.g('have') - res)
            s.setg('have', s.g('have') - res)
            s.setg('pos', s.g('pos') + res)
            s.setg('read', K(0))


@rule('C18')
def decode_exact(o):
    b = o.w.body('IoDecodeExt::decode_exact')
    m = o.machine()
    m.mon = ExactMon(o, b)
    s = State()
    for g in ('have', 'pos', 'read', 'left'):
        s.setg(g, K(0))
    args = o.args(m, b)
    m.read(s, ME, ())
    for st, v, _ in o.run(m, b, s, args):
        fs = relay(m, st, b, v, 'exact')
        if not isinstance(v, Enum):
            continue
        if v.k == 0:
            f = calls(st, 'finish')
            rec(m, st, b, 'exact-item', bool(f) and f[-1]['err'] is None and v.f[0] == f[-1]['item'], 'the result is not the item of the decoder')
        elif not fs:
            rec(m, st, b, 'exact-refusal', NE(st.g('left'), K(0)), 'fails although the decoder took all the bytes')
    o.merge(m)


class AllMon(machine.Monitor):
    """encode_all: what was encoded is written before anything else is encoded"""

    def __init__(self, o, b):
        self.o = o
        self.b = b

    def on_component(self, m, s, kind, comp, info):
        if info.get('root') != ME or kind != 'encode':
            return
        w = info['win']
        rec(m, s, self.b, 'all-unwritten', EQ(s.g('have'), K(0)), 'encodes on although %r bytes have not been written' % (s.g('have'),))
        rec(m, s, self.b, 'all-room', LE(K(1), w.len), 'the encoder is given no room')
        eos_is(self.o, m, s, self.b, 'all-eos', info['eos'], False)

    def on_component_ret(self, m, s, kind, comp, info, res):
        if kind == 'encode' and info.get('root') == ME:
            s.setg('last', res if res is not None else K(0))
            if res is not None:
                s.setg('have', res)
                s.setg('pos', info['win'].start)

    def on_io(self, m, s, kind, info):
        w = info.get('win')
        if kind not in ('write', 'write_all'):
            return
        es = [e['win'].root for e in calls(s, 'encode')]
        rec(m, s, self.b, 'all-window', not es or es[-1] == w.root, 'what is written is not the memory the encoder filled')
        rec(m, s, self.b, 'all-window', OR(AND(EQ(w.len, K(0)), EQ(s.g('have'), K(0))), AND(EQ(w.len, s.g('have')), EQ(w.start, s.g('pos')))),
            '%r bytes from %r are written, but %r were encoded at %r' % (w.len, w.start, s.g('have'), s.g('pos')))

    def on_io_ret(self, m, s, kind, info, res):
        if kind in ('write', 'write_all') and res is not None:
            s.setg('have', s.g('have') - res)
            s.setg('pos', s.g('pos') + res)


@rule('C18')
def encode_all(o):
    b = o.w.body('IoEncodeExt::encode_all')
    m = o.machine()
    m.mon = AllMon(o, b)
    s = State()
    for g in ('have', 'pos'):
        s.setg(g, K(0))
    s.setg('last', K(1))
    args = o.args(m, b)
    m.read(s, ME, ())
    for st, v, _ in o.run(m, b, s, args):
        fs = relay(m, st, b, v, 'all')
        if not isinstance(v, Enum):
            continue
        c = m.read(st, ME, ())
        if v.k == 0:
            rec(m, st, b, 'all-complete', is_idle(c.term), 'succeeds although the encoder still has bytes to write')
            rec(m, st, b, 'all-unwritten', EQ(st.g('have'), K(0)), 'succeeds although %r bytes have not been written' % (st.g('have'),))
        elif not fs:
            rec(m, st, b, 'all-refusal', AND(EQ(st.g('last'), K(0)), NOT(is_idle(c.term))), 'fails although the encoder made progress')
    o.merge(m)


@rule('C18')
def decode_from_bytes(o):
    b = o.w.body('DecodeExt::decode_from_bytes')
    m = o.machine()
    s = State()
    args = o.args(m, b)
    m.read(s, ME, ())
    for st, v, _ in o.run(m, b, s, args):
        fs = relay(m, st, b, v, 'from')
        if not isinstance(v, Enum):
            continue
        d, f = calls(st, 'decode'), calls(st, 'finish')
        rec(m, st, b, 'from-once', len(d) == 1 and len(f) <= 1, 'the decoder is called %d times' % len(d))
        if len(d) != 1:
            continue
        w = d[0]['win']
        rec(m, st, b, 'from-window', AND(w.root == args[1].root, AND(EQ(w.start, K(0)), EQ(w.len, args[1].len))), 'the decoder is not given the whole buffer')
        eos_is(o, m, st, b, 'from-eos', d[0]['eos'], True)
        if v.k == 0:
            rec(m, st, b, 'from-item', bool(f) and f[0]['err'] is None and v.f[0] == f[0]['item'], 'the result is not the item of the decoder')
            rec(m, st, b, 'from-rest', d[0]['n'] is not None and EQ(d[0]['n'], w.len), 'bytes that were not decoded are ignored')
        elif not fs:
            rec(m, st, b, 'from-refusal', d[0]['n'] is not None and LT(d[0]['n'], w.len), 'fails although all the bytes were decoded')
            k = own_kind(st)
            if k is not None:
                rec(m, st, b, 'from-kind', kind_is(o, m, k, 'InvalidInput'), 'bytes that were not decoded are reported as %r' % (k,))
    o.merge(m)


@rule('C18')
def with_item(o):
    b = o.w.body('EncodeExt::with_item')
    m = o.machine()
    args = o.args(m, b)
    for st, v, _ in o.run(m, b, State(), args):
        relay(m, st, b, v, 'with')
        if not isinstance(v, Enum):
            continue
        c = calls(st)
        rec(m, st, b, 'with-started', len(c) == 1 and c[0]['kind'] == 'start' and c[0]['item'] == args[0], 'the item is not started exactly once')
        if v.k == 0 and len(c) == 1:
            rec(m, st, b, 'with-encoder', isinstance(v.f[0], Opq) and v.f[0].term == c[0]['after'], 'the result is not the encoder that has started the item')
        elif v.k and not failures(st):
            rec(m, st, b, 'with-refusal', False, 'fails without a cause')
    o.merge(m)


class IntoMon(machine.Monitor):
    """encode_into_bytes: the item is started before anything is encoded; pieces end up in the result in order"""

    def __init__(self, o, b):
        self.o = o
        self.b = b

    def on_component(self, m, s, kind, comp, info):
        if info.get('root') != ME:
            return
        if kind == 'encode':
            rec(m, s, self.b, 'into-started', EQ(s.g('started'), K(1)), 'encodes before the item is started')
            rec(m, s, self.b, 'into-unwritten', EQ(s.g('have'), K(0)), 'encodes on although %r bytes have not been kept' % (s.g('have'),))
        elif kind == 'start':
            rec(m, s, self.b, 'into-started', EQ(s.g('started'), K(0)), 'starts more than one item')
            rec(m, s, self.b, 'into-item', info['item'] == ('ITEM', 1) or info['item'] == self.item, 'another item is started')
            s.setg('started', K(1))

    def on_component_ret(self, m, s, kind, comp, info, res):
        if kind == 'encode' and info.get('root') == ME and res is not None:
            s.setg('have', res)
            s.setg('total', s.g('total') + res)

    def on_append(self, m, s, ref, src, site):
        rec(m, s, self.b, 'into-window', OR(AND(EQ(src.len, K(0)), EQ(s.g('have'), K(0))), EQ(src.len, s.g('have'))),
            '%r bytes are kept, but %r were encoded' % (src.len, s.g('have')))
        s.setg('have', s.g('have') - src.len)


@rule('C18')
def encode_into_bytes(o):
    b = o.w.body('EncodeExt::encode_into_bytes')
    m = o.machine()
    m.mon = IntoMon(o, b)
    s = State()
    for g in ('have', 'started', 'total'):
        s.setg(g, K(0))
    args = o.args(m, b)
    m.mon.item = args[1]
    m.read(s, ME, ())
    for st, v, _ in o.run(m, b, s, args):
        fs = relay(m, st, b, v, 'into')
        if not isinstance(v, Enum):
            continue
        c = m.read(st, ME, ())
        es = calls(st, 'encode')
        ss = calls(st, 'start')
        req = Opq(m.P.find_ty('byte_count::ByteCount'), ('req', ss[0]['after'])) if ss else None
        if v.k == 0:
            rec(m, st, b, 'into-complete', is_idle(c.term), 'succeeds although the encoder still has bytes to write')
            rec(m, st, b, 'into-started', EQ(st.g('started'), K(1)), 'the item is not started')
            vec = v.f[0]
            ln = m.len_of(vec)
            if req is not None:
                n = bc_n(m, req)
                rec(m, st, b, 'into-length', IMP(bc_var(m, req, 0), EQ(ln, n)), '%r bytes are returned, but %r were announced' % (ln, req))
                for x in assume(st, bc_var(m, req, 2)):
                    rec(m, x, b, 'into-length', EQ(ln, x.g('total')), '%r bytes are returned, but %r were encoded' % (ln, x.g('total')))
                for x in assume(st, bc_var(m, req, 0)):
                    for e in es[-1:]:
                        rec(m, x, b, 'into-window', AND(EQ(e['win'].start, K(0)), EQ(e['win'].len, n)), 'the encoder is given %r bytes at %r' % (e['win'].len, e['win'].start))
    o.merge(m)


class WriteMon(machine.Monitor):
    """an io::Write adaptor: inner writers get consecutive parts of the data"""

    def __init__(self, b, buf):
        self.b = b
        self.buf = buf

    def on_io(self, m, s, kind, info):
        w = info.get('win')
        if kind in ('write', 'write_all') and w is not None:
            rec(m, s, self.b, 'adaptor-window', OR(EQ(w.len, K(0)), AND(w.root == self.buf.root, EQ(w.start, s.g('done')))),
                'the inner writer is given bytes from %r, but %r bytes were already accepted' % (w.start, s.g('done')))

    def on_io_ret(self, m, s, kind, info, res):
        if kind in ('write', 'write_all') and res is not None:
            s.setg('done', s.g('done') + res)


@rule('C01')
def write_adaptors(o):
    """local implementations of io::Write over other writers"""
    for p, b in o.w.fnbody.items():
        if not (p.startswith('<') and p.endswith(' as std::io::Write>::write') and b['args'] == 2):
            continue
        if 'WriteBuf' in p:
            continue            # owns its memory: C16
        head = p[1:].split(' as ')[0].split('<')[0]
        known = any(f['pub'] and head + '::' in f['path'].replace('::<', '<').split('<')[0] + '::' for f in o.P.fns)
        m = o.machine()
        args = o.args(m, b)
        m.mon = WriteMon(b, args[1])
        s = State()
        s.setg('done', K(0))
        m.read(s, ME, ())
        for st, v, _ in o.run(m, b, s, args):
            if not isinstance(v, Enum):
                continue
            if v.k == 0:
                rec(m, st, b, 'adaptor-count', EQ(v.f[0], st.g('done')), '%r bytes are reported, but %r were accepted' % (v.f[0], st.g('done')))
            else:
                if known:           # within the crate it is only used over memory, which does not fail
                    rec(m, st, b, 'adaptor-error', EQ(st.g('done'), K(0)), 'fails although %r bytes were accepted, which the caller will write again' % (st.g('done'),))
                fs = failures(st)
                rec(m, st, b, 'adaptor-cause', bool(fs) and mentions(v, fs[-1].term, st), 'the error is replaced by another one')
        o.merge(m)
