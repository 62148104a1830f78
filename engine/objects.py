"""Rules on the stateful types of the crate that are not codecs: I/O buffers, buffered streams, owned slices."""
import random
import re
import machine
from core import *
from plain import Plain, bc_cases
from spec import SELF, bc_var, bc_finite, bc_n, mentions, is_idle, byte_of, same_place
from families import inherent, is_min

OBJ = {}
RB, WB, BIO = 'io::ReadBuf', 'io::WriteBuf', 'io::BufferedIo'
NORMAL, EOS_, WOULD, ERROR = 0, 1, 2, 3      # io::StreamState
WOULDBLOCK = 13


# rules about how a transfer ended, shared by all the transfers
STREAM = {p + r for p in ('fill', 'flush') for r in ('-state', '-result', '-error', '-until', '-stops')}


def obj(prop, adt):
    props = prop if isinstance(prop, tuple) else (prop,)

    def d(f):
        OBJ[f.__name__] = (props, adt, f)
        return f
    return d


FAILURES = ('-error', '-result', '-failure')         # what happens to the failure of a stream or codec


def rule_props(name, rule):
    also = ('C14',) if rule.endswith(FAILURES) else ()
    props = OBJ[name][0]
    if rule in STREAM:
        return (('C17', 'C26') if 'poll' in name and rule.endswith('-result') else ('C17',)) + also
    if rule.startswith('wake'):
        return ('C26',)
    return props[:1] + also


def witnesses(name, prop):
    """does an analysis bear on the property?"""
    return prop in OBJ[name][0] or prop == 'C14' and any(x in name for x in ('fill', 'flush', 'decode', 'encode', 'execute'))


class Obj(Plain):
    """a value of a local type in any reachable state"""

    def __init__(self, w, adt, mode):
        reach = mode.startswith('reach')
        Plain.__init__(self, w, 1 + int(mode[5:]) if reach else None)
        self.adt = adt
        self.mode = mode
        self.depth = int(mode[5:]) if reach else 0
        self.key = (adt, '')
        cls = w.class_methods_cached()
        self.ctors, self.muts = cls[self.key]
        self.ty = self.muts[0][2] if self.muts else self.ctors[0][2]

    def machine(self, mon=None):
        m = Plain.machine(self, mon)
        m.rty[SELF] = self.ty
        return m

    def initial(self, m):
        if self.mode == 'inv':
            s = State()
            m.read(s, SELF, ())
            return self.w.assume_inv(m, s, SELF, (), self.ty, '')
        out = []
        m.silent += 1
        mon, m.mon = m.mon, machine.Monitor()
        try:
            cur = []
            for b, k, rty in self.ctors:
                if b['path'].endswith('::clone') or b['path'] in self.w.hidden:
                    continue
                try:
                    outs = self.w.run_fn(m, b, '')
                except GIVEUP:
                    continue
                for st, v, args in outs:
                    if k is not None:
                        if not isinstance(v, Enum) or v.k != k:
                            continue
                        v = v.f[0]
                    if isinstance(v, Opq):
                        v = m.expand(v)
                    if not isinstance(v, Agg):
                        continue
                    st = st.copy()
                    st.mem = {SELF: Agg(self.ty, v.f)}
                    st.ev = None
                    st.note('constructed by %s' % b['path'])
                    cur.append(st)
            out += cur
            for d in range(self.depth):
                nxt = []
                shapes = {}
                ops = self.ops()
                for b, i, via in ops:
                    share = len(nxt) + 150
                    for st in cur:
                        if len(nxt) > share:
                            break
                        m.steps = 0
                        had = len(nxt)
                        args = [m.mk(b['locals'][j + 1][0], ('arg', j, 'p%d' % d)) for j in range(b['args'])]
                        try:
                            ats = [(st.copy(), Ref(SELF))] if via is None else m.exec_body(via, [Ref(SELF)], st.copy())
                            for y, r in ats:
                                args[i] = r
                                for x, v in m.exec_body(b, args, y):
                                    x = x.copy()
                                    x.mem = {SELF: x.mem[SELF]}
                                    x.ev = None
                                    shape = re.sub(r'(?<=\w)#\d+|(?<=\w\()\d+', '#', repr(x.mem[SELF]))
                                    if x.mem[SELF] == st.mem[SELF] or shapes.get(shape, 0) > 2 or len(nxt) > had + 8:
                                        continue
                                    shapes[shape] = shapes.get(shape, 0) + 1
                                    x.note('%s = %r' % (b['path'].split('::')[-1], v))
                                    nxt.append(x)
                        except GIVEUP:
                            pass
                random.Random(1).shuffle(nxt)        # a search cut short should still have seen all sorts of histories
                out += nxt
                cur = nxt
        finally:
            m.silent -= 1
            m.mon = mon
            m.steps = 0
        return out

    def ops(self):
        """[(body, receiver index, accessor)]: what can change the value, directly or through a part handed out by an accessor"""
        out = self.direct(self.muts)
        for b, i, mty in self.muts:
            rt = self.P.ty(b['locals'][0][0])
            if rt['k'] != 'ref' or b['args'] != 1 or i != 0:
                continue
            t = self.P.ty(rt['to'])
            sub = self.w.class_methods_cached().get((t.get('path'), '')) if t['k'] == 'adt' else None
            if sub:
                out += [(c, j, b) for c, j, _ in self.direct(sub[1])]
        return out

    def direct(self, muts):
        out = []
        for b, i, mty in muts:
            rt = self.P.ty(b['locals'][0][0])
            if rt['k'] == 'ref' or '__private' in b['path'] or b['path'].endswith('::project'):
                continue
            if i == 0 and self.P.ty(b['locals'][1][0])['k'] != 'ref':
                continue
            out.append((b, i, None))
        return out

    def acc(self, m, s, name, base=None):
        """[(state, value)] of an inherent accessor; base: (adt, Ref)"""
        adt, r = base or (self.adt, Ref(SELF))
        b = inherent(self.w, adt, name)
        if b is None:
            raise KeyError('no accessor %s of %s' % (name, adt))
        m.silent += 1
        try:
            return m.exec_body(b, [r], s)
        finally:
            m.silent -= 1

    def accs(self, m, s, *names):
        outs = [(s, {})]
        for n in names:
            outs = [(y, dict(d, **{n: v})) for x, d in outs for y, v in self.acc(m, x, n)]
        return outs

    def probe(self, m, s, b, args):
        """states at the first component or I/O call of a function, with what is handed over; and the runs without one"""
        g = Grab()
        old = m.mon
        m.mon = g
        m.silent += 1
        unroll, m.unroll = m.unroll, 1
        try:
            outs = m.exec_body(b, args, s.copy())
        finally:
            m.mon = old
            m.unroll = unroll
            m.silent -= 1
        return g.got, outs


class Grab(machine.Monitor):
    def __init__(self):
        self.got = []

    def on_component(self, m, s, kind, comp, info):
        if kind in ('decode', 'encode') and not s.g('grabbed'):
            x = s.copy()
            self.got.append((x, info['win'], info.get('eos')))

    def on_component_ret(self, m, s, kind, comp, info, res):
        s.setg('grabbed', True)

    def on_io(self, m, s, kind, info):
        if 'win' in info and not s.g('grabbed'):
            self.got.append((s.copy(), info['win'], None))

    def on_io_ret(self, m, s, kind, info, res):
        s.setg('grabbed', True)


def carry(s, x):
    """s refined by what x (a continuation of s) knows"""
    y = s.copy()
    y.facts, y.lits, y.vars = x.facts, x.lits, x.vars
    return y


def dec_probe(o, m):
    b = o.w.body('IoDecodeExt::decode_from_read_buf')
    return b, [m.mk(b['locals'][1][0], ('probe', 'd')), Ref(SELF)]


def enc_probe(o, m, name='encode_to_write_buf'):
    b = [x for p, x in o.w.fnbody.items() if p.endswith('IoEncodeExt::' + name)][0]
    args = [m.mk(b['locals'][1][0], ('probe', 'e')), Ref(SELF)]
    return b, args + [m.mk(b['locals'][i + 1][0], ('probe', i)) for i in range(2, b['args'])]


def rb_window(o, m, s):
    """what decoders get to see of a read buffer: [(state, window)]"""
    b, args = dec_probe(o, m)
    got, _ = o.probe(m, s, b, args)
    return [(carry(s, x), win) for x, win, e in got]


def wb_pending(o, m, s):
    """what a write buffer is going to write next: [(state, window or None when empty)]"""
    b = inherent(o.w, WB, 'flush')
    got, outs = o.probe(m, s, b, [Ref(SELF), m.mk(b['locals'][2][0], ('probe', 'w'))])
    r = [(carry(s, x), win) for x, win, e in got]
    r += [(carry(s, x), None) for x, v in outs if not x.g('grabbed')]
    return r


def wb_room(o, m, s):
    """where a write buffer puts the next bytes: [(state, window)]"""
    b, args = enc_probe(o, m)
    got, _ = o.probe(m, s, b, args)
    return [(carry(s, x), win) for x, win, e in got]


def same(w, start, ln):
    return AND(EQ(w.start, start), EQ(w.len, ln))


def inner_place(w):
    return w.root == SELF


def state_is(m, v, k):
    return m.is_variant(v, k, 4)


def same_state(m, a, b):
    f = False
    for k in range(4):
        f = OR(f, AND(state_is(m, a, k), state_is(m, b, k)))
    return f


def is_ok(v):
    return isinstance(v, Enum) and v.k == 0


def poll_inner(v):
    """(pending?, result) of a Poll<Result<..>> or a plain result"""
    return v


def R(m, s, b, rule, ok, msg):
    m.rec(s, 'R', rule, ok, msg=msg, site=b['path'])


# ------------------------------------------------------------------ numbers
def numbers(o, m, b, s, window_len, prefix):
    for st, d in o.accs(m, s, 'len', 'room', 'capacity', 'is_empty', 'is_full'):
        n, r, c = d['len'], d['room'], d['capacity']
        if window_len is not None:
            R(m, st, b, prefix + '-len', EQ(n, window_len), 'len() is %r but %r bytes are held' % (n, window_len))
        f = m.as_bool(d['is_empty'])
        z = EQ(n, K(0))
        R(m, st, b, prefix + '-empty', AND(IMP(f, z), IMP(z, f)), 'is_empty() does not tell whether len() is zero')
        f = m.as_bool(d['is_full'])
        z = EQ(r, K(0))
        R(m, st, b, prefix + '-full', AND(IMP(f, z), IMP(z, f)), 'is_full() does not tell whether room() is zero')
        R(m, st, b, prefix + '-room', LE(n + r, c), 'len() + room() exceeds capacity()')
        cv = m.read(st, SELF, (('f', 0),))


# ------------------------------------------------------------------ ReadBuf
@obj('C15', RB)
def rb_numbers(o):
    m = o.machine()
    b = inherent(o.w, RB, 'len')
    for s in o.initial(m):
        for st, w in rb_window(o, m, s):
            o.paths += 1
            R(m, st, b, 'rb-window', inner_place(w), 'decoders are not shown the buffer itself')
            numbers(o, m, b, st, w.len, 'rb')
    o.merge(m)


@obj('C15', RB)
def rb_new(o):
    new_empty(o, RB, 'rb')


@obj('C16', WB)
def wb_new(o):
    new_empty(o, WB, 'wb')


def new_empty(o, adt, prefix):
    if o.mode != 'inv':
        return
    m = o.machine()
    b = inherent(o.w, adt, 'new')
    for st, v, args in o.w.run_fn(m, b, ''):
        st = st.copy()
        st.mem[SELF] = v
        m.rty[SELF] = v.ty
        for x, d in o.accs(m, st, 'len', 'capacity', 'room', 'stream_state'):
            R(m, x, b, prefix + '-new', AND(EQ(d['len'], K(0)), EQ(d['capacity'], d['room'])), 'a new buffer holds %r bytes and has room for %r' % (d['len'], d['room']))
            R(m, x, b, prefix + '-new-state', state_is(m, d['stream_state'], NORMAL), 'a new buffer is in state %r' % (d['stream_state'],))
    o.merge(m)


def apart(w, start, n):
    """the window does not touch [start; +n]"""
    return OR(OR(EQ(n, K(0)), EQ(w.len, K(0))), OR(LE(w.start + w.len, start), LE(start + n, w.start)))


class FillMon(machine.Monitor):
    """reads append to what the buffer holds; nothing follows a failed or final read"""

    moves = True

    def held(self, s):
        return (s.g('start'), s.g('end') - s.g('start')) if self.kind == 'read' else (s.g('head'), s.g('left'))

    def on_move(self, m, s, dst, src, site):
        if dst.root != SELF or s.g('lastn') is None:
            return
        st, n = self.held(s)
        whole = AND(LE(src.start, st), LE(st + n, src.start + src.len))
        R(m, s, self.b, self.p + '-moved', OR(whole, apart(dst, st, n)), 'held bytes [%r; +%r] are overwritten by [%r; +%r] moved to %r' % (st, n, src.start, src.len, dst.start))
        by = dst.start - src.start
        if entails(s, OR(apart(src, st, n), NOT(whole))):
            return
        if not entails(s, whole):
            s.taint = s.taint + ('partial move at %s' % site,)
        if self.kind == 'read':
            s.setg('start', st + by)
            s.setg('end', st + n + by)
        else:
            s.setg('head', st + by)

    def on_copy(self, m, s, dst, src, site):
        if dst.root == SELF and s.g('lastn') is not None and not entails(s, apart(dst, *self.held(s))):
            s.taint = s.taint + ('copy at %s' % site,)

    def on_store(self, m, s, root, path, val, site):
        if root == SELF and path and path[-1][0] == 'e' and s.g('lastn') is not None:
            s.taint = s.taint + ('store at %s' % site,)

    def on_store_range(self, m, s, sref, val, site):
        if sref.root == SELF and s.g('lastn') is not None:
            R(m, s, self.b, self.p + '-moved', apart(sref, *self.held(s)), 'held bytes are overwritten')

    def __init__(self, b, prefix, kind, place=inner_place):
        self.b = b
        self.p = prefix
        self.kind = kind
        self.place = place

    def on_io(self, m, s, kind, info):
        if kind == 'wake':
            return
        w = info['win']
        if kind != self.kind:
            R(m, s, self.b, self.p + '-io', False, 'unexpected %s' % kind)
            return
        R(m, s, self.b, self.p + '-place', self.place(w), '%s does not use the buffer\'s memory' % kind)
        if kind == 'read':
            R(m, s, self.b, self.p + '-position', EQ(w.start, s.g('end')), 'bytes are read to offset %r, but the held bytes end at %r' % (w.start, s.g('end')))
            R(m, s, self.b, self.p + '-nonempty', LE(K(1), w.len), 'a read with an empty buffer looks like the end of the stream')
        else:
            R(m, s, self.b, self.p + '-position', OR(EQ(s.g('left'), K(0)), same(w, s.g('head'), s.g('left'))),
              'bytes [%r; +%r] are written, but [%r; +%r] are pending' % (w.start, w.len, s.g('head'), s.g('left')))
            R(m, s, self.b, self.p + '-nonempty', LE(K(1), w.len), 'a write of nothing looks like the end of the stream')
        R(m, s, self.b, self.p + '-stops', LE(K(1), s.g('lastn')), 'goes on after the end of the stream, a would-block or a failure')

    def on_io_ret(self, m, s, kind, info, res):
        s.setg('ios', s.g('ios') + K(1))
        if res is None:
            s.setg('lastn', K(0))
        else:
            s.setg('lastn', res)
            if kind == 'read':
                s.setg('end', s.g('end') + res)
            else:
                s.setg('head', s.g('head') + res)
                s.setg('left', s.g('left') - res)


def last_io(evs):
    r = None
    for e in evs:
        if e[0] == 'io':
            r = e[2]
    return r


def io_failed(e):
    return e is not None and e.get('err') is not None


def kind_would_block(m, e):
    """formula: the I/O error of the event is a would-block"""
    t = m.P.find_ty('std::io::ErrorKind')
    return ('var', ('iokind', e['err'].term), WOULDBLOCK, m.nvariants(t))


def result_of(v):
    """('pending', None) / ('ok'|'err', Result) of a Result or Poll<Result>"""
    return v


def same_place(m, s, v, term):
    """a reference to the argument object of the given name"""
    n = 0
    while isinstance(v, Ref) and n < 8:
        if v.root == ('S', term) and not v.path:
            return True
        v = m.read(s, v.root, v.path)
        n += 1
    return False


def split_result(m, v, poll):
    if poll:
        if not isinstance(v, Enum):
            return None
        if v.k == 1:
            return ('pending', None)
        v = v.f[0]
    if not isinstance(v, Enum):
        return None
    return ('ok' if v.k == 0 else 'err', v)


def transfer(o, b, prefix, kind, poll):
    """fill / flush and their polling variants"""
    mon = FillMon(b, prefix, kind)
    m = o.machine(mon)
    view = rb_window if kind == 'read' else wb_pending
    for s in o.initial(m):
        for s1, w0 in view(o, m, s):
            s1 = s1.copy()
            if kind == 'read':
                s1.setg('start', w0.start)
                s1.setg('end', w0.start + w0.len)
            else:
                s1.setg('head', w0.start if w0 is not None else K(0))
                s1.setg('left', w0.len if w0 is not None else K(0))
            s1.setg('ios', K(0))
            s1.setg('lastn', K(1))
            (s1, state0), = o.acc(m, s1, 'stream_state')
            s1 = s1.copy()
            s1.ev = None
            args = [Ref(SELF)] + [m.mk(b['locals'][i + 1][0], ('arg', i)) for i in range(1, b['args'])]
            m.steps = 0
            for st, v in m.exec_body(b, args, s1):
                o.paths += 1
                leave_transfer(o, m, st, v, b, prefix, kind, poll, w0, state0)
    o.merge(m)


def leave_transfer(o, m, s, v, b, prefix, kind, poll, w0, state0):
    evs = s.events()
    e = last_io(evs)
    if poll and e is not None:
        R(m, s, b, 'wake-context', same_place(m, s, e['cx'], ('arg', 2)), 'the stream is polled with another context than the caller\'s')
    rec = lambda st, rule, ok, msg: R(m, st, b, prefix + rule, ok, msg)
    r = split_result(m, v, poll)
    if r is None:
        return
    done = 'is_full' if kind == 'read' else 'is_empty'
    for st, d in o.accs(m, s, 'stream_state', done):
        now = d['stream_state']
        fin = m.as_bool(d[done])
        if e is None:
            # nothing was read or written, or the last transfer used up the room / the data
            rec(st, '-state', OR(state_is(m, now, NORMAL), AND(EQ(s.g('ios'), K(0)), same_state(m, now, state0))), 'the stream state is %r after successful transfers' % (now,))
            rec(st, '-result', r[0] == 'ok', 'fails without a cause')
            rec(st, '-until', fin, 'stops although more could be transferred')
        elif e.get('pending'):
            rec(st, '-state', state_is(m, now, WOULD), 'the stream state is %r after a pending operation' % (now,))
            rec(st, '-result', r[0] == 'pending', 'does not report that it is pending')
        elif io_failed(e):
            wb = kind_would_block(m, e) if not poll else False
            rec(st, '-state', OR(AND(wb, state_is(m, now, WOULD)), AND(NOT(wb), state_is(m, now, ERROR))), 'the stream state is %r after a failed operation' % (now,))
            rec(st, '-result', (wb if r[0] == 'ok' else NOT(wb) if r[0] == 'err' else False), 'a failed operation is reported as %s' % r[0])
            if r[0] == 'err':
                rec(st, '-error', mentions(r[1], e['err'].term, st), 'the error is replaced by another one')
        else:
            z = EQ(e['n'], K(0))
            rec(st, '-state', OR(AND(z, state_is(m, now, EOS_)), AND(NOT(z), state_is(m, now, NORMAL))), 'the stream state is %r after a transfer of %r bytes' % (now, e['n']))
            rec(st, '-result', r[0] == 'ok', 'fails although the last operation succeeded')
            rec(st, '-until', OR(z, fin), 'stops although more could be transferred')
    if kind == 'read':
        for st, w1 in rb_window(o, m, s):
            rec(st, '-kept', OR(EQ(w1.start, s.g('start')), AND(EQ(w0.len, K(0)), EQ(w1.len, K(0)))), 'bytes held before are no longer at the front')
            rec(st, '-added', EQ(w1.start + w1.len, s.g('end')), 'the buffer ends at %r instead of %r' % (w1.start + w1.len, s.g('end')))
    else:
        for st, w1 in wb_pending(o, m, s):
            if w1 is None:
                rec(st, '-left', EQ(s.g('left'), K(0)), '%r unwritten bytes are dropped' % (s.g('left'),))
            else:
                rec(st, '-left', same(w1, s.g('head'), s.g('left')), 'bytes [%r; +%r] are pending instead of [%r; +%r]' % (w1.start, w1.len, s.g('head'), s.g('left')))


@obj(('C15', 'C17'), RB)
def rb_fill(o):
    transfer(o, inherent(o.w, RB, 'fill'), 'fill', 'read', False)


@obj(('C15', 'C17', 'C26'), RB)
def rb_poll_fill(o):
    b = inherent(o.w, RB, 'poll_fill')
    if b is not None:
        transfer(o, b, 'fill', 'read', True)


@obj(('C16', 'C17'), WB)
def wb_flush(o):
    transfer(o, inherent(o.w, WB, 'flush'), 'flush', 'write', False)


@obj(('C16', 'C17', 'C26'), WB)
def wb_poll_flush(o):
    b = inherent(o.w, WB, 'poll_flush')
    if b is not None:
        transfer(o, b, 'flush', 'write', True)


def advanced(w0, w1, n):
    """the first n bytes are gone, the others are where they were"""
    return AND(EQ(w1.len + n, w0.len), OR(EQ(w1.len, K(0)), EQ(w1.start, w0.start + n)))


@obj('C15', RB)
def rb_decode(o):
    b, args = dec_probe(o, None or o.machine())
    m = o.machine()
    b, args = dec_probe(o, m)
    for s in o.initial(m):
        for s1, w0 in rb_window(o, m, s):
            (s1, state0), = o.acc(m, s1, 'stream_state')
            s1 = s1.copy()
            s1.ev = None
            m.steps = 0
            for st, v in m.exec_body(b, args, s1):
                o.paths += 1
                cs = [e[2] for e in st.events() if e[0] == 'comp']
                R(m, st, b, 'rb-decode-once', len(cs) == 1 and cs[0]['kind'] == 'decode', 'the decoder is called %d times' % len(cs))
                if len(cs) != 1:
                    continue
                c = cs[0]
                R(m, st, b, 'rb-decode-window', AND(inner_place(c['win']), same(c['win'], w0.start, w0.len)), 'the decoder is not given what the buffer holds')
                for x, ev in o.w.eos_rem(m, st, c['eos']):
                    f, g = bc_finite(m, ev, K(0)), state_is(m, state0, EOS_)
                    R(m, x, b, 'rb-decode-eos', AND(IMP(f, g), AND(IMP(g, f), OR(f, bc_var(m, ev, 2)))), 'the decoder is told that %r remain in stream state %r' % (ev, state0))
                ok = c['err'] is None
                R(m, st, b, 'rb-decode-result', ok == is_ok(v), 'the decoder\'s result is not passed on')
                if not ok and not is_ok(v):
                    R(m, st, b, 'rb-decode-error', mentions(v, c['err'].term, st), 'the error is replaced by another one')
                for x, w1 in rb_window(o, m, st):
                    R(m, x, b, 'rb-decode-consumes', advanced(w0, w1, c['n'] if ok else K(0)), 'after the decoder took %r of [%r; +%r], the buffer holds [%r; +%r]' % (
                        c['n'], w0.start, w0.len, w1.start, w1.len))
                for x, sv in o.acc(m, st, 'stream_state'):
                    R(m, x, b, 'rb-decode-state', same_state(m, sv, state0), 'decoding changes the stream state')
    o.merge(m)


class CopyMon(machine.Monitor):
    """counts the bytes that were moved, in order, from [sstart..] of one place to [dstart..] of another"""

    def __init__(self, b, prefix):
        self.b, self.prefix = b, prefix

    def expect(self, m, s, droot, dstart, sroot, sstart):
        self.d, self.s = (droot, dstart), (sroot, sstart)
        s.setg('moved', K(0))

    def move(self, m, s, d, r, n):
        done = s.g('moved')
        if done is None:
            return
        R(m, s, self.b, self.prefix + '-copy', OR(EQ(n, K(0)), AND(d[0] == self.d[0] and r[0] == self.s[0],
          AND(EQ(d[1], self.d[1] + done), EQ(r[1], self.s[1] + done)))), 'bytes are copied from offset %r to %r' % (r[1], d[1]))
        s.setg('moved', done + n)

    def on_copy(self, m, s, dst, src, site):
        if dst.root == self.d[0] or src.root == self.s[0]:
            self.move(m, s, (dst.root, dst.start), (src.root, src.start), dst.len)

    def on_store(self, m, s, root, path, val, site):
        if root != self.d[0] or s.g('moved') is None:
            return
        src = byte_of(val)
        if src is not None and same_place(src[0], self.s[0]):
            self.move(m, s, (root, path[-1][1]), (self.s[0], src[1]), K(1))
        else:
            s.taint = s.taint + ('store at %s' % site,)

    def on_store_range(self, m, s, sref, val, site):
        if sref.root == self.d[0]:
            s.taint = s.taint + ('store at %s' % site,)


BUFA = ('S', ('arg', 'buf'))


@obj('C15', RB)
def rb_read(o):
    b = [x for p, x in o.w.fnbody.items() if p.startswith('<io::ReadBuf<') and p.endswith('std::io::Read>::read')][0]
    mon = CopyMon(b, 'rb-read')
    m = o.machine()
    for s in o.initial(m):
        for s1, w0 in rb_window(o, m, s):
            s1 = s1.copy()
            s1.ev = None
            buf = m.mk(b['locals'][2][0], ('arg', 'buf'))
            m.read(s1, BUFA, ())
            mon.expect(m, s1, BUFA, K(0), SELF, w0.start)
            m.steps, m.mon = 0, mon
            outs = m.exec_body(b, [Ref(SELF), buf], s1)
            m.mon = machine.Monitor()
            for st, v in outs:
                o.paths += 1
                R(m, st, b, 'rb-read-ok', is_ok(v), 'reading from the buffer fails')
                if not is_ok(v):
                    continue
                n = v.f[0]
                R(m, st, b, 'rb-read-count', is_min(n, buf.len, w0.len), '%r bytes are read of %r with a buffer of %r' % (n, w0.len, buf.len))
                copied(m, st, b, 'rb-read', n)
                for x, w1 in rb_window(o, m, st):
                    R(m, x, b, 'rb-read-consumes', advanced(w0, w1, n), 'after %r of [%r; +%r] were read, the buffer holds [%r; +%r]' % (n, w0.start, w0.len, w1.start, w1.len))
    o.merge(m)


def copied(m, s, b, prefix, n):
    """the copies on the path moved exactly n bytes"""
    R(m, s, b, prefix + '-copied', EQ(s.g('moved'), n), '%r bytes are reported but %r are copied' % (n, s.g('moved')))


# ------------------------------------------------------------------ WriteBuf
@obj('C16', WB)
def wb_numbers(o):
    m = o.machine()
    b = inherent(o.w, WB, 'len')
    for s in o.initial(m):
        for st, w in wb_pending(o, m, s):
            o.paths += 1
            if w is not None:
                R(m, st, b, 'wb-window', inner_place(w), 'what is written is not the buffer itself')
            numbers(o, m, b, st, w.len if w is not None else K(0), 'wb')
            for x, r in wb_room(o, m, st):
                R(m, x, b, 'wb-free', inner_place(r), 'encoders do not write to the buffer itself')
                if w is not None:
                    R(m, x, b, 'wb-free', OR(EQ(r.len, K(0)), EQ(r.start, w.start + w.len)), 'new bytes go to offset %r but the pending ones end at %r' % (r.start, w.start + w.len))
                for y, q in o.acc(m, x, 'room'):
                    R(m, y, b, 'wb-room-used', EQ(r.len, q), 'encoders get %r bytes although room() is %r' % (r.len, q))
    o.merge(m)


def appended(o, m, s, b, rule, w0, fstart, n):
    for x, w1 in wb_pending(o, m, s):
        if w1 is None:
            ok = AND(w0 is None, EQ(n, K(0)))
        elif w0 is None:
            ok = same(w1, fstart, n)
        else:
            ok = same(w1, w0.start, w0.len + n)
        R(m, x, b, rule, ok, 'after %r bytes were added to %r, %r is pending' % (n, w0, w1))


def wb_encode_(o, name):
    m = o.machine()
    b, args = enc_probe(o, m, name)
    for s in o.initial(m):
        for s0, w0 in wb_pending(o, m, s):
            (s1, state0), = o.acc(m, s0, 'stream_state')
            s1 = s1.copy()
            s1.ev = None
            m.steps = 0
            for st, v in m.exec_body(b, args, s1):
                o.paths += 1
                cs = [e[2] for e in st.events() if e[0] == 'comp']
                R(m, st, b, 'wb-encode-once', len(cs) == 1 and cs[0]['kind'] == 'encode', 'the encoder is called %d times' % len(cs))
                if len(cs) != 1:
                    continue
                c = cs[0]
                for x, ev in o.w.eos_rem(m, st, c['eos']):
                    f, g = bc_finite(m, ev, K(0)), state_is(m, state0, EOS_)
                    R(m, x, b, 'wb-encode-eos', AND(IMP(f, g), AND(IMP(g, f), OR(f, bc_var(m, ev, 2)))), 'the encoder is told that %r remain in stream state %r' % (ev, state0))
                ok = c['err'] is None
                R(m, st, b, 'wb-encode-result', ok == is_ok(v), 'the encoder\'s result is not passed on')
                if not ok and not is_ok(v):
                    R(m, st, b, 'wb-encode-error', mentions(v, c['err'].term, st), 'the error is replaced by another one')
                appended(o, m, st, b, 'wb-encode-adds', w0, c['win'].start, c['n'] if ok else K(0))
                for x, sv in o.acc(m, st, 'stream_state'):
                    R(m, x, b, 'wb-encode-state', same_state(m, sv, state0), 'encoding changes the stream state')
    o.merge(m)


@obj('C16', WB)
def wb_encode(o):
    wb_encode_(o, 'encode_to_write_buf')


@obj('C16', WB)
def wb_encode_async(o):
    if any(p.endswith('IoEncodeExt::encode_to_write_buf_async') for p in o.w.fnbody):
        wb_encode_(o, 'encode_to_write_buf_async')


@obj('C16', WB)
def wb_write(o):
    b = [x for p, x in o.w.fnbody.items() if p.startswith('<io::WriteBuf<') and p.endswith('std::io::Write>::write')][0]
    mon = CopyMon(b, 'wb-write')
    m = o.machine()
    for s in o.initial(m):
        for s0, w0 in wb_pending(o, m, s):
            for s1, r in wb_room(o, m, s0):
                s1 = s1.copy()
                s1.ev = None
                buf = m.mk(b['locals'][2][0], ('arg', 'buf'))
                m.read(s1, BUFA, ())
                mon.expect(m, s1, SELF, r.start, BUFA, K(0))
                m.steps, m.mon = 0, mon
                outs = m.exec_body(b, [Ref(SELF), buf], s1)
                m.mon = machine.Monitor()
                for st, v in outs:
                    o.paths += 1
                    R(m, st, b, 'wb-write-ok', is_ok(v), 'writing to the buffer fails')
                    if not is_ok(v):
                        continue
                    n = v.f[0]
                    R(m, st, b, 'wb-write-count', is_min(n, buf.len, r.len), '%r of %r bytes are written with %r bytes of room' % (n, buf.len, r.len))
                    copied(m, st, b, 'wb-write', n)
                    appended(o, m, st, b, 'wb-write-adds', w0, r.start, n)
    o.merge(m)


def rep_type(w, adt):
    ct, mu = w.class_methods_cached()[(adt, '')]
    return mu[0][2] if mu else ct[0][2]


# ------------------------------------------------------------------ waking
class WakeMon(machine.Monitor):
    def __init__(self, waker):
        self.waker = waker

    def on_io(self, m, s, kind, info):
        if kind == 'wake' and isinstance(info['waker'], Opq) and info['waker'].term == self.waker:
            s.setg('asleep', K(0))


def wakes(o, name):
    """a task whose encoder found the buffer full is woken as soon as the buffer has room again"""
    eb = [x for p, x in o.w.fnbody.items() if p.endswith('IoEncodeExt::encode_to_write_buf_async')]
    fb = inherent(o.w, WB, name)
    if not eb or fb is None:
        return
    m = o.machine()
    eb, eargs = enc_probe(o, m, 'encode_to_write_buf_async')
    cx = eargs[-1]
    for s in o.initial(m):
        s = s.copy()
        s.ev = None
        m.steps = 0
        for st, v in m.exec_body(eb, eargs, s):
            if not is_ok(v):
                continue
            cs = [e[2] for e in st.events() if e[0] == 'comp']
            if len(cs) != 1:
                continue
            for x, room in o.acc(m, st, 'room'):
                for y0 in assume(x, EQ(room, K(0))):
                    for y in assume(y0, NOT(is_idle(cs[0]['after']))):
                        y = y.copy()
                        y.ev = None
                        y.setg('asleep', K(1))
                        m.mon = WakeMon(waker_term(m, y, cx))
                        args = [Ref(SELF)] + [m.mk(fb['locals'][i + 1][0], ('arg', i)) for i in range(1, fb['args'])]
                        for z, r in m.exec_body(fb, args, y):
                            o.paths += 1
                            for q, room1 in o.acc(m, z, 'room'):
                                R(m, q, fb, 'wake-encoder', OR(EQ(room1, K(0)), EQ(q.g('asleep'), K(0))),
                                  'the buffer has regained room, but the waker memorised by encode_to_write_buf_async is not called')
                        m.mon = machine.Monitor()
    o.merge(m)


def waker_term(m, s, cx):
    """the waker of a context"""
    from natives import chase
    v = chase(m, s, cx)[1]
    w = m.read(s, ('S', ('waker', v.term)), ())
    return w.term if isinstance(w, Opq) else None


@obj('C26', WB)
def wb_wake(o):
    wakes(o, 'flush')


@obj('C26', WB)
def wb_poll_wake(o):
    wakes(o, 'poll_flush')


# ------------------------------------------------------------------ BufferedIo
def bufs(o, m, s):
    """[(state, read buffer place, write buffer place, stream place)]"""
    out = []
    for x, r in o.acc(m, s, 'read_buf_ref'):
        for y, w in o.acc(m, x, 'write_buf_ref'):
            for z, t in o.acc(m, y, 'stream_ref'):
                out.append((z, r, w, t))
    return out


def of(o, m, s, adt, r, *names):
    outs = [(s, {})]
    for n in names:
        outs = [(y, dict(d, **{n: v})) for x, d in outs for y, v in o.acc(m, x, n, (adt, r))]
    return outs


def within(win, place):
    return win.root == place.root and tuple(win.path[:len(place.path)]) == tuple(place.path)


@obj('C17', BIO)
def bio_new(o):
    if o.mode != 'inv':
        return
    m = o.machine()
    b = inherent(o.w, BIO, 'new')
    for st, v, args in o.w.run_fn(m, b, ''):
        st = st.copy()
        st.mem[SELF] = v
        m.rty[SELF] = v.ty
        for x, r, w, t in bufs(o, m, st):
            o.paths += 1
            for adt, p, a, what in ((RB, r, args[1], 'read'), (WB, w, args[2], 'write')):
                for y, d in of(o, m, x, adt, p, 'capacity', 'len', 'room', 'stream_state'):
                    R(m, y, b, 'bio-new', AND(EQ(d['capacity'], a), AND(EQ(d['len'], K(0)), EQ(d['room'], a))),
                      'the %s buffer of a new stream has capacity %r instead of %r, holds %r' % (what, d['capacity'], a, d['len']))
                    R(m, y, b, 'bio-new-state', state_is(m, d['stream_state'], NORMAL), 'the %s buffer of a new stream is in state %r' % (what, d['stream_state']))
            sv = m.read(x, t.root, t.path)
            R(m, x, b, 'bio-new-stream', sv == args[0], 'the new stream wraps %r' % (sv,))
    o.merge(m)


def iff(f, g):
    return AND(IMP(f, g), IMP(g, f))


@obj('C17', BIO)
def bio_tests(o):
    m = o.machine()
    for s in o.initial(m):
        for x, r, w, t in bufs(o, m, s):
            for y, d in of(o, m, x, RB, r, 'stream_state'):
                for z, e in of(o, m, y, WB, w, 'stream_state', 'is_empty'):
                    o.paths += 1
                    rs, ws = d['stream_state'], e['stream_state']
                    for q, v in o.acc(m, z, 'is_eos'):
                        R(m, q, inherent(o.w, BIO, 'is_eos'), 'bio-eos', iff(m.as_bool(v), OR(state_is(m, rs, EOS_), state_is(m, ws, EOS_))),
                          'is_eos() is %r in states %r and %r' % (v, rs, ws))
                    for q, v in o.acc(m, z, 'would_block'):
                        R(m, q, inherent(o.w, BIO, 'would_block'), 'bio-would-block',
                          iff(m.as_bool(v), AND(state_is(m, rs, WOULD), OR(m.as_bool(e['is_empty']), state_is(m, ws, WOULD)))),
                          'would_block() is %r in states %r and %r' % (v, rs, ws))
    o.merge(m)


class BioMon(machine.Monitor):
    def __init__(self, b, r, w, t):
        self.b, self.r, self.w, self.t = b, r, w, t

    def on_io(self, m, s, kind, info):
        if kind == 'wake':
            return
        p = self.r if kind == 'read' else self.w
        R(m, s, self.b, 'bio-buffer', kind in ('read', 'write') and within(info['win'], p), '%s does not use the %s buffer' % (kind, kind))
        R(m, s, self.b, 'bio-stream', (info['root'], tuple(info['path'])) == (self.t.root, tuple(self.t.path)), '%s does not use the inner stream' % kind)


def execute(o, b, poll):
    m = o.machine()
    for s in o.initial(m):
        for s1, r, w, t in bufs(o, m, s):
            s1 = s1.copy()
            s1.ev = None
            m.mon = BioMon(b, r, w, t)
            args = [Ref(SELF)] + [m.mk(b['locals'][i + 1][0], ('arg', i)) for i in range(1, b['args'])]
            if poll:
                sty = m.P.ty(b['locals'][1][0])
                args[0] = Agg(b['locals'][1][0], (Ref(SELF),)) if sty['k'] == 'adt' else Ref(SELF)
            m.steps = 0
            for st, v in m.exec_body(b, args, s1):
                o.paths += 1
                executed(o, m, st, v, b, poll, r, w)
            m.mon = machine.Monitor()
    o.merge(m)


def executed(o, m, st, v, b, poll, r, w):
    res = split_result(m, v, poll)
    if res is None:
        return
    ios = [(e[1], e[2]) for e in st.events() if e[0] == 'io']
    last = {}
    for k, e in ios:
        last[k] = e
    pend = [bool(last.get(k, {}).get('pending')) for k in ('read', 'write')]
    hard = False
    for k, e in last.items():
        if io_failed(e):
            hard = OR(hard, NOT(kind_would_block(m, e)) if not poll else True)
    R(m, st, b, 'bio-failure', iff(res[0] == 'err', hard), 'the result is %s although an operation failed or although none did' % res[0])
    if res[0] == 'err':
        es = [e['err'] for e in last.values() if io_failed(e)]
        R(m, st, b, 'bio-error', any(mentions(res[1], e.term, st) for e in es), 'the error is replaced by another one')
    if poll:
        R(m, st, b, 'bio-pending', (res[0] == 'pending') == all(pend), 'the result is %s, but reading is%s pending and writing is%s pending' % (
            res[0], '' if pend[0] else ' not', '' if pend[1] else ' not'))
    if res[0] == 'ok':
        for x, d in of(o, m, st, RB, r, 'is_full', 'stream_state'):
            q = d['stream_state']
            R(m, x, b, 'bio-fills', OR(m.as_bool(d['is_full']), OR(state_is(m, q, EOS_), state_is(m, q, WOULD))), 'more could be read in state %r' % (q,))
        for x, d in of(o, m, st, WB, w, 'is_empty', 'stream_state'):
            q = d['stream_state']
            R(m, x, b, 'bio-flushes', OR(m.as_bool(d['is_empty']), OR(state_is(m, q, EOS_), state_is(m, q, WOULD))), 'more could be written in state %r' % (q,))


@obj('C17', BIO)
def bio_execute(o):
    execute(o, inherent(o.w, BIO, 'execute_io'), False)


@obj('C17', BIO)
def bio_execute_poll(o):
    b = inherent(o.w, BIO, 'execute_io_poll')
    if b is not None:
        execute(o, b, True)
