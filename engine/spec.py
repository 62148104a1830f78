"""Obligations of every codec (incremental decoding/encoding protocol)."""
from core import *
import random
import machine
import natives
import world
from world import World, Codec

BUF = ('S', ('arg', 'buf'))
SELF = ('S', ('self',))


def byte_of(v):
    """(container, index) when the value is a byte of a container"""
    if isinstance(v, Lin) and len(v.t) == 1 and v.t[0][1] == 1 and v.c == 0:
        t = NSym.term[v.t[0][0]]
        if isinstance(t, tuple) and t[0] == 'el' and len(t) == 3 and isinstance(t[2], Lin):
            return t[1], t[2]
    return None


def length_of(m, t, r0):
    """length of the container a byte was taken from, when the requirement r0 is counted from it"""
    if isinstance(t, Arr):
        return K(len(t.e))
    if not isinstance(t, tuple):
        return None
    ln = m.len_of(Opq(None, t))
    return ln if any(v == ln.t[0][0] for v, k in r0.t) else None


def same_place(t, root):
    """the term stands for (part of) the memory at root as it was on entry"""
    return t == root[1] or isinstance(t, tuple) and any(isinstance(x, tuple) and same_place(x, root) for x in t)


class Flow(machine.Monitor):
    """Tracks how much of the caller's buffer has been accounted for (ghost `pos`)."""

    def __init__(self, site):
        self.site = site
        self.r0 = None          # bytes still required when the call began (fixed-size leaf codecs)
        self.role = None
        self.extra = []

    def rec(self, m, s, rule, ok, msg):
        m.rec(s, 'R', rule, ok, msg=msg, site=self.site)

    def adv(self, m, s, start, n, what, site, rule='win-contig'):
        pos = s.g('pos')
        if pos is None:
            return
        self.rec(m, s, rule, OR(EQ(n, K(0)), EQ(start, pos)),
                 '%s at %s touches the caller\'s buffer at %r instead of at the bytes accounted for so far (%r)' % (what, site, start, pos))
        s.setg('pos', pos + n)

    # -- components
    def on_component(self, m, s, kind, comp, info):
        if kind in ('decode', 'encode'):
            win = info['win']
            if win is not None and win.root == BUF:
                pos = s.g('pos')
                if pos is not None:
                    self.rec(m, s, 'win-contig', OR(EQ(win.len, K(0)), EQ(win.start, pos)),
                             'component %s called at %s with a window starting at %r, expected %r' % (kind, info['site'], win.start, pos))
                    self.eos_relay(m, s, kind, comp, info, pos)
            self.rec_order(m, s, kind, comp, info)
        elif kind == 'finish':
            if s.g('phase') == 'decode':
                self.rec(m, s, 'finish-ready', is_idle(comp.term),
                         'decode() at %s asks a component for its item while the component may be unfinished' % info['site'])
        elif kind == 'start':
            if s.g('phase') in ('encode',):
                self.rec(m, s, 'start-ready', is_idle(comp.term),
                         'encode() at %s starts a new item while the component may still hold one' % info['site'])
            elif s.g('phase') == 'start' and s.g('idle0') and s.g('wrote') is None:
                self.rec(m, s, 'start-ready', is_idle(comp.term),
                         'start_encoding() at %s starts a component that may still hold an item' % info['site'])
        for x in self.extra:
            x.on_component(m, s, kind, comp, info)

    def eos_relay(self, m, s, kind, comp, info, pos):
        eos0 = s.g('eos')
        if eos0 is None or self.no_eos_rule:
            return
        w = self.world
        L = s.g('len')
        rest = L - pos - info['win'].len
        for st, v in w.eos_rem(m, s, info['eos']):
            f = same_bc(m, st, v, eos0, rest)
            if self.eos_exc is not None:
                f = OR(f, self.eos_exc(m, st, v, info))
            self.rec(m, st, 'eos-relay', f,
                     'component %s at %s is told %r remain after its window; the stream has %r after the caller\'s buffer and %r unpassed' % (kind, info['site'], v, eos0, rest))

    def on_back(self, m, s, back):
        if not m.silent:
            for g in BACK:
                g(self.sp, m, s, back, self.mn)

    no_eos_rule = False
    eos_exc = None
    world = None
    order = None

    def rec_order(self, m, s, kind, comp, info):
        if self.order is not None:
            self.order(self, m, s, kind, comp, info)

    def on_component_ret(self, m, s, kind, comp, info, res):
        if kind in ('decode', 'encode') and res is not None:
            win = info['win']
            if win is not None and win.root == BUF and s.g('pos') is not None:
                s.setg('pos', s.g('pos') + res)
            if s.g('wrote') is not None:
                s.setg('wrote', s.g('wrote') + res)
        for x in self.extra:
            x.on_component_ret(m, s, kind, comp, info, res)

    # -- direct copies
    def on_copy(self, m, s, dst, src, site):
        if src.root == BUF:
            self.position(m, s, dst, site)
            self.adv(m, s, src.start, src.len, 'copy', site)
        if dst.root == BUF:
            self.position(m, s, src, site)
            self.adv(m, s, dst.start, dst.len, 'copy', site)
        for x in self.extra:
            x.on_copy(m, s, dst, src, site)

    def position(self, m, s, sr, site):
        """fixed-size leaf codec: byte k of the item lives at offset k of its container"""
        r0 = s.g('r0')
        if r0 is None:
            return
        try:
            c = m.read(s, sr.root, sr.path)
            ln = m.len_of(c)
        except KeyError:
            return
        self.rec(m, s, 'item-position', OR(EQ(sr.len, K(0)), EQ(sr.start, ln - r0 + s.g('pos'))),
                 'bytes copied at %s use item offset %r, but %r bytes of the item were already transferred' % (site, sr.start, ln - r0 + s.g('pos')))

    def on_append(self, m, s, ref, src, site):
        if src.root == BUF:
            self.adv(m, s, src.start, src.len, 'append', site)
        for x in self.extra:
            x.on_append(m, s, ref, src, site)

    def on_store(self, m, s, root, path, val, site):
        if not path or path[-1][0] != 'e':
            return
        src = byte_of(val)
        if root == BUF:
            if src is not None and s.g('r0') is not None:
                self.offset(m, s, src[1], length_of(m, src[0], s.g('r0')), site)
            self.adv(m, s, path[-1][1], K(1), 'store', site)
            for x in self.extra:
                x.on_store(m, s, root, path, val, site)
        elif src is not None and same_place(src[0], BUF):
            if s.g('r0') is not None:
                try:
                    self.offset(m, s, path[-1][1], m.len_of(m.read(s, root, path[:-1])), site)
                except KeyError:
                    pass
            self.adv(m, s, src[1], K(1), 'load', site)

    def offset(self, m, s, i, ln, site):
        if ln is not None:
            at = ln - s.g('r0') + s.g('pos')
            self.rec(m, s, 'item-position', EQ(i, at), 'byte %r of the item is moved at %s when it is the turn of byte %r' % (i, site, at))

    def on_store_range(self, m, s, sref, val, site):
        if sref.root == BUF:
            self.adv(m, s, sref.start, sref.len, 'fill', site)
        for x in self.extra:
            x.on_store_range(m, s, sref, val, site)

    def on_io(self, m, s, kind, info):
        for x in self.extra:
            x.on_io(m, s, kind, info)

    def on_io_ret(self, m, s, kind, info, res):
        if kind == 'mono_read' and info['win'].root == BUF:
            self.adv(m, s, info['win'].start, res, 'read', info['site'])
        for x in self.extra:
            x.on_io_ret(m, s, kind, info, res)

    def on_read_elem(self, m, s, root, path, idx):
        for x in self.extra:
            x.on_read_elem(m, s, root, path, idx)


def is_idle(t):
    return ('p', ('idle', t))


def bc_var(m, v, k):
    return m.is_variant(v, k, 3)


def bc_n(m, v):
    """payload of a ByteCount as if Finite"""
    if isinstance(v, Enum):
        return v.f[0] if v.k == 0 else None
    return m.proj(v, ('v', 0, 0))


def bc_finite(m, v, n):
    p = bc_n(m, v)
    if p is None:
        return False
    return AND(bc_var(m, v, 0), EQ(p, n))


def same_bc(m, s, a, b, plus):
    """a == b (+ plus when finite)"""
    f = False
    pa, pb = bc_n(m, a), bc_n(m, b)
    if pa is not None and pb is not None:
        # saturating: an end further away than any representable distance stays unreachable
        MAX = K((1 << 64) - 1)
        f = AND(AND(bc_var(m, a, 0), bc_var(m, b, 0)),
                OR(EQ(pa, pb + plus), AND(LT(MAX, pb + plus), EQ(pa, MAX))))
    for k in (1, 2):
        f = OR(f, AND(bc_var(m, a, k), bc_var(m, b, k)))
    return f


def mentions(val, term, s):
    """does value `val` derive from the error `term`"""
    seen = set()
    apps = {}
    for e in s.events():
        if e[0] == 'app' and isinstance(e[1]['res'], Opq):
            apps[e[1]['res'].term] = e[1]['args']

    def walk(x):
        if id(x) in seen:
            return False
        seen.add(id(x))
        if isinstance(x, Opq):
            if x.term == term:
                return True
            if x.term in apps and any(walk(a) for a in apps[x.term]):
                return True
            return walk(x.term)
        if isinstance(x, (Agg, Enum)):
            return any(walk(y) for y in x.f)
        if isinstance(x, tuple):
            if x == term:
                return True
            if x in apps and any(walk(a) for a in apps[x]):
                return True
            return any(walk(y) for y in x)
        return False
    return walk(val)


ERRKINDS = ('InvalidInput', 'InconsistentState', 'UnexpectedEos', 'EncoderFull', 'DecoderTerminated',
            'IncompleteDecoding', 'Other')


def kind_names(P):
    a = P.adts.get('error::ErrorKind') or P.adts.get('ErrorKind')
    return [v['n'] if 'n' in v else v.get('name') for v in a['variants']] if a else list(ERRKINDS)


def retype(m, v, ty):
    """a value built for generic parameters, as one of the instance ty (None: built for another instance)"""
    t = m.P.ty(ty)
    fts = t['elems'] if t['k'] == 'tuple' else t['vfields'][0] if t['k'] == 'adt' and len(t.get('vfields') or ()) == 1 else None
    if fts is None or len(fts) != len(v.f):
        return None if t['k'] == 'tuple' else Agg(ty, v.f)
    out = []
    for x, ft in zip(v.f, fts):
        k = m.P.ty(ft)['k']
        if isinstance(x, Opq) and m.P.ty(x.ty)['k'] == 'param' and k == 'tuple':
            x = m.mk(ft, x.term)
        elif isinstance(x, Agg) and k == 'tuple':
            x = retype(m, x, ft)
            if x is None:
                return None
        out.append(x)
    return Agg(ty, tuple(out) if isinstance(v.f, tuple) else out)


OLD = ('H', ('before',))


# encoders that must be as new for the next item even after a failure
FRESH_START = {'Length'}


class CodecSpec:
    def __init__(self, w, c, unroll=None, init='inv', want=None, budget=60000, depth=2):
        self.w = w
        self.c = c
        self.P = w.P
        self.unroll = unroll
        self.init = init
        self.want = want            # restrict to these methods (None: all)
        self.budget = budget
        self.depth = depth
        self.recs = {}
        self.errors = []
        self.paths = 0
        self.fns = set()
        self.kinds = kind_names(w.P)
        self.short = (c.adt or c.name).split('::')[-1]
        self.anyset = False         # setters may also be called in the middle of an item

    # ---------------------------------------------------------------- plumbing
    def site(self, mn):
        names = {'decode': 'decode', 'finish': 'finish_decoding', 'requiring': 'requiring_bytes', 'is_idle': 'is_idle',
                 'encode': 'encode', 'start': 'start_encoding', 'exact': 'exact_requiring_bytes', 'tag': 'start_decoding',
                 'trytag': 'try_start_decoding'}
        tr = 'Decode' if self.c.role == 'dec' else 'Encode'
        return '<%s as %s>::%s' % (self.c.name, tr, names[mn])

    def machine(self, mon):
        m = self.w.machine(mon, self.unroll, self.budget)
        m.rty[SELF] = self.c.ty
        mon.world = self.w
        return m

    def initial(self, m):
        """symbolic receiver states"""
        if self.init == 'inv':
            s = State()
            m.read(s, SELF, ())
            return self.w.assume_inv(m, s, SELF, (), self.c.ty, self.c.role)
        return self.reach(m)

    def reach(self, m):
        """states reachable from the constructors by a few successful calls (no invariants assumed)"""
        w, c = self.w, self.c
        out = []
        cls = w.class_methods_cached()
        key = (c.adt, c.role)
        if c.adt is None or key not in cls:
            s = State()
            m.read(s, SELF, ())
            return [s]
        base = []
        m.silent += 1
        mon, m.mon = m.mon, machine.Monitor()
        try:
            for b, k, rty in cls[key][0]:
                if rty != c.ty and len(w.by_adt.get((c.role, c.adt), [])) > 1:
                    pass
                if any(P_arg_is(self.P, b['locals'][i + 1][0], c.adt) for i in range(b['args'])):
                    continue
                if b['path'].endswith('::clone') or b['path'] in w.hidden:
                    continue
                try:
                    outs = w.run_fn(m, b, c.role)
                except GIVEUP:
                    continue
                for st, v, args in outs:
                    if k is not None:
                        if not isinstance(v, Enum) or v.k != k:
                            continue
                        v = v.f[0]
                    if isinstance(v, Opq):
                        v = m.expand(v)
                    if not isinstance(v, Agg):
                        continue
                    # retype to the codec's own type so that projections resolve
                    v = retype(m, v, c.ty)
                    if v is None:
                        continue
                    st = st.copy()
                    st.mem = {SELF: v}
                    st.ev = None
                    st.note('constructed by %s' % b['path'])
                    sts = [st]
                    if c.role == 'enc' and not world.busy_ok(c.adt or ''):
                        for lp, kk, g in w.leaves(c.ty):
                            if kk == 'comp':
                                nsts = []
                                for x in sts:
                                    cv = w.val(m, x, SELF, (), lp)
                                    if isinstance(cv, Opq):
                                        nsts += assume(x, is_idle(cv.term))
                                    else:
                                        nsts.append(x)
                                sts = nsts
                    base += sts
            sets = w.setters(key)
            base += [x for st in base for b in sets for x in self.set_once(m, st, b, 's')]
            if self.depth >= 3:
                cur, base = base, []
                for k in range(3):
                    cur = self.whole_item(m, cur, k)
                    base += cur
                base = base + [x for st in base[:6] for b in sets for x in self.set_once(m, st, b, 'sw')]
            out += base
            cur = base
            for d in range(min(self.depth, 2)):
                nxt = []
                for mn in ('decode', 'finish', 'start', 'encode'):
                    if mn not in c.m:
                        continue
                    share = len(nxt) + 120
                    for st in cur:
                        if len(nxt) > share:
                            break
                        m.steps = 0
                        had = len(nxt)
                        try:
                            for x, v in self.call(m, st, mn, 'p%d' % d):
                                if isinstance(v, Enum) and v.k != 0 and not (mn == 'encode' and self.want == {'start'} and self.short in FRESH_START):
                                    continue
                                if len(nxt) > had + 16:
                                    break
                                x = x.copy()
                                x.mem = {SELF: x.mem[SELF]}
                                x.ev = None
                                x.note('%s() = %r' % (mn, v))
                                nxt.append(x)
                        except GIVEUP:
                            pass
                few = [x for x in nxt if self.anyset or self.short not in SET_BETWEEN or (x.trail_list() or [''])[-1].startswith('finish')]
                random.Random(2).shuffle(few)
                for b in sets:
                    share = len(nxt) + 60
                    for st in few:
                        if len(nxt) > share:
                            break
                        nxt += self.set_once(m, st, b, 's%d' % d)
                random.Random(1).shuffle(nxt)        # a search cut short should still have seen all sorts of histories
                out += nxt
                cur = nxt
        finally:
            m.silent -= 1
            m.mon = mon
            m.steps = 0
        return out

    def whole_item(self, m, cur, k):
        """states after one more item has been decoded or encoded, in one call or in two"""
        mn = 'decode' if 'decode' in self.c.m else 'encode'
        rnd = random.Random(k)

        def done(st, name, tag):
            """[(state, idle)] after a successful call"""
            outs = []
            m.steps = 0
            try:
                for x, v in self.call(m, st, name, tag):
                    if isinstance(v, Enum) and v.k != 0:
                        continue
                    x = x.copy()
                    x.mem = {SELF: x.mem[SELF]}
                    x.ev = None
                    x.note('%s() = %r' % (name, v))
                    for y, f in self.observe(m, x, 'is_idle'):
                        f = m.as_bool(f)
                        for on in (True, False):
                            for z in assume(y, f if on else NOT(f)):
                                z = z.copy()
                                z.mem = {SELF: z.mem[SELF]}
                                z.ev = None
                                outs.append((z, on))
            except GIVEUP:
                pass
            rnd.shuffle(outs)
            return outs
        one, two = [], []
        for st in cur:
            sts = [st]
            if mn == 'encode':
                sts = [x for x, on in done(st, 'start', 'w%ds' % k)][:6] if 'start' in self.c.m else []
            for x in sts:
                a = done(x, mn, 'w%da' % k)
                one += [y for y, on in a if on][:4]
                for y in [y for y, on in a if not on][:3]:
                    two += [z for z, on in done(y, mn, 'w%db' % k) if on][:3]
        outs = []
        for part in (one, two):
            rnd.shuffle(part)
            got = []
            for st in part:
                if mn == 'decode':
                    got += [x for x, on in done(st, 'finish', 'w%df' % k)][:2]
                else:
                    got.append(st)
                if len(got) >= 5:
                    break
            outs += got[:5]
        return outs

    def set_once(self, m, st, b, tag):
        """states after a successful call of a public setter"""
        out = []
        args = [Ref(SELF)] + [m.mk(b['locals'][i + 1][0], ('arg', i, tag)) for i in range(1, b['args'])]
        m.steps = 0
        try:
            for x, v in m.exec_body(b, args, st.copy()):
                if isinstance(v, Enum) and v.k != 0:
                    continue
                x = x.copy()
                x.mem = {SELF: x.mem[SELF]}
                x.ev = None
                x.note('%s(%s)' % (b['path'].split('::')[-1], ', '.join('%r' % (a,) for a in args[1:])))
                out.append(x)
        except GIVEUP:
            pass
        return out

    def call(self, m, st, mn, tag):
        """plain call with fresh symbolic arguments"""
        b = self.c.m[mn]
        args = [Ref(SELF)]
        st = st.copy()
        for i in range(1, b['args']):
            t = self.P.ty(b['locals'][i + 1][0])
            term = ('arg', i, tag)
            args.append(m.mk(b['locals'][i + 1][0], term))
        return m.exec_body(b, args, st)

    # ---------------------------------------------------------------- observers
    def observe(self, m, s, mn):
        b = self.c.m.get(mn)
        if b is None:
            return []
        return m.exec_body(b, [Ref(SELF)], s)

    def part_idle(self, m, s):
        out = []
        if s.g('fails') is None:
            s = s.copy()
            s.setg('fails', K(0))
        for st, f in self.observe(m, s, 'is_idle'):
            f = m.as_bool(f)
            for x in assume(st, f):
                x = x.copy()
                x.setg('idle0', True)
                out.append(x)
            for x in assume(st, NOT(f)):
                x = x.copy()
                x.setg('idle0', False)
                out.append(x)
        return out

    def part_req(self, m, s):
        out = []
        for st, v in self.observe(m, s, 'requiring'):
            for k in range(3):
                for x in assume(st, bc_var(m, v, k)):
                    x = x.copy()
                    x.setg('req0', (k, bc_n(m, v) if k == 0 else None))
                    out.append(x)
        return out

    def post_idle(self, m, s):
        return [(st, m.as_bool(f)) for st, f in self.observe(m, s, 'is_idle')]

    def rec(self, m, s, rule, ok, msg, mn):
        return m.rec(s, 'R', rule, ok, msg=msg, site=self.site(mn))

    def merge(self, m):
        for k, r in m.recs.items():
            o = self.recs.get(k)
            if o is None:
                self.recs[k] = r
            else:
                o.proved += r.proved
                o.failed += r.failed
                o.undecided += r.undecided
        self.fns |= m.inlined

    def guard(self, mn, f):
        if mn not in self.c.m or (self.want is not None and mn not in self.want):
            return
        try:
            f()
        except GIVEUP as e:
            self.errors.append((self.site(mn), '%s: %s' % (type(e).__name__, e)))

    # ---------------------------------------------------------------- harnesses
    def run(self):
        c = self.c
        if c.role == 'dec':
            self.guard('decode', self.h_decode)
            self.guard('finish', self.h_finish)
            self.guard('tag', lambda: self.h_tag('tag'))
            self.guard('trytag', lambda: self.h_tag('trytag'))
        else:
            self.guard('encode', self.h_encode)
            self.guard('start', self.h_start)
            self.guard('exact', self.h_exact)
        self.guard('requiring', self.h_observers)
        return self

    def wide(self):
        """many independent components: the count of bytes still required is not partitioned"""
        t = self.P.ty(self.c.ty)
        return len([l for l in self.w.leaves(self.c.ty) if l[1] == 'comp']) > 3

    def enter(self, m, mn):
        """entry states of decode/encode with the ghost variables set"""
        b = self.c.m[mn]
        bty = b['locals'][2][0]
        ety = b['locals'][3][0]
        out = []
        for s in self.initial(m):
            s = s.copy()
            s.setg('phase', None)
            sts = self.part_idle(m, s)
            if not self.wide():
                sts = [y for x in sts for y in self.part_req(m, x)]
            for x in sts:
                x = x.copy()
                buf = m.mk(bty, ('arg', 'buf'))
                m.read(x, BUF, ())
                eos = m.mk(ety, ('arg', 'eos'))
                for y, v in self.w.eos_rem(m, x, eos):
                    y = y.copy()
                    y.setg('eos', v)
                    y.setg('len', buf.len)
                    y.setg('pos', K(0))
                    y.setg('phase', mn)
                    y.ev = None
                    rq = y.g('req0')
                    if rq and rq[0] == 0 and self.leaf() and not y.g('idle0'):
                        y.setg('r0', rq[1])
                    y.setg('self0', y.mem[SELF])
                    out.append((y, [Ref(SELF), buf, eos]))
        return out

    def leaf(self):
        """no opaque codec inside"""
        if not hasattr(self, '_leaf'):
            self._leaf = not codec_params(self.w, self.c)
        return self._leaf

    def eos_reached(self, m, s):
        v = s.g('eos')
        return bc_finite(m, v, K(0))

    def mon(self, mn):
        f = Flow(self.site(mn))
        f.role = self.c.role
        configure(self, f, mn)
        return f

    def h_decode(self):
        self.h_code('decode')
        self.h_told('decode')

    def h_encode(self):
        self.h_code('encode')
        self.h_told('encode')

    def h_told(self, mn):
        """a component left in the middle of its item by one call learns of the end of the stream in the next"""
        if self.leaf() or self.short in ('Slice', 'MaybeEos', 'Optional') or self.wide():
            return
        b = self.c.m[mn]
        m = self.machine(machine.Monitor())
        self.m2 = self.w.machine(machine.Monitor(), 2, self.budget)
        self.m2.rty = m.rty
        self.m2.recs = m.recs
        d, self.depth = self.depth, 1
        init = self.initial(m)
        self.depth = d
        for s in init:
            for s0 in self.part_idle(m, s):
                if s0.g('idle0'):
                    continue
                s0 = s0.copy()
                buf = m.mk(b['locals'][2][0], ('arg', 'buf'))
                m.read(s0, BUF, ())
                eos = m.mk(b['locals'][3][0], ('arg', 'eos'))
                s0.ev = None
                m.steps = 0
                m.silent += 1
                try:
                    first = m.exec_body(b, [Ref(SELF), buf, eos], s0)
                finally:
                    m.silent -= 1
                for s1, v in first:
                    if not isinstance(v, Enum) or v.k != 0:
                        continue
                    comps = [e[2] for e in s1.events() if e[0] == 'comp' and e[1] in ('decode', 'encode')]
                    if not comps or comps[-1]['n'] is None:
                        continue
                    x = comps[-1]
                    for st in [y for z in assume(s1, NOT(is_idle(x['after']))) for y in assume(z, LT(K(0), x['n']))]:
                        cur = m.read(st, x['root'], x['path'])
                        if not isinstance(cur, Opq) or cur.term != x['after']:
                            continue
                        self.told_second(m, st, b, x, mn)
        self.merge(m)

    def told_second(self, m, st, b, x, mn):
        st = st.copy()
        st.ev = None
        broot = ('S', ('arg', 'buf2'))
        st.mem[broot] = Seq(self.P.find_ty('[u8]'), K(0), ('d', ('arg', 'buf2')))
        m.rty[broot] = self.P.find_ty('[u8]')
        buf = SRef(broot, (), K(0), K(0))
        eos = m.mk(b['locals'][3][0], ('arg', 'eos2'))
        for s2, ev in self.w.eos_rem(m, st, eos):
            for s3 in assume(s2, bc_finite(m, ev, K(0))):
                m2 = self.m2
                m2.n = max(m2.n, m.n)
                m2.steps = 0
                m2.silent += 1
                try:
                    outs = m2.exec_body(b, [Ref(SELF), buf, eos], s3)
                finally:
                    m2.silent -= 1
                m.n = m2.n
                for s4, v in outs:
                    self.paths += 1
                    if not isinstance(v, Enum) or v.k != 0:
                        self.rec(m, s4, 'eos-told', True, '', mn)
                        continue
                    told = [e[2] for e in s4.events() if e[0] == 'comp' and e[1] == mn and e[2]['term'] == x['after']]
                    ok = False
                    if told:
                        for s5, ev2 in self.w.eos_rem(m, s4, told[0]['eos']):
                            ok = bc_finite(m, ev2, K(0))
                            break
                    self.rec(m, s4, 'eos-told', ok, 'the stream ends while a component is in the middle of its item (after the call at %s), but the component is not told' % x['site'], mn)

    def h_code(self, mn):
        mon = self.mon(mn)
        m = self.machine(mon)
        b = self.c.m[mn]
        for s0, args in self.enter(m, mn):
            m.steps = 0
            for s, v in m.exec_body(b, args, s0):
                self.paths += 1
                s = s.copy()
                s.setg('phase', None)
                self.exit_code(m, s, v, mn)
        self.merge(m)

    def exit_code(self, m, s, v, mn):
        if not isinstance(v, Enum):
            self.rec(m, s, 'result', False, 'unrecognised result %r' % (v,), mn)
            return
        L, pos = s.g('len'), s.g('pos')
        evs = s.events()
        comps = [e[2] for e in evs if e[0] == 'comp']
        self.error_rules(m, s, v, mn, evs)
        idle0 = s.g('idle0')
        if v.k == 0:
            n = v.f[0]
            self.rec(m, s, 'count-bound', LE(n, L), 'reports %r bytes processed of a buffer of %r' % (n, L), mn)
            if mn == 'encode':
                self.rec(m, s, 'count-exact', EQ(n, pos), 'reports %r bytes written but %r were produced' % (n, pos), mn)
            else:
                used = any(e['kind'] in ('decode',) for e in comps) or pos != K(0)
                if used:
                    self.rec(m, s, 'count-exact', EQ(n, pos), 'reports %r bytes consumed but %r were taken' % (n, pos), mn)
                else:
                    self.rec(m, s, 'count-exact', True, '', mn)
            if idle0:
                self.rec(m, s, 'idle-noop', EQ(n, K(0)), 'an idle codec processed %r bytes' % (n,), mn)
                for st, f in self.post_idle(m, s):
                    self.rec(m, st, 'idle-stays', f, 'an idle codec became busy by being called', mn)
            r0 = s.g('r0')
            if r0 is not None:
                self.rec(m, s, 'leaf-progress', AND(LE(n, L), OR(AND(LE(r0, L), EQ(n, r0)), AND(LT(L, r0), EQ(n, L)))),
                         'transfers %r bytes where min(%r, %r) are required and possible' % (n, r0, L), mn)
                for st, q in self.observe(m, s, 'requiring'):
                    self.rec(m, st, 'leaf-remaining', bc_finite(m, q, r0 - n),
                             'after transferring %r of %r required bytes reports %r still required' % (n, r0, q), mn)
                self.rec(m, s, 'leaf-eos', OR(NOT(self.eos_reached(m, s)), LE(r0, L)),
                         'returns Ok at the end of the stream although %r bytes are required and only %r exist' % (r0, L), mn)
            if not idle0:
                for st, f in self.post_idle(m, s):
                    for x in assume(st, NOT(f)):
                        self.greedy(m, x, n, comps, mn)
                        self.eos_truncated(m, x, n, comps, mn)
                    if r0 is not None:
                        self.rec(m, st, 'leaf-complete', OR(LT(L, r0), f),
                                 'all required bytes were available but the codec is not finished', mn)
            if self.c.role == 'enc' and 'exact' in self.c.m:
                self.exact_step(m, s, n, mn)
        else:
            r0 = s.g('r0')
            if r0 is not None and not any(e['err'] is not None for e in comps):
                self.rec(m, s, 'leaf-eos', AND(self.eos_reached(m, s), LT(L, r0)),
                         'fails although the item is not truncated', mn)
                ks = [e[1]['kind'] for e in evs if e[0] == 'mkerr']
                if ks:
                    self.rec(m, s, 'eos-kind', self.kind_is(m, ks[-1], 'UnexpectedEos'),
                             'a truncated item is reported as %r' % (ks[-1],), mn)
        extra_exit(self, m, s, v, mn, evs, comps)

    def kind_is(self, m, v, name):
        if name not in self.kinds:
            return False
        return m.is_variant(v, self.kinds.index(name), len(self.kinds))

    def greedy(self, m, s, n, comps, mn):
        """Ok and still busy: nothing of the buffer is left, or a component itself stopped short"""
        L = s.g('len')
        f = LE(L, n)
        for e in comps:
            if e['kind'] in ('decode', 'encode') and e['n'] is not None and e['win'] is not None:
                busy = NOT(is_idle(e['after']))
                f = OR(f, AND(busy, LT(e['n'], e['win'].len)))
                # a component that met its own end of stream unfinished without failing
                for st, ev in self.w.eos_rem(m, s, e['eos']):
                    f = OR(f, AND(AND(busy, bc_finite(m, ev, K(0))), EQ(e['n'], e['win'].len)))
                    break
        x = budget_exempt(self, m, s)
        f = OR(f, x)
        self.rec(m, s, 'greedy', f, 'stops after %r of %r bytes although it could continue' % (n, L), mn)

    def eos_truncated(self, m, s, n, comps, mn):
        f = NOT(self.eos_reached(m, s))
        for e in comps:
            if e['kind'] in ('decode', 'encode') and e['n'] is not None:
                busy = NOT(is_idle(e['after']))
                for st, ev in self.w.eos_rem(m, s, e['eos']):
                    f = OR(f, AND(busy, bc_finite(m, ev, K(0))))
                    break
                f = OR(f, AND(busy, LT(e['n'], e['win'].len)))
        f = OR(f, eos_exempt(self, m, s))
        f = OR(f, budget_exempt(self, m, s))
        self.rec(m, s, 'eos-truncated', f, 'returns Ok unfinished at the end of the stream', mn)

    def error_rules(self, m, s, v, mn, evs):
        errs = []
        for e in evs:
            if e[0] == 'comp' and e[2].get('err') is not None:
                errs.append((e[1], e[2]['err']))
            elif e[0] in ('mono_read', 'mono_write_ret') and e[1].get('err') is not None:
                errs.append((e[0], e[1]['err']))
            elif e[0] == 'io' and e[2].get('err') is not None:
                errs.append(('io ' + e[1], e[2]['err']))
            elif e[0] == 'utf8' and e[1].get('err') is not None:
                errs.append(('utf8', e[1]['err']))
        if v.k == 0:
            self.rec(m, s, 'error-swallowed', AND(not errs, EQ(s.g('fails', K(0)), K(0))), 'returns Ok although %s failed' % ([x[0] for x in errs],), mn)
        elif errs:
            e = errs[-1][1]
            ok = isinstance(e, Opq) and mentions(v.f[0], e.term, s)
            self.rec(m, s, 'error-relayed', ok, 'the error of %s is replaced by another' % errs[-1][0], mn)
            self.rec(m, s, 'error-stops', AND(len(errs) == 1, LE(s.g('fails', K(0)), K(1))), 'continues after a failure of %s' % errs[0][0], mn)
            if errs[-1][0] not in ('utf8', 'mono_read', 'mono_write_ret') and not errs[-1][0].startswith('io'):
                # the kind of a component's error is preserved
                own = [x for x in evs if x[0] == 'mkerr']
                self.rec(m, s, 'error-kind', not own, 'the error of %s is rewrapped with another kind' % errs[-1][0], mn)
        else:
            own = [x for x in evs if x[0] == 'mkerr']
            conv = any(x[0] == 'app' for x in evs)
            self.rec(m, s, 'error-origin', bool(own) or conv, 'fails without a cause', mn)

    def h_finish(self):
        mn = 'finish'
        mon = self.mon(mn)
        m = self.machine(mon)
        b = self.c.m[mn]
        i0 = self.w.init_facts(self.c) if self.init == 'inv' or True else []
        for s in self.initial(m):
            for s0 in self.part_idle(m, s):
                m.steps = 0
                s0.setg('phase', 'finish')
                s0.setg('self0', s0.mem[SELF])
                for st, v in m.exec_body(b, [Ref(SELF)], s0):
                    self.paths += 1
                    st = st.copy()
                    st.setg('phase', None)
                    evs = st.events()
                    comps = [e[2] for e in evs if e[0] == 'comp']
                    if not isinstance(v, Enum):
                        continue
                    self.error_rules(m, st, v, mn, evs)
                    idle0 = st.g('idle0')
                    if v.k == 0:
                        self.rec(m, st, 'finish-complete', bool(idle0), 'yields an item although decoding is not complete', mn)
                        if self.short not in RESET_EXEMPT:
                            for f in i0:
                                fm = self.w.fact_formula(m, st, SELF, (), f)
                                if fm is not None:
                                    if not entails(st, fm) and self.rearmed(m, st, f):
                                        fm = True
                                    self.rec(m, st, 'finish-reset', fm, 'state is not back to its initial condition (%s) after yielding an item' % fact_str(f), mn)
                    else:
                        if not idle0:
                            self.rec(m, st, 'early-undisturbed', self.kept(m, st, s0, comps),
                                     'asking for an item that is not complete disturbs its decoding', mn)
                        if not any(e['err'] is not None for e in comps) and self.leaf():
                            ks = [e[1]['kind'] for e in evs if e[0] == 'mkerr']
                            if idle0:
                                okk = any_kind(self, m, ks, FINISH_IDLE_ERRS.get(self.short, ()))
                                errs2 = [e for e in evs if e[0] in ('utf8', 'app')]
                                self.rec(m, st, 'finish-yields', OR(okk, bool(errs2)), 'refuses to yield an item that is complete', mn)
                            elif ks:
                                self.rec(m, st, 'finish-kind', self.kind_is(m, ks[-1], 'IncompleteDecoding'),
                                         'an incomplete item is reported as %r' % (ks[-1],), mn)
                    extra_exit(self, m, st, v, mn, evs, comps)
        self.merge(m)

    def kept(self, m, st, s0, comps):
        """own state unchanged, and no component used but for asking it for an item it does not have either"""
        out, f = set(), True
        m.diff(s0.mem[SELF], st.mem[SELF], SELF, (), out)
        for e in comps:
            f = AND(f, NOT(is_idle(e['term']))) if e['kind'] == 'finish' else False
        from access import same_value
        x = st.copy()
        x.mem[OLD] = s0.mem[SELF]
        m.rty[OLD] = m.rty.get(SELF)
        for root, path in out:
            if any(e['root'] == root and e['path'] == path[:len(e['path'])] for e in comps):
                continue
            try:
                f = AND(f, same_value(m, m.read(x, OLD, path), m.read(x, root, path)) if root == SELF else False)
            except KeyError:
                return False
        return f

    def rearmed(self, m, s, fact):
        """the decoder stays finished until a setter is called, and that setter restores the fact"""
        if not all(entails(x, f) for x, f in self.post_idle(m, s)):
            return False
        key = (self.c.adt, self.c.role)
        if key not in self.w.class_methods_cached():
            key = (self.c.adt, '')
        for b in self.w.setters(key) if key in self.w.class_methods_cached() else ():
            m.silent += 1
            try:
                sts = self.set_once(m, s, b, 'ra')
            finally:
                m.silent -= 1
            fs = [self.w.fact_formula(m, x, SELF, (), fact) for x in sts]
            if sts and all(f is not None and entails(x, f) for x, f in zip(sts, fs)):
                return True
        return False

    def h_tag(self, mn):
        mon = self.mon(mn)
        m = self.machine(mon)
        b = self.c.m[mn]
        for s in self.initial(m):
            s = s.copy()
            args = [Ref(SELF)] + [m.mk(b['locals'][i + 1][0], ('arg', i)) for i in range(1, b['args'])]
            for st, v in m.exec_body(b, args, s):
                self.paths += 1
                evs = st.events()
                comps = [e[2] for e in evs if e[0] == 'comp']
                self.rec(m, st, 'delegates', len(comps) == 1 and comps[0]['kind'] == 'start' and comps[0]['args'] and comps[0]['args'][0] == args[1],
                         'does not hand the tag to the wrapped decoder exactly once', mn)
        self.merge(m)

    def h_start(self):
        mn = 'start'
        mon = self.mon(mn)
        m = self.machine(mon)
        b = self.c.m[mn]
        if uninhabited(self.P, b['locals'][2][0]):
            return          # no item exists: the call cannot be made
        invalid = []            # conditions on the item under which even an idle encoder refuses it
        for s in self.initial(m):
            for s0 in sorted(self.part_idle(m, s), key=lambda x: not x.g('idle0')):
                m.steps = 0
                s0 = s0.copy()
                s0.setg('phase', 'start')
                s0.setg('self0', s0.mem[SELF])
                if self.short in PREENCODED and s0.g('idle0'):
                    s0.setg('wrote', K(0))
                item = m.mk(b['locals'][2][0], ('arg', 'item'))
                s0.setg('item', item if not isinstance(item, Lin) else None)
                args = [Ref(SELF), item]
                for st, v in m.exec_body(b, args, s0):
                    self.paths += 1
                    st = st.copy()
                    st.setg('phase', None)
                    evs = st.events()
                    comps = [e[2] for e in evs if e[0] == 'comp']
                    if not isinstance(v, Enum):
                        continue
                    idle0 = st.g('idle0')
                    self.error_rules(m, st, v, mn, evs)
                    ks = [e[1]['kind'] for e in evs if e[0] == 'mkerr']
                    if not idle0:
                        if v.k == 0:
                            same = st.mem.get(SELF) == s0.mem.get(SELF)
                            self.rec(m, st, 'busy-refused', same and self.short in START_EMPTY_OK,
                                     'accepts a new item while one is still being encoded', mn)
                        else:
                            self.rec(m, st, 'busy-undisturbed', self.undisturbed(m, st, s0, comps),
                                     'a refused item disturbs the one being encoded', mn)
                            if ks and not comps:
                                bad = False
                                for cond in invalid:
                                    g = True
                                    for f in cond:
                                        g = AND(g, f)
                                    bad = OR(bad, g)
                                self.rec(m, st, 'busy-kind', OR(self.kind_is(m, ks[-1], 'EncoderFull'),
                                                                AND(self.kind_is(m, ks[-1], 'InvalidInput'), bad)),
                                         'refuses with %r instead of EncoderFull' % (ks[-1],), mn)
                    else:
                        if ks and v.k != 0 and isinstance(item, Lin) and self.leaf():
                            sym = {x for x, _ in item.t}
                            cond = [f for f in st.facts if {x for x, _ in f[1].t} == sym]
                            if cond:
                                invalid.append(cond)
                        if v.k != 0:
                            self.rejected(m, st, comps, mn)
                        if ks and v.k != 0:
                            self.rec(m, st, 'idle-accepts', NOT(self.kind_is(m, ks[-1], 'EncoderFull')),
                                     'an idle encoder refuses an item as if it were full', mn)
                        if v.k == 0 and self.leaf() and 'exact' in self.c.m:
                            ln = item_len(m, st, item, self)
                            if ln is not None:
                                for x, q in self.observe(m, st, 'exact'):
                                    self.rec(m, x, 'start-size', EQ(q, ln), 'a started item of %r bytes is announced as %r' % (ln, q), mn)
                    extra_exit(self, m, st, v, mn, evs, comps)
        self.merge(m)

    def rejected(self, m, st, comps, mn):
        """an idle encoder that rejects an item stays idle (as its component does)"""
        sts = [st]
        for e in comps:
            if e['kind'] in ('start', 'encode') and e.get('err') is not None:
                sts = [y for x in sts for y in assume(x, is_idle(e['after']))]
        for x in sts:
            for y, f in self.post_idle(m, x):
                self.rec(m, y, 'rejected-clean', f, 'a rejected item leaves work behind', mn)

    def undisturbed(self, m, st, s0, comps):
        """own state unchanged; only components idle before the call may have been used"""
        out = set()
        m.diff(s0.mem[SELF], st.mem[SELF], SELF, (), out)
        f = True
        used = self.encode_comps()
        comps_all = comps
        comps = [e for e in comps if (e['root'], e['path']) in used]
        out = {(r, p) for r, p in out
               if not any(e['root'] == r and e['path'] == p[:len(e['path'])] and (r, e['path']) not in used for e in comps_all)}
        changed_terms = {e['term'] for e in comps}
        for root, path in out:
            ok = False
            for e in comps:
                if e['root'] == root and e['path'] == path[:len(e['path'])]:
                    ok = True
            if not ok:
                return False
        for e in comps:
            if e['after'] != e['term']:
                f = AND(f, is_idle(e['term']))
                if e['err'] is None and not any(x['err'] is not None and (x['root'], x['path']) == (e['root'], e['path']) for x in comps):
                    f = AND(f, is_idle(last_term(comps, e)))
        return f

    def encode_comps(self):
        """the components encode() writes the pending item with"""
        if not hasattr(self, '_ec'):
            out = set()
            m = self.machine(machine.Monitor())
            m.silent += 1
            b = self.c.m['encode']
            s = State()
            args = [Ref(SELF)] + [m.mk(b['locals'][i + 1][0], ('arg', ('buf', 'eos')[i - 1])) for i in (1, 2)]
            m.read(s, SELF, ())
            for st, v in m.exec_body(b, args, s):
                for e in st.events():
                    if e[0] == 'comp':
                        out.add((e[2]['root'], e[2]['path']))
            self._ec = out
        return self._ec

    def h_exact(self):
        self.h_obs_exact()

    def exact_step(self, m, s, n, mn):
        e0 = s.g('exact0')
        if e0 is None:
            return
        for st, q in self.observe(m, s, 'exact'):
            self.rec(m, st, 'exact-step', OR(EQ(q + n, e0), EQ(e0, K((1 << 64) - 1))), 'announced %r bytes, wrote %r, now announces %r' % (e0, n, q), mn)

    def h_obs_exact(self):
        """exact_requiring_bytes agrees with requiring_bytes and with what encode() then writes"""
        mn = 'exact'
        mon = self.mon(mn)
        m = self.machine(mon)
        sized = [l for l in self.w.leaves(self.c.ty) if l[1] == 'comp']
        if len(sized) <= 8:
            for s in self.initial(m):
                for st, q in self.observe(m, self.sized_comps(m, s), 'exact'):
                    for x, r in self.observe(m, st, 'requiring'):
                        self.paths += 1
                        MAX = K((1 << 64) - 1)
                        self.rec(m, x, 'exact-agrees', OR(bc_finite(m, r, q), delegated(r, q)), 'exact_requiring_bytes is %r but requiring_bytes is %r' % (q, r), mn)
                    for x, f in self.observe(m, st, 'is_idle'):
                        for y in assume(x, f):
                            self.rec(m, y, 'exact-idle', EQ(q, K(0)), 'idle but announces %r bytes' % (q,), mn)
        self.merge(m)
        if 'encode' in self.c.m:
            mon = self.mon('encode')
            m = self.machine(mon)
            b = self.c.m['encode']
            for s in self.initial(m):
                s = self.sized_comps(m, s)
                for s1, q in self.observe(m, s, 'exact'):
                    s1 = s1.copy()
                    buf = m.mk(b['locals'][2][0], ('arg', 'buf'))
                    m.read(s1, BUF, ())
                    eos = m.mk(b['locals'][3][0], ('arg', 'eos'))
                    m.steps = 0
                    m.silent += 1
                    try:
                        outs = m.exec_body(b, [Ref(SELF), buf, eos], s1)
                    finally:
                        m.silent -= 1
                    for st, v in outs:
                        self.paths += 1
                        if isinstance(v, Enum) and v.k == 0:
                            for x, q2 in self.observe(m, st, 'exact'):
                                self.rec(m, x, 'exact-step', OR(EQ(q2 + v.f[0], q), EQ(q, K((1 << 64) - 1))),
                                         'announced %r bytes, wrote %r, now announces %r' % (q, v.f[0], q2), 'encode')
            self.merge(m)

    def sized_comps(self, m, s):
        """components are SizedEncode: what they require is finite and equals their exact count"""
        s = s.copy()
        for lp, kk, g in self.w.leaves(self.c.ty):
            if kk != 'comp':
                continue
            v = self.w.val(m, s, SELF, (), lp)
            if isinstance(v, Opq):
                for x in set_variant(s, ('req', v.term), 0, 3, True):
                    s = x
                s = s.copy()
                ex = symbol(('exact', v.term), 0, (1 << 64) - 1)
                add_fact(s, 'eq', symbol(('vf', ('req', v.term), 0, 0)) - ex)
                if self.wide():
                    # sums beyond the largest number are explored with fewer components
                    add_fact(s, 'le', ex - K(1 << 59))
        return s

    def h_observers(self):
        mn = 'is_idle'
        mon = self.mon(mn)
        m = self.machine(mon)
        for s in self.initial(m):
            for st, f in self.observe(m, s, 'is_idle'):
                for x in assume(st, m.as_bool(f)):
                    for y, r in self.observe(m, x, 'requiring'):
                        self.paths += 1
                        self.rec(m, y, 'idle-requires-none', bc_finite(m, r, K(0)), 'idle but requires %r' % (r,), mn)
        self.merge(m)
        h = OBS.get(self.short)
        if h:
            h(self)


OBS = {}


def uninhabited(P, ty):
    """no value of the type can exist (empty enum, or a local type with private fields that nothing constructs)"""
    t = P.ty(ty)
    if t['k'] == 'never':
        return True
    if t['k'] == 'adt':
        a = P.adts.get(t['path'])
        if a is None:
            return False
        if a['kind'] == 'enum' and not a['variants']:
            return True
        if a['kind'] == 'struct' and a['local'] and any(not f['pub'] for f in a['variants'][0]['f']):
            return t['path'] not in constructed(P)
    return False


def constructed(P):
    if not hasattr(P, '_constructed'):
        out = set()
        for b in P.D['bodies']:
            for bl in b['blocks']:
                for st in bl['s']:
                    if st[0] == '=' and st[2][0] == 'agg' and st[2][1][0] == 'adt' and not b['path'].endswith('Clone>::clone'):
                        out.add(st[2][1][1])
        P._constructed = out
    return P._constructed


def last_term(comps, e):
    t = e['after']
    for x in comps:
        if (x['root'], x['path']) == (e['root'], e['path']):
            t = x['after']
    return t


def P_arg_is(P, ty, adt):
    t = P.ty(ty)
    if t['k'] == 'ref':
        t = P.ty(t['to'])
    return t['k'] == 'adt' and t['path'] == adt


def fact_str(f):
    def sp(p):
        return ''.join('.%s' % (x[-1],) for x in p) or 'self'
    if f[0] in ('le', 'eq', 'eqz'):
        return '%s %s %s' % (sp(f[1][0]), {'le': '<=', 'eq': '==', 'eqz': '==>0'}[f[0]], sp(f[2][0]))
    if f[0] == 'lit':
        x = f[1]
        return '%s is %s' % (sp(x[1]), x[2])
    if f[0] == 'z':
        return '%s == 0' % sp(f[1][0])
    return str(f)


def any_kind(spec, m, ks, names):
    f = False
    for n in names:
        if ks:
            f = OR(f, spec.kind_is(m, ks[-1], n))
    return f


def codec_params(w, c):
    """opaque components that act as codecs: leaves of generic type other than items and buffers"""
    return w.codec_comps(c)


def item_len(m, s, item, spec):
    """number of bytes of a started item, when the item is a byte container"""
    t = spec.P.ty(spec.c.m['start']['locals'][2][0])
    if isinstance(item, (Seq, Arr)):
        return m.len_of(item)
    if isinstance(item, Opq) and t['k'] == 'param':
        return m.len_of(item)
    if isinstance(item, (SRef,)):
        return item.len
    return None


# ------------------------------------------------------------------ documented exceptions, by public type
RESET_EXEMPT = {'BytesDecoder',            # needs a new buffer after every item (documented)
                'Slice'}                   # its budget belongs to the stream, not to the item (documented)
FINISH_IDLE_ERRS = {'BytesDecoder': ('DecoderTerminated',), 'Utf8Decoder': ('InvalidInput',)}
SET_BETWEEN = ('CollectN',)         # its setter is meant for use between items only
PREENCODED = ('PreEncode',)         # the item is encoded as a whole when it is started
START_EMPTY_OK = {'Optional', 'NullEncoder'}


def configure(spec, flow, mn):
    flow.sp = spec
    flow.mn = mn
    if spec.short in ('Length', 'MaybeEos'):
        flow.no_eos_rule = True          # decided by their own rules (C11, C27)


def budget_exempt(spec, m, s):
    if spec.short == 'Slice':
        b = spec.w.body('Slice', '::is_suspended')
        if b is not None:
            f = True
            for st, v in m.exec_body(b, [Ref(SELF)], s):
                return m.as_bool(v)
    return False


def eos_exempt(spec, m, s):
    if spec.short == 'MaybeEos':
        return EQ(s.g('len'), K(0))
    return False


def delegated(r, q):
    """both numbers are those of one and the same component"""
    return isinstance(r, Opq) and r.term[0] == 'req' and q == symbol(('exact', r.term[1]), 0, (1 << 64) - 1)


EXTRA = {}
BACK = []          # rules for every round of a loop
EVERY = []         # rules for every codec


def extra_exit(spec, m, s, v, mn, evs, comps):
    h = EXTRA.get((spec.short, mn))
    if h:
        h(spec, m, s, v, evs, comps)
    for g in EVERY:
        g(spec, m, s, v, mn, evs, comps)
