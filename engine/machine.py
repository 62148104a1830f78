"""MIR interpreter: places, rvalues, terminators, inlining and loop fixpoints."""
import time
from core import *
import core
import num

LOCAL_ARR = 64


def fresh_in(t):
    return isinstance(t, tuple) and (t[:1] == ('fresh',) or any(fresh_in(x) for x in t))


class Rec:
    """One obligation instance group."""
    __slots__ = ('proved', 'failed', 'undecided', 'prop', 'rule', 'site')

    def __init__(self, prop, rule, site):
        self.prop, self.rule, self.site = prop, rule, site
        self.proved = 0
        self.failed = []
        self.undecided = []


class Monitor:
    def on_back(self, m, s, back):
        """a loop entered in s comes back to its head"""

    """Default: no-op hooks."""
    moves = False           # follows moves inside a buffer (on_move)

    def on_move(self, m, s, dst, src, site):
        pass

    def on_component(self, m, s, kind, comp, info):
        pass

    def on_component_ret(self, m, s, kind, comp, info, res):
        pass

    def on_copy(self, m, s, dst, src, site):
        pass

    def on_store(self, m, s, root, path, val, site):
        pass

    def on_append(self, m, s, ref, src, site):
        pass

    def on_store_range(self, m, s, sref, val, site):
        pass

    def on_io(self, m, s, kind, info):
        pass

    def on_io_ret(self, m, s, kind, info, res):
        pass

    def on_read_elem(self, m, s, root, path, idx):
        pass


class Found(Exception):
    """every failure that was looked for has been confirmed"""


SOUGHT = set()          # obligations whose failure is looked for


class Machine:
    def __init__(self, P, monitor=None, unroll=None, budget=60000):
        self.P = P
        self.mon = monitor or Monitor()
        self.n = 0
        self.fid = 0
        self.rty = {}
        self.peel = False             # the first round of a loop is looked at by itself
        self.sizes = False            # components keep what they announce (only where that is looked at)
        self.hints = {}
        self.silent = 0
        self.recs = {}
        self.unroll = unroll          # None: loop fixpoints; k: exact unrolling up to k iterations
        self.steps = 0
        self.budget = budget
        self.deadline = None if unroll is None else time.time() + 150
        self.depth = 0
        self.stack = []
        self.inlined = set()
        self.natives_used = set()
        self.unknown_calls = set()
        self.invariants = {}          # struct path -> fn(machine, state, value)->formula list
        self.loops_done = []
        self.truncated = 0
        import natives
        self.natives = natives

    # ------------------------------------------------------------------ records
    def rec(self, s, prop, rule, ok, msg='', site=None, info=None):
        """Record an obligation evaluated in state s; ok is a bool or a formula."""
        if self.silent:
            return True
        key = (prop, rule, site)
        r = self.recs.get(key)
        if r is None:
            r = self.recs[key] = Rec(prop, rule, site)
        if ok is True or (ok is not False and entails(s, ok)):
            r.proved += 1
            return True
        d = dict(msg=msg, trail=s.trail_list(), taint=list(s.taint), approx=list(s.approx), info=info,
                 stack=[x for x in self.stack])
        if s.taint:
            r.undecided.append(d)
        else:
            r.failed.append(d)
            if SOUGHT and not s.approx and key in SOUGHT:
                SOUGHT.discard(key)
                if not SOUGHT:
                    raise Found()
        return False

    # ------------------------------------------------------------------ symbolic values
    def fresh(self, name='v'):
        self.n += 1
        return ('fresh', name, self.n)

    def fresh_int(self, name='n', lo=0, hi=U64):
        return symbol(self.fresh(name), lo, hi)

    def bounds(self, ty):
        t = self.P.ty(ty)
        if t['k'] == 'int':
            b = t['bits']
            if t['signed']:
                return -(1 << (b - 1)), (1 << (b - 1)) - 1
            return 0, (1 << b) - 1
        if t['k'] == 'char':
            return 0, 0x10FFFF
        return 0, U64

    def mk(self, ty, term):
        t = self.P.ty(ty)
        k = t['k']
        if k == 'int' or k == 'char':
            lo, hi = self.bounds(ty)
            return symbol(term, lo, hi)
        if k == 'bool':
            return ('p', term)
        if k in ('ref', 'ptr'):
            return self.mk_ref(t['to'], term)
        if k == 'tuple':
            if not t['elems']:
                return UNIT
            return Agg(ty, [self.mk(e, ('f', term, i)) for i, e in enumerate(t['elems'])])
        if k == 'array':
            if t['len'] is not None and t['len'] <= LOCAL_ARR:
                return Arr(ty, [self.mk(t['elem'], ('e', term, i)) for i in range(t['len'])])
            ln = K(t['len']) if t['len'] is not None else symbol(('len', term), 0, ISIZE)
            return Seq(ty, ln, term)
        if k in ('slice', 'str'):
            return Seq(ty, symbol(('len', term), 0, ISIZE), term)
        if k == 'closure':
            return Agg(ty, [self.mk(c, ('f', term, i)) for i, c in enumerate(t['caps'])])
        if k == 'fndef':
            return Fn(t['callee'])
        if k == 'adt':
            p = t['path']
            if p in ('std::vec::Vec', 'std::string::String'):
                return Seq(ty, symbol(('len', term), 0, ISIZE), term)
            if p == 'std::boxed::Box' and t['args']:
                return self.mk_ref(t['args'][0], term)
            if p == 'std::pin::Pin' and t['args']:
                return self.mk(t['args'][0], term)
            if p == 'std::marker::PhantomData':
                return Agg(ty, ())
        return Opq(ty, term)

    def mk_ref(self, to, term):
        t = self.P.ty(to)
        root = ('S', term)
        self.rty[root] = to
        if t['k'] in ('slice', 'str'):
            return SRef(root, (), K(0), symbol(('len', ('d', term)), 0, ISIZE))
        return Ref(root)

    def root_init(self, root):
        ty = self.rty.get(root)
        if ty is None:
            raise KeyError('uninitialised %r' % (root,))
        return self.mk(ty, ('d', root[1]))

    def nvariants(self, ty):
        t = self.P.ty(ty)
        a = self.P.adts.get(t.get('path'))
        return len(a['variants']) if a else 0

    def fieldty(self, ty, k, i, term=None):
        t = self.P.ty(ty)
        if t['k'] == 'tuple':
            return t['elems'][i]
        if t['k'] == 'closure':
            return t['caps'][i]
        if t['k'] == 'adt':
            vf = t['vfields']
            if k < len(vf) and i < len(vf[k]):
                return vf[k][i]
        return self.hints.get((ty, k, i))

    def nfields(self, ty, k):
        t = self.P.ty(ty)
        if t['k'] == 'tuple':
            return len(t['elems'])
        if t['k'] == 'adt':
            vf = t['vfields']
            if k < len(vf):
                return len(vf[k])
            a = self.P.adts.get(t['path'])
            if a and k < len(a['variants']):
                return len(a['variants'][k]['f'])
        return 0

    # ------------------------------------------------------------------ memory
    def proj(self, v, el):
        o = el[0]
        if o == 'f':
            if isinstance(v, Agg):
                if el[1] < len(v.f):
                    return v.f[el[1]]
                raise KeyError('field %r of %r' % (el, v))
            if isinstance(v, (Ref, SRef)):
                return v
            if isinstance(v, Opq):
                ft = self.fieldty(v.ty, 0, el[1])
                if ft is None:
                    return Opq(v.ty, ('f', v.term, el[1]))
                return self.mk(ft, ('f', v.term, el[1]))
            if isinstance(v, Enum):
                return v.f[el[1]]
        elif o == 'v':
            if isinstance(v, Enum):
                if v.k != el[1]:
                    # read of a variant the value does not have (dead path)
                    return Opq(v.ty, self.fresh('dead'))
                return v.f[el[2]]
            if isinstance(v, Opq):
                ft = self.fieldty(v.ty, el[1], el[2])
                if ft is None:
                    return Opq(v.ty, ('vf', v.term, el[1], el[2]))
                return self.mk(ft, ('vf', v.term, el[1], el[2]))
        elif o == 'e':
            return self.elem(v, el[1])
        raise KeyError('proj %r of %r' % (el, v))

    def elem(self, v, idx):
        if isinstance(v, Arr):
            if idx.const is not None and 0 <= idx.c < len(v.e):
                return v.e[idx.c]
            t = self.P.ty(v.ty)
            return self.mk(t['elem'], ('el', v, idx))
        if isinstance(v, Seq):
            t = self.P.ty(v.ty)
            ety = t.get('elem')
            if ety is None and t['k'] == 'adt' and t['args']:
                ety = t['args'][0]
            if isinstance(v.term, tuple) and v.term[0] == 'rep':
                return v.term[1]
            if ety is None:
                u8 = self.P.find_ty('u8')
                ety = u8
            return self.mk(ety, ('el', v.term, idx))
        if isinstance(v, Opq):
            u8 = self.P.find_ty('u8')
            return self.mk(u8, ('el', v.term, idx))
        raise KeyError('elem of %r' % (v,))

    def read(self, s, root, path):
        v = s.mem.get(root)
        if v is None:
            v = self.root_init(root)
            s.mem[root] = v
        for el in path:
            v = self.proj(v, el)
        return v

    def setv(self, v, path, val):
        if not path:
            return val
        el = path[0]
        o = el[0]
        if o == 'f':
            i = el[1]
            if isinstance(v, (Ref, SRef)):
                return self.setv(v, path[1:], val)
            if isinstance(v, Opq):
                n = self.nfields(v.ty, 0)
                v = Agg(v.ty, [self.proj(v, ('f', j)) for j in range(max(n, i + 1))])
            f = list(v.f)
            while len(f) <= i:
                f.append(UNIT)
            f[i] = self.setv(f[i], path[1:], val)
            return Agg(v.ty, f)
        if o == 'v':
            k, i = el[1], el[2]
            if isinstance(v, Opq):
                n = self.nfields(v.ty, k)
                v = Enum(v.ty, k, [self.proj(v, ('v', k, j)) for j in range(max(n, i + 1))])
            f = list(v.f)
            while len(f) <= i:
                f.append(UNIT)
            f[i] = self.setv(f[i], path[1:], val)
            return Enum(v.ty, k, f)
        if o == 'e':
            idx = el[1]
            if isinstance(v, Arr):
                e = list(v.e)
                if idx.const is not None and idx.c < len(e):
                    e[idx.c] = self.setv(e[idx.c], path[1:], val)
                    return Arr(v.ty, e)
                t = self.P.ty(v.ty)
                return Arr(v.ty, [self.mk(t['elem'], self.fresh('el')) for _ in e])
            if isinstance(v, Seq):
                return Seq(v.ty, v.len, self.fresh('w'))
            if isinstance(v, Opq):
                return Opq(v.ty, self.wterm(v.term))
        raise KeyError('setv %r %r' % (v, el))

    def wterm(self, t):
        base = t[2] if isinstance(t, tuple) and t[0] == 'w' else t
        self.n += 1
        return ('w', self.n, base)

    def write(self, s, root, path, val):
        if not path:
            s.mem[root] = val
            return
        v = s.mem.get(root)
        if v is None:
            v = self.root_init(root)
        s.mem[root] = self.setv(v, path, val)

    def len_of(self, v):
        if isinstance(v, Seq):
            return v.len
        if isinstance(v, Arr):
            return K(len(v.e))
        if isinstance(v, Opq):
            t = v.term
            if isinstance(t, tuple) and t[0] == 'w':
                t = t[2]
            return symbol(('len', t), 0, ISIZE)
        raise KeyError('len of %r' % (v,))

    def clobber(self, s, sr, src=None):
        """The elements sr.start..+len of the container change."""
        v = self.read(s, sr.root, sr.path)
        if isinstance(v, Arr):
            t = self.P.ty(v.ty)
            if sr.start.const is not None and sr.len.const is not None:
                e = list(v.e)
                for i in range(sr.len.c):
                    if sr.start.c + i < len(e):
                        nv = None
                        if src is not None:
                            nv = self.elem(self.read(s, src.root, src.path), src.start + K(i))
                        e[sr.start.c + i] = nv if nv is not None else self.mk(t['elem'], self.fresh('el'))
                nv = Arr(v.ty, e)
            else:
                nv = Arr(v.ty, [self.mk(t['elem'], self.fresh('el')) for _ in v.e])
        elif isinstance(v, Seq):
            nv = Seq(v.ty, v.len, self.fresh('w'))
        elif isinstance(v, Opq):
            nv = Opq(v.ty, self.wterm(v.term))
        else:
            return
        self.write(s, sr.root, sr.path, nv)

    # ------------------------------------------------------------------ places
    def place(self, s, fid, p):
        """Resolve to ('loc', root, path) or ('sref', SRef)."""
        root = ('L', fid, p[0])
        path = ()
        sref = None
        pend = None
        hint = None
        for e in p[1]:
            o = e[0]
            if o == '*':
                v = self.read(s, root, path)
                if isinstance(v, SRef):
                    sref = v
                elif isinstance(v, Ref):
                    root, path = v.root, v.path
                    sref = None
                elif isinstance(v, Opq):
                    r = ('S', v.term)
                    if r not in self.rty:
                        t = self.P.ty(v.ty)
                        self.rty[r] = t.get('to', v.ty)
                    root, path = r, ()
                else:
                    raise KeyError('deref %r' % (v,))
            elif o == 'f':
                if sref is not None:
                    raise KeyError('field of slice')
                if pend is not None:
                    el = ('v', pend, e[1])
                    pend = None
                else:
                    el = ('f', e[1])
                cur = self.read(s, root, path)
                if isinstance(cur, Opq):
                    k = el[1] if el[0] == 'v' else 0
                    i = el[2] if el[0] == 'v' else el[1]
                    if self.fieldty(cur.ty, k, i) is None:
                        self.hints[(cur.ty, k, i)] = e[2]
                path = path + (el,)
            elif o == 'd':
                pend = e[1]
            elif o == 'i':
                idx = self.read(s, ('L', fid, e[1]), ())
                if sref is not None:
                    root, path, idx = sref.root, sref.path, sref.start + idx
                    sref = None
                path = path + (('e', idx),)
                self.mon.on_read_elem(self, s, root, path[:-1], idx)
            elif o == 'ci':
                if sref is not None:
                    idx = (sref.start + sref.len - K(e[1])) if e[3] else sref.start + K(e[1])
                    root, path = sref.root, sref.path
                    sref = None
                else:
                    ln = self.len_of(self.read(s, root, path))
                    idx = ln - K(e[1]) if e[3] else K(e[1])
                path = path + (('e', idx),)
                self.mon.on_read_elem(self, s, root, path[:-1], idx)
            elif o == 'ss':
                if sref is None:
                    ln = self.len_of(self.read(s, root, path))
                    sref = SRef(root, path, K(0), ln)
                to = sref.len - K(e[2]) if e[3] else K(e[2])
                sref = SRef(sref.root, sref.path, sref.start + K(e[1]), to - K(e[1]))
            elif o == 'oc':
                pass
            else:
                raise KeyError('projection %r' % (e,))
        if sref is not None:
            return ('sref', sref)
        if pend is not None:
            pass
        return ('loc', root, path)

    def read_place(self, s, fid, p):
        r = self.place(s, fid, p)
        if r[0] == 'sref':
            return r[1]
        return self.read(s, r[1], r[2])

    def operand(self, s, fid, o):
        k = o['o']
        if k in ('copy', 'move'):
            return self.read_place(s, fid, o['p'])
        if k == 'const':
            return self.const(s, o['v'])
        return False

    def const(self, s, c):
        k = c['c']
        ty = c['ty']
        t = self.P.ty(ty)
        if k == 'int':
            if t['k'] == 'bool':
                return bool(int(c['v']))
            if t['k'] == 'float':
                return Opq(ty, ('fconst', c['v']))
            if t['k'] == 'adt':
                return self.const_adt(s, ty, t, int(c['v']))
            return K(int(c['v']))
        if k == 'fn':
            return Fn(t['callee'])
        if k == 'zst':
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'closure':
                return Agg(ty, ())
            if t['k'] == 'fndef':
                return Fn(t['callee'])
            if t['k'] == 'array':
                return Arr(ty, ())
            return Agg(ty, ())
        if k == 'str':
            root = ('C', c['v'], ty)
            self.rty[root] = t.get('to', ty)
            if root not in s.mem:
                s.mem[root] = Seq(t.get('to', ty), K(c['len']), ('cstr', c['v']))
            return SRef(root, (), K(0), K(c['len']))
        if k in ('promoted', 'const'):
            b = self.P.bodies.get(c['key'])
            if b is not None:
                # a constant has its value whatever is left of the budget of the search around it
                steps, deadline = self.steps, self.deadline
                self.steps, self.deadline = 0, None
                try:
                    outs = self.exec_body(b, [], s, keep=True)
                except KeyError:
                    outs = []
                finally:
                    self.steps, self.deadline = steps, deadline
                if len(outs) == 1:
                    n, v = outs[0]
                    s.mem = n.mem
                    return v
                s.taint = s.taint + ('constant %s' % c['key'],)
            return self.mk(ty, ('const', c['key']))
        return self.mk(ty, ('const', c.get('named') or c.get('v')))

    def const_adt(self, s, ty, t, n):
        """scalar constant of a data type"""
        a = self.P.adts.get(t.get('path'))
        if a and a['kind'] == 'enum':
            vs = a['variants']
            if all(not v['f'] for v in vs):
                bits = 128
                for i, v in enumerate(vs):
                    if int(v['d']) == n or (int(v['d']) - n) % 256 == 0 and len(vs) < 256:
                        return Enum(ty, i)
            if n == 0:
                # niche: the all-zero pattern is the variant without the non-null payload
                if t['path'] == 'std::option::Option':
                    return Enum(ty, 0)
                if t['path'] == 'std::result::Result':
                    return Enum(ty, 0, (UNIT,))
        s.taint = s.taint + ('constant of type %s' % t['s'],)
        return Opq(ty, ('iconst', n, t['s']))

    # ------------------------------------------------------------------ rvalues
    def in_range(self, s, e, lo, hi):
        return entails(s, LE(K(lo), e)) and entails(s, LE(e, K(hi)))

    def rvalue(self, s, fid, r, dty):
        k = r[0]
        if k == 'use':
            return self.operand(s, fid, r[1])
        if k in ('ref', 'rawptr'):
            p = self.place(s, fid, r[2])
            if p[0] == 'sref':
                return p[1]
            # a reference to an unsized container place is fat
            return Ref(p[1], p[2])
        if k == 'bin':
            return self.binop(s, r[1], self.operand(s, fid, r[2]), self.operand(s, fid, r[3]), r[4], dty)
        if k == 'un':
            v = self.operand(s, fid, r[2])
            return self.unop(s, r[1], v, r[3], dty)
        if k == 'discr':
            v = self.read_place(s, fid, r[1])
            return self.discr(v)
        if k == 'cast':
            return self.cast(s, r[1], self.operand(s, fid, r[2]), r[3], r[4])
        if k == 'agg':
            ops = [self.operand(s, fid, o) for o in r[2]]
            a = r[1]
            if a[0] == 'tuple':
                return Agg(dty, ops) if ops else UNIT
            if a[0] == 'array':
                return Arr(dty, ops)
            if a[0] == 'closure':
                return Agg(a[1], ops)
            if a[0] == 'adt':
                ad = self.P.adts.get(a[1])
                if a[1] in ('std::pin::Pin', 'std::ptr::NonNull', 'std::ptr::Unique'):
                    return ops[0]
                if ad and ad['kind'] == 'enum':
                    return Enum(dty, a[2], ops)
                return Agg(dty, ops)
            return Opq(dty, self.fresh('agg'))
        if k == 'repeat':
            v = self.operand(s, fid, r[1])
            n = r[2]
            if n is not None and n <= LOCAL_ARR:
                return Arr(dty, [v] * n)
            ln = K(n) if n is not None else self.fresh_int('n', 0, ISIZE)
            return Seq(dty, ln, ('rep', v))
        return self.mk(dty, self.fresh('rv'))

    def discr(self, v):
        if isinstance(v, Enum):
            t = self.P.ty(v.ty)
            a = self.P.adts.get(t.get('path'))
            if a:
                return K(int(a['variants'][v.k]['d']))
            return K(v.k)
        if isinstance(v, Opq):
            return Discr(v)
        return K(0)

    def discr_eq(self, d, n):
        """formula: Discr d equals integer n"""
        t = self.P.ty(d.v.ty)
        a = self.P.adts.get(t.get('path'))
        if not a:
            return ('p', ('discr_is', d.v.term, n))
        for i, vd in enumerate(a['variants']):
            if int(vd['d']) == n:
                return ('var', d.v.term, i, len(a['variants']))
        return False

    def as_bool(self, v):
        if v is True or v is False or (isinstance(v, tuple) and v and v[0] in ('p', 'var', 'not', 'and', 'or', 'le', 'eq', 'ne')):
            return v
        return ('p', ('truthy', v))

    def binop(self, s, op, a, b, lty, dty):
        if isinstance(a, Lin) and isinstance(b, Lin):
            lo, hi = self.bounds(lty)
            if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
                e = self.arith(op[:3], a, b)
                if e is None:
                    e = symbol(('mul', a, b), -(1 << 127), 1 << 127)
                if isinstance(e, Lin):
                    of = OR(LT(e, K(lo)), LT(K(hi), e))
                return Agg(dty, (e, of))
            if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
                e = self.arith(op[:3], a, b)
                if e is not None and (op.endswith('Unchecked') or self.in_range(s, e, lo, hi)):
                    return e
                return symbol(('wrap', op[:3], a, b, lty), lo, hi)
            if op == 'Eq':
                return EQ(a, b)
            if op == 'Ne':
                return NE(a, b)
            if op == 'Lt':
                return LT(a, b)
            if op == 'Le':
                return LE(a, b)
            if op == 'Gt':
                return LT(b, a)
            if op == 'Ge':
                return LE(b, a)
            if op in ('Shl', 'ShlUnchecked') and b.const is not None:
                e = a.scale(1 << b.c)
                if self.in_range(s, e, lo, hi):
                    return e
            if op in ('Shr', 'ShrUnchecked') and b.const is not None:
                if a.const is not None:
                    return K(a.c >> b.c)
                if b.c == 0:
                    return a
                # (2^k * x + small) >> k
                m = 1 << b.c
                if lo == 0 and all(c % m == 0 for _, c in a.t) and a.c % m == 0:
                    return Lin(a.c // m, tuple((v, c // m) for v, c in a.t))
                if lo == 0:
                    return symbol(('shr', b.c, a), 0, hi >> b.c)
                return symbol(('sar', b.c, a), lo >> b.c, hi >> b.c)
            if op in ('BitOr', 'BitXor', 'BitAnd') and a.const is not None and b.const is not None and lo == 0:
                return K({'BitOr': a.c | b.c, 'BitXor': a.c ^ b.c, 'BitAnd': a.c & b.c}[op])
            if op == 'BitOr' and lo == 0:
                for x, y in ((a, b), (b, a)):
                    # y fits below the lowest set bit of x
                    g = 0
                    from math import gcd
                    for _, c in x.t:
                        g = gcd(g, c)
                    g = gcd(g, x.c)
                    if g == 0:
                        return y
                    low = g & -g
                    if low > 1 and self.in_range(s, y, 0, low - 1):
                        return x + y
            if op == 'BitAnd' and lo == 0:
                for x, y in ((a, b), (b, a)):
                    if y.const is not None and y.c & (y.c + 1) == 0:
                        if self.in_range(s, x, 0, y.c):
                            return x
                        return symbol(('mask', y.c, x), 0, y.c)
            if op in ('Div', 'Rem') and b.const is not None and b.c > 0 and lo == 0:
                if a.const is not None:
                    return K(a.c // b.c if op == 'Div' else a.c % b.c)
                # exact linear relation through fresh quotient/remainder symbols
                q = symbol(('div', b.c, a), 0, hi)
                r = symbol(('rem', b.c, a), 0, b.c - 1)
                add_fact(s, 'eq', a - q.scale(b.c) - r)
                return q if op == 'Div' else r
            if op == 'Cmp':
                return Opq(dty, ('cmp', a, b))
            return symbol(('op', op, a, b), lo, hi)
        if isinstance(a, Discr) or isinstance(b, Discr):
            f = None
            if isinstance(a, Discr) and isinstance(b, Lin) and b.const is not None:
                f = self.discr_eq(a, b.c)
            elif isinstance(b, Discr) and isinstance(a, Lin) and a.const is not None:
                f = self.discr_eq(b, a.c)
            elif isinstance(a, Discr) and isinstance(b, Discr):
                if a.v.term == b.v.term:
                    f = True
                else:
                    n = self.nvariants(a.v.ty)
                    f = False
                    for i in range(n):
                        f = OR(f, AND(('var', a.v.term, i, n), ('var', b.v.term, i, n)))
            if f is not None:
                if op == 'Eq':
                    return f
                if op == 'Ne':
                    return NOT(f)
        if self.P.ty(lty)['k'] == 'bool':
            a, b = self.as_bool(a), self.as_bool(b)
            if op == 'BitAnd':
                return AND(a, b)
            if op == 'BitOr':
                return OR(a, b)
            if op in ('Eq', 'Ne', 'BitXor'):
                iff = OR(AND(a, b), AND(NOT(a), NOT(b)))
                return iff if op == 'Eq' else NOT(iff)
        if self.P.ty(lty)['k'] == 'float':
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Cmp') and isinstance(a, Opq) and isinstance(b, Opq):
                f = ('p', ('fpred', 'Eq' if op == 'Ne' else op, (a.term, b.term)))      # a NaN differs from itself
                return self.mk(dty, ('bin', op, a, b)) if op == 'Cmp' else NOT(f) if op == 'Ne' else f
            return self.mk(dty, ('farith', op, (a, b)))
        if op in ('Eq', 'Ne') and a == b:
            return op == 'Eq'
        return self.mk(dty, ('bin', op, a, b))

    def arith(self, op, a, b):
        if op == 'Add':
            return a + b
        if op == 'Sub':
            return a - b
        if a.const is not None:
            return b.scale(a.c)
        if b.const is not None:
            return a.scale(b.c)
        return None

    def unop(self, s, op, v, lty, dty):
        if op == 'Not':
            if self.P.ty(lty)['k'] == 'bool':
                return NOT(self.as_bool(v))
            if isinstance(v, Lin):
                lo, hi = self.bounds(lty)
                if lo == 0:
                    return K(hi) - v
                return K(-1) - v
        if op == 'Neg' and isinstance(v, Lin):
            return -v
        if op == 'PtrMetadata':
            if isinstance(v, SRef):
                return v.len
            if isinstance(v, Ref):
                try:
                    return self.len_of(self.read(s, v.root, v.path))
                except KeyError:
                    return UNIT
        if op == 'Neg' and isinstance(v, Opq) and self.P.ty(lty)['k'] == 'float':
            if isinstance(v.term, tuple) and v.term[0] == 'farith' and v.term[1] == 'neg':
                return v.term[2][0]
            return Opq(dty, ('farith', 'neg', (v,)))
        return self.mk(dty, ('un', op, v))

    def cast(self, s, kind, v, sty, dty):
        st, dt = self.P.ty(sty), self.P.ty(dty)
        if kind == 'IntToInt':
            if isinstance(v, Discr):
                return v
            if isinstance(v, Lin):
                lo, hi = self.bounds(dty)
                slo, shi = self.bounds(sty)
                if lo <= slo and shi <= hi:
                    return v
                if self.in_range(s, v, lo, hi):
                    return v
                return self.wrap(v, dt['bits'], dt['signed'])
            if dt['k'] == 'int':
                f = self.as_bool(v)
                if f is True:
                    return K(1)
                if f is False:
                    return K(0)
                if entails(s, f):
                    return K(1)
                if entails(s, NOT(f)):
                    return K(0)
                return symbol(('b2i', f), 0, 1)
        if kind.startswith('PointerCoercion(Unsize'):
            if isinstance(v, Ref):
                if dt['k'] in ('ref', 'ptr') and self.P.ty(dt['to'])['k'] == 'slice':
                    c = self.read(s, v.root, v.path)
                    return SRef(v.root, v.path, K(0), self.len_of(c))
            return v
        if isinstance(v, (Ref, SRef, Fn)):
            return v
        if kind.startswith('PointerCoercion') or kind == 'BoxDerefTransmute':
            return v
        if kind == 'FloatToFloat' and isinstance(v, Opq) and sty != dty:
            return Opq(dty, ('farith', 'cast', (v,)))       # a signalling NaN becomes a quiet one, other bits may get lost
        if kind == 'Transmute':
            if isinstance(v, Lin) and dt['k'] == 'int':
                return self.wrap(v, dt['bits'], dt['signed'])
            if isinstance(v, (Agg, Seq)):
                return v
        return self.mk(dty, ('cast', kind, v, dt['s']))

    def wrap(self, v, bits, signed):
        """two's complement truncation of an integer value"""
        if v.const is not None:
            n = v.c & ((1 << bits) - 1)
            if signed and n >> (bits - 1):
                n -= 1 << bits
            return K(n)
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        b = num._bounds_fast(v)
        if lo <= b[0] and b[1] <= hi:
            return v
        # peel an inner truncation of at least this width
        if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
            t = NSym.term[v.t[0][0]]
            if isinstance(t, tuple) and t[0] == 'trunc' and t[1] >= bits:
                return self.wrap(t[3], bits, signed)
            if isinstance(t, tuple) and t[0] == 'mask' and t[1] >= (1 << bits) - 1:
                return self.wrap(t[2], bits, signed)
            if bits == 8 and not signed and isinstance(t, tuple) and t[0] in ('shr', 'sar') and t[1] % 8 == 0:
                return self.byte(t[2], t[1] // 8)
        if bits == 8 and not signed:
            return self.byte(v, 0)
        return symbol(('trunc', bits, signed, v), lo, hi)

    def byte(self, v, k):
        """k-th little-endian byte of the two's complement of v"""
        if v.const is not None:
            return K((v.c >> (8 * k)) & 255)
        if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
            i = v.t[0][0]
            t = NSym.term[i]
            if NSym.lo[i] >= 0 and NSym.hi[i] <= 255:
                return v if k == 0 else K(0)
            if isinstance(t, tuple) and t[0] == 'trunc' and t[1] >= 8 * (k + 1):
                return self.byte(t[3], k)
            if isinstance(t, tuple) and t[0] == 'shr' and t[1] % 8 == 0:
                return self.byte(t[2], k + t[1] // 8)
            if isinstance(t, tuple) and t[0] == 'mask' and t[1] >= (1 << (8 * (k + 1))) - 1:
                return self.byte(t[2], k)
        return symbol(('byte', k, v), 0, 255)

    # ------------------------------------------------------------------ control
    def call_key(self, key, args, s):
        b = self.P.bodies[key]
        return self.exec_body(b, args, s)

    def exec_body(self, b, args, s, keep=False):
        if self.depth > 60:
            raise Blowup('inlining depth')
        self.depth += 1
        self.fid += 1
        fid = self.fid
        self.stack.append(b['path'])
        try:
            s = s.copy()
            n = b['args']
            if b['spread'] is not None and len(args) == n - 1 + 1:
                pass
            for i, a in enumerate(args[:n]):
                s.mem[('L', fid, i + 1)] = a
            if b.get('local'):
                self.inlined.add(b['path'])
            outs = self.run(b, fid, 0, s, frozenset())
            res = []
            for kind, st, blk in outs:
                if kind != 'ret':
                    continue
                rv = st.mem.get(('L', fid, 0), UNIT)
                if not keep:
                    for i in range(len(b['locals'])):
                        st.mem.pop(('L', fid, i), None)
                res.append((st, rv))
            return res
        finally:
            self.stack.pop()
            self.depth -= 1

    def run(self, b, fid, start, s, active, stop=None, region=None, first=True):
        """Explore from block `start`.  Outcomes: ('ret',state,None), ('stop',state,blk) when control
        reaches the loop head `stop` again, ('exit',state,blk) when it leaves `region`."""
        out = []
        work = [(start, s, True if stop == start else False)]
        counts = {}
        while work:
            blk, st, entering = work.pop()
            self.steps += 1
            if self.steps > self.budget or (self.deadline and not self.steps & 63 and time.time() > self.deadline):
                if self.unroll is None:
                    raise Blowup('step budget')
                self.truncated += 1          # searching for a failing history: what was found so far counts
                break
            if stop is not None and blk == stop and not entering:
                out.append(('stop', st, blk))
                continue
            if region is not None and blk not in region:
                out.append(('exit', st, blk))
                continue
            if blk in b['loops'] and blk not in active and not (stop == blk):
                if self.unroll is None:
                    for kind, st2, blk2 in self.loop(b, fid, blk, st, active):
                        if kind == 'ret':
                            out.append((kind, st2, blk2))
                        else:
                            work.append((blk2, st2, False))
                    continue
                else:
                    c = st.g(('it', fid, blk), 0)
                    if c > self.unroll:
                        self.truncated += 1
                        continue
                    st = st.copy()
                    st.setg(('it', fid, blk), c + 1)
            for st2, nxt in self.block(b, fid, blk, st):
                if nxt is None:
                    out.append(('ret', st2, None))
                else:
                    work.append((nxt, st2, False))
        return out

    def block(self, b, fid, blk, s):
        """Execute one block; list of (state, successor or None for return)."""
        s = s.copy()
        k = b['blocks'][blk]
        for st in k['s']:
            if st[0] == '=':
                self.cur_site = st[4]
                v = self.rvalue(s, fid, st[2], st[3])
                p = self.place(s, fid, st[1])
                if p[0] == 'sref':
                    raise KeyError('assign to slice')
                if p[2] and p[2][-1][0] == 'e':
                    self.mon.on_store(self, s, p[1], p[2], v, st[4])
                self.write(s, p[1], p[2], v)
            elif st[0] == 'setdiscr':
                p = self.place(s, fid, st[1])
                v = self.read(s, p[1], p[2])
                self.write(s, p[1], p[2], Enum(v.ty, st[2], v.f if isinstance(v, Enum) else ()))
        t = k['t']
        o = t[0]
        if o == 'goto':
            return [(s, t[1])]
        if o == 'return':
            return [(s, None)]
        if o == 'switch':
            r = self.switch(s, fid, t)
            if len(r) > 1:
                site = self.cur_site
                for i, (x, nb) in enumerate(r):
                    x = x.copy()
                    x.trail = (x.trail, '%s branch %d' % (site, i))
                    r[i] = (x, nb)
            return r
        if o == 'drop':
            return [(s, t[2])]
        if o == 'call':
            self.cur_site = t[6]
            args = [self.operand(s, fid, a) for a in t[2]]
            c = t[1]
            if c['kind'] == 'indirect':
                f = self.operand(s, fid, c['op'])
                outs = self.call_value(s, f, args, t[5], t[6])
            else:
                outs = self.call(s, c, args, t[5], t[6], t[4] is None)
            res = []
            for st, v in outs:
                if t[4] is None:
                    continue
                p = self.place(st, fid, t[3])
                self.write(st, p[1], p[2], v)
                res.append((st, t[4]))
            return res
        if o == 'assert':
            c = self.as_bool(self.operand(s, fid, t[1]))
            if not t[2]:
                c = NOT(c)
            ok = assume(s, c)
            bad = assume(s, NOT(c))
            self.panic_check(s, bad, 'assert:' + t[3], t[5])
            return [(x, t[4]) for x in ok]
        if o == 'unreachable':
            return []
        return []

    def panic_check(self, s, bad, what, site):
        fn = self.stack[-1] if self.stack else '?'
        if bad:
            for x in bad[:4]:
                self.rec(x, 'PANIC', what, False, msg='%s can fire at %s' % (what, site), site=fn, info=site)
        else:
            self.rec(s, 'PANIC', what, True, site=fn)

    def switch(self, s, fid, t):
        v = self.operand(s, fid, t[1])
        res = []
        tk = self.P.ty(t[4])['k']
        if isinstance(v, Lin):
            if v.const is not None:
                for n, blk in t[2]:
                    lo, hi = self.bounds(t[4])
                    nn = n
                    if lo < 0 and n > hi:
                        nn = n - (1 << self.P.ty(t[4])['bits'])
                    if v.c == nn:
                        return [(s, blk)]
                return [(s, t[3])]
            rest = s
            ok = True
            for n, blk in t[2]:
                for x in assume(rest, EQ(v, K(n))):
                    res.append((x, blk))
                r = assume(rest, NE(v, K(n)))
                if not r:
                    ok = False
                    break
                rest = r[0]
            if ok:
                res.append((rest, t[3]))
            return res
        if isinstance(v, Discr):
            rest = [s]
            for n, blk in t[2]:
                f = self.discr_eq(v, n)
                nrest = []
                for r in rest:
                    for x in assume(r, f):
                        res.append((x, blk))
                    nrest.extend(assume(r, NOT(f)))
                rest = nrest
            for r in rest:
                res.append((r, t[3]))
            return res
        f = self.as_bool(v)
        for n, blk in t[2]:
            g = NOT(f) if n == 0 else f
            for x in assume(s, g):
                res.append((x, blk))
            f2 = NOT(g)
        for x in assume(s, f2):
            res.append((x, t[3]))
        return res

    # ------------------------------------------------------------------ calls
    def call_value(self, s, f, args, dty, site):
        if isinstance(f, Fn):
            return self.call(s, f.callee, args, dty, site, False)
        if isinstance(f, Ref):
            return self.call_value(s, self.read(s, f.root, f.path), args, dty, site)
        if isinstance(f, Agg) and f.ty is not None and self.P.ty(f.ty)['k'] == 'closure':
            t = self.P.ty(f.ty)
            b = self.P.bodies.get(t['key'])
            if b is not None:
                # closure body takes self by ref/mut/value according to its kind
                selfty = self.P.ty(b['locals'][1][0])
                if selfty['k'] == 'ref':
                    root = ('H', self.fresh('clo'))
                    s = s.copy()
                    s.mem[root] = f
                    a0 = Ref(root)
                else:
                    a0 = f
                return self.exec_body(b, [a0] + args, s)
        return self.natives.opaque_fn(self, s, f, args, dty, site)

    def call(self, s, c, args, dty, site, diverges):
        self.natives_used.add(c['rpath'] or c['path'])
        return self.natives.dispatch(self, s, c, args, dty, site, diverges)

    # ------------------------------------------------------------------ loops
    def diff(self, a, b, root, path, out):
        """Collect paths at which two value trees differ."""
        if a == b:
            return
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
            for i in range(len(a.f)):
                self.diff(a.f[i], b.f[i], root, path + (('f', i),), out)
            return
        if isinstance(a, Enum) and isinstance(b, Enum) and a.k == b.k and len(a.f) == len(b.f):
            for i in range(len(a.f)):
                self.diff(a.f[i], b.f[i], root, path + (('v', a.k, i),), out)
            return
        if isinstance(a, Opq) and isinstance(b, Agg):
            self.diff(self.expand(a), b, root, path, out)
            return
        if isinstance(b, Opq) and isinstance(a, Agg):
            self.diff(a, self.expand(b), root, path, out)
            return
        if isinstance(a, SRef) and isinstance(b, SRef) and a.root == b.root and a.path == b.path:
            if a.start != b.start:
                out.add((root, path + (('#start',),)))
            if a.len != b.len:
                out.add((root, path + (('#len',),)))
            return
        if isinstance(a, Seq) and isinstance(b, Seq):
            if a.len != b.len:
                out.add((root, path + (('#len',),)))
            if a.term != b.term:
                out.add((root, path + (('#term',),)))
            return
        if isinstance(a, Iter) and isinstance(b, Iter) and a.root == b.root and a.path == b.path:
            if a.start != b.start:
                out.add((root, path + (('#start',),)))
            if a.end != b.end:
                out.add((root, path + (('#end',),)))
            return
        out.add((root, path))

    def expand(self, v):
        n = self.nfields(v.ty, 0)
        if self.P.ty(v.ty)['k'] == 'adt' and self.P.adts.get(self.P.ty(v.ty)['path'], {}).get('kind') == 'struct' and n:
            return Agg(v.ty, [self.proj(v, ('f', j)) for j in range(n)])
        return v

    def getx(self, s, root, path):
        """read with pseudo projections; None if absent"""
        v = s.ghost.get(root[1]) if root[0] == 'G' else s.mem.get(root)
        if v is None:
            return None
        for el in path:
            if el[0] == '#start':
                return v.start
            if el[0] == '#len':
                return v.len
            if el[0] == '#end':
                return v.end
            if el[0] == '#term':
                return v.term
            if isinstance(v, Enum) and el[0] == 'v' and v.k != el[1]:
                return None
            try:
                v = self.proj(v, el)
            except GIVEUP:
                return None
        return v

    def setx(self, s, root, path, val):
        if root[0] == 'G':
            s.setg(root[1], val)
            return
        if path and path[-1][0].startswith('#'):
            base = self.getx(s, root, path[:-1])
            o = path[-1][0]
            if isinstance(base, SRef):
                nv = SRef(base.root, base.path, val if o == '#start' else base.start, val if o == '#len' else base.len)
            elif isinstance(base, Seq):
                nv = Seq(base.ty, val if o == '#len' else base.len, val if o == '#term' else base.term)
            else:
                nv = Iter(base.root, base.path, val if o == '#start' else base.start,
                          val if o == '#end' else base.end, base.kind, base.extra)
            self.setx(s, root, path[:-1], nv)
            return
        self.write(s, root, path, val)

    def holds_bytes(self, ty):
        return ty is not None and self.P.ty(ty)['k'] == 'param'

    def havoc_leaf(self, v, name, imprecise):
        if isinstance(v, Lin):
            lo, hi = 0, U64
            if v.const is not None and v.c < 0:
                lo = -(1 << 63)
            return self.fresh_int(name, lo, hi)
        if v is True or v is False or (isinstance(v, tuple) and v and v[0] in ('p', 'var', 'not', 'and', 'or', 'le', 'eq', 'ne')):
            return ('p', self.fresh(name))
        if isinstance(v, Opq):
            return self.mk(v.ty, self.fresh(name))
        if isinstance(v, (Enum, Agg)) and v.ty is not None:
            return self.mk(v.ty, self.fresh(name))
        if isinstance(v, (Arr,)):
            return self.mk(v.ty, self.fresh(name))
        if isinstance(v, tuple):
            return self.fresh(name)      # content token
        imprecise.append('loop-carried %r' % (v,))
        return v

    def ints_in(self, s):
        """integer values in live memory, for invariant templates"""
        out = {}

        def walk(v, root, path, d):
            if d > 6 or v is None:
                return
            if isinstance(v, Lin):
                out[(root, path)] = v
            elif isinstance(v, Agg):
                for i, x in enumerate(v.f):
                    walk(x, root, path + (('f', i),), d + 1)
            elif isinstance(v, Enum):
                for i, x in enumerate(v.f):
                    walk(x, root, path + (('v', v.k, i),), d + 1)
            elif isinstance(v, SRef):
                out[(root, path + (('#start',),))] = v.start
                out[(root, path + (('#len',),))] = v.len
            elif isinstance(v, Seq):
                out[(root, path + (('#len',),))] = v.len
            elif isinstance(v, Iter):
                out[(root, path + (('#start',),))] = v.start
                out[(root, path + (('#end',),))] = v.end
        for root, v in s.mem.items():
            if root[0] == 'C':
                continue
            walk(v, root, (), 0)
        for g, v in s.ghost.items():
            if isinstance(v, Lin):
                out[(('G', g), ())] = v
        return out

    def live(self, b):
        """block -> locals that may be read there before they are written as a whole (locals whose address is taken: always)"""
        if '_live' in b:
            return b['_live']
        n = len(b['locals'])
        always = {0} | set(range(1, b['args'] + 1))

        def uses(x, out):
            if isinstance(x, dict):
                for k, y in x.items():
                    uses(y, out)
            elif isinstance(x, (list, tuple)):
                if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], (list, tuple)) and all(isinstance(y, (list, tuple)) for y in x[1]):
                    out.add(x[0])
                elif len(x) >= 2 and x[0] == 'i' and isinstance(x[1], int):
                    out.add(x[1])
                for y in x:
                    uses(y, out)
        gen, kill, succ = [], [], []
        for bl in b['blocks']:
            g, k = set(), set()
            for st in bl['s']:
                u = set()
                if st[0] == '=':
                    if st[2][0] in ('ref', 'rawptr'):
                        pl = set()
                        uses(st[2], pl)
                        always |= pl
                    uses(st[2], u)
                    if st[1][1]:
                        uses(st[1], u)
                    g |= u - k
                    if not st[1][1]:
                        k.add(st[1][0])
                else:
                    uses(st, u)
                    g |= u - k
            t = bl['t']
            u = set()
            if t[0] == 'call':
                uses(t[1:3], u)
                if t[3] and t[3][1]:
                    uses(t[3], u)
            else:
                uses(t, u)
            g |= u - k
            if t[0] == 'call' and t[3] and not t[3][1]:
                k.add(t[3][0])
            gen.append(g)
            kill.append(k)
            succ.append(b['succ'][len(succ)])
        live = [set(g) for g in gen]
        changed = True
        while changed:
            changed = False
            for i in range(len(gen) - 1, -1, -1):
                new = set(live[i])
                for j in succ[i]:
                    new |= live[j] - kill[i]
                if new != live[i]:
                    live[i] = new
                    changed = True
        dead = [[i for i in range(n) if i not in always and i not in l] for l in live]
        b['_live'] = dead
        return dead

    def bury(self, b, fid, head, s):
        """forget the locals that are dead at the head of a loop"""
        s = s.copy()
        for i in self.live(b)[head]:
            s.mem.pop(('L', fid, i), None)
        return s

    def loop(self, b, fid, head, s, active):
        region = b['loops'][head]
        s = self.bury(b, fid, head, s)

        def step(st):
            outs = self.run(b, fid, head, st, active | {head}, stop=head, region=region)
            backs = [self.bury(b, fid, head, x[1]) for x in outs if x[0] == 'stop']
            exits = [x for x in outs if x[0] != 'stop']
            return backs, exits
        name = '%s bb%d' % (b['path'], head)
        if not self.peel:
            return self.fix(s, step, name)
        backs, outs = step(s)
        for x in backs:
            self.mon.on_back(self, s, x)
            outs += self.fix(x, step, name)
        return outs

    def fix(self, s, step, name):
        H = set()
        grown = set()            # containers whose length changes in the loop, too
        rounds = 0
        cands = None
        evs = s.ev

        def base(v):
            t = v.term
            return t[2] if isinstance(t, tuple) and t and t[0] == 'w' and len(t) == 3 else t
        while True:
            rounds += 1
            if rounds > 40:
                raise Blowup('loop fixpoint ' + name)
            g = s.copy()
            imprecise = []
            hv = {}
            for (root, path) in sorted(H, key=repr):
                e = self.getx(s, root, path)
                if isinstance(e, Opq) and (root, path) not in grown and self.holds_bytes(e.ty):
                    v = self.mk(e.ty, ('w', self.fresh('lp'), base(e)))
                else:
                    v = self.havoc_leaf(e, 'lp', imprecise)
                hv[(root, path)] = v
            # set container-level changes first, then leaves
            for (root, path), v in sorted(hv.items(), key=lambda x: len(x[0][1])):
                self.setx(g, root, path, v)
            if cands is None or cands[0] != frozenset(H):
                cands = (frozenset(H), self.loop_candidates(s, H))
            live = cands[1]
            gs = [g]
            for cn, (mkf, hold) in live.items():
                ng = []
                for x in gs:
                    f = mkf(self, x)
                    if f is None:
                        continue
                    ng.extend(assume(x, f))
                gs = ng or gs
            if imprecise:
                for x in gs:
                    x.taint = x.taint + tuple(imprecise)
            self.silent += 1
            try:
                backs = []
                for x in gs:
                    bk, _ = step(x)
                    backs.extend(bk)
            finally:
                self.silent -= 1
            newH = set()
            lazy = False
            for bk in backs:
                for root in bk.mem:
                    # memory first touched inside the loop is loop-carried as well
                    if root[0] == 'S' and root not in g.mem and root not in s.mem and root in self.rty and not fresh_in(root[1]):
                        v0 = self.root_init(root)
                        d = set()
                        self.diff(v0, bk.mem[root], root, (), d)
                        if d:
                            s = s.copy()
                            s.mem[root] = v0
                            lazy = True
            if lazy:
                cands = None
                continue
            for bk in backs:
                for root in set(g.mem) | set(bk.mem):
                    if root[0] == 'C' or root not in g.mem:
                        continue
                    if root not in bk.mem:
                        continue
                    self.diff(g.mem[root], bk.mem[root], root, (), newH)
                for k in set(g.ghost) | set(bk.ghost):
                    if g.ghost.get(k) != bk.ghost.get(k):
                        newH.add((('G', k), ()))
            more = set()
            for l in H - grown:
                e = self.getx(s, *l)
                if isinstance(e, Opq) and self.holds_bytes(e.ty):
                    for bk in backs:
                        v = self.getx(bk, *l)
                        if not isinstance(v, Opq) or base(v) != base(e):
                            more.add(l)
                            break
            # a state of a known kind stays of that kind: only its fields are loop-carried
            for l in newH - H:
                e = self.getx(s, *l)
                if l[0][0] == 'G' or not isinstance(e, Opq) or isinstance(e, Enum) or not s.vars.get(e.term):
                    continue
                ks = s.vars[e.term]
                k = next(iter(ks))
                if len(ks) == 1 and self.nfields(e.ty, k) and all(
                        isinstance(self.getx(bk, *l), Enum) and self.getx(bk, *l).k == k for bk in backs if l[0] in bk.mem):
                    s = s.copy()
                    self.setx(s, l[0], l[1], Enum(e.ty, k, [self.proj(e, ('v', k, j)) for j in range(self.nfields(e.ty, k))]))
                    lazy = True
            if lazy:
                cands = None
                continue
            # drop sub-paths of already havocked leaves; add the genuinely new ones
            add = set()
            for (root, path) in newH:
                if any(r == root and path[:len(p)] == p for r, p in H):
                    continue
                add.add((root, path))
            # a new location of scratch locals that is dead at the head is harmless but costs precision only
            if add:
                for (root, path) in list(H):
                    if any(r == root and path[:len(p)] == p and len(p) < len(path) for r, p in add):
                        H.discard((root, path))
                H |= add
            if more:
                grown |= more
                cands = None
            if add or more:
                continue
            bad = []
            for cn, (mkf, hold) in live.items():
                for bk in backs:
                    f = mkf(self, bk)
                    if f is None or not entails(bk, f):
                        bad.append(cn)
                        break
            if bad:
                for cn in bad:
                    del live[cn]
                continue
            break
        # final recorded pass
        outs = []
        for x in gs:
            x.approx = x.approx + ((name,) if H else ())
            x.note('loop invariant at %s' % name)
            bk, ex = step(x)
            for y in bk:
                self.mon.on_back(self, s, y)
            outs.extend(ex)
        self.loops_done.append((name, len(H), len(live)))
        return outs

    def loop_candidates(self, s, H):
        """name -> (formula builder, None) for templates that hold on entry."""
        c = {}
        ints = self.ints_in(s)
        hl = [l for l in H if isinstance(self.getx(s, *l), Lin)]
        others = [l for l in ints if l not in H and not any(l[0] == r and l[1][:len(p)] == p for r, p in H)]
        # distinct values only
        seen = {}
        for l in others:
            v = ints[l]
            if (v.t or (l[1] and l[1][-1][0] == '#len')) and v not in seen:
                seen[v] = l
        consts = list(seen)

        def add(name, f):
            fe = f(self, s)
            if fe is None:
                return
            if entails(s, fe):
                c[name] = (f, None)
        get = self.getx
        for l in hl:
            e = get(s, *l)
            add(('ge', l), lambda m, x, l=l, e=e: (None if get(x, *l) is None else LE(e, get(x, *l))))
            add(('le', l), lambda m, x, l=l, e=e: (None if get(x, *l) is None else LE(get(x, *l), e)))
            for t in consts:
                add(('let', l, t), lambda m, x, l=l, t=t: LE(get(x, *l), t) if get(x, *l) is not None else None)
                add(('get', l, t), lambda m, x, l=l, t=t: LE(t, get(x, *l)) if get(x, *l) is not None else None)
            if e.t and l[0][0] != 'G':
                add(('ze', l), lambda m, x, l=l, e=e: OR(EQ(get(x, *l), K(0)), EQ(get(x, *l), e)) if get(x, *l) is not None else None)
            add(('nz', l), lambda m, x, l=l: LE(K(1), get(x, *l)) if get(x, *l) is not None else None)
        # what is known about the values on entry may go on to hold for the current ones
        at = {}
        for l in hl:
            e = get(s, *l)
            if l[0][0] != 'G' and e.c == 0 and len(e.t) == 1 and e.t[0][1] == 1:
                at.setdefault(e.t[0][0], l)
        for c0 in s.facts:
            kind, e = c0
            moved = [(at[v], a) for v, a in e.t if v in at]
            if not moved or kind != 'le':
                continue
            rest = Lin(e.c, tuple((v, a) for v, a in e.t if v not in at))

            def mkp(m, x, moved=moved, rest=rest):
                r = rest
                for l, a in moved:
                    v = get(x, *l)
                    if v is None:
                        return None
                    r = r.add(v, a)
                return LE(r, K(0))
            add(('pf', c0), mkp)
        for i, l in enumerate(hl):
            for l2 in hl[i + 1:]:
                d = get(s, *l) - get(s, *l2)
                sm = get(s, *l) + get(s, *l2)

                def both(x, l, l2):
                    a, b2 = get(x, *l), get(x, *l2)
                    return None if a is None or b2 is None else (a, b2)
                add(('deq', l, l2), lambda m, x, l=l, l2=l2, d=d: EQ(both(x, l, l2)[0] - both(x, l, l2)[1], d) if both(x, l, l2) else None)
                add(('seq', l, l2), lambda m, x, l=l, l2=l2, sm=sm: EQ(both(x, l, l2)[0] + both(x, l, l2)[1], sm) if both(x, l, l2) else None)
                add(('ltt', l, l2), lambda m, x, l=l, l2=l2: LE(both(x, l, l2)[0], both(x, l, l2)[1]) if both(x, l, l2) else None)
                add(('gtt', l, l2), lambda m, x, l=l, l2=l2: LE(both(x, l, l2)[1], both(x, l, l2)[0]) if both(x, l, l2) else None)
                add(('zz', l, l2), lambda m, x, l=l, l2=l2: OR(EQ(both(x, l, l2)[0], K(0)), EQ(both(x, l, l2)[1], K(0))) if both(x, l, l2) else None)
                add(('z0', l, l2), lambda m, x, l=l, l2=l2: OR(NE(both(x, l, l2)[0], both(x, l, l2)[1]), EQ(both(x, l, l2)[0], K(0))) if both(x, l, l2) else None)
        gl = [l for l in ints if isinstance(l[0], tuple) and l[0][0] == 'G' and l in H]
        mem = [l for l in hl if l[0][0] != 'G'] + [l for l in others if l[0][0] != 'G' and ints[l].t]
        for g in gl:
            # ghost counters: a difference of two places; equal to a place unless another ghost is zero
            for a in mem:
                for b2 in mem:
                    if a != b2 and (a in H or b2 in H) and get(s, *a) - get(s, *b2) == get(s, *g):
                        add(('gd', g, a, b2), lambda m, x, g=g, a=a, b2=b2: (None if get(x, *a) is None or get(x, *b2) is None else EQ(get(x, *g), get(x, *a) - get(x, *b2))))
            if get(s, *g) == K(1):
                # a place keeps its entry value until a ghost flag is cleared
                for a in hl:
                    if a[0][0] == 'G':
                        continue
                    e = get(s, *a)
                    add(('gk', g, a), lambda m, x, g=g, a=a, e=e: (None if get(x, *a) is None else OR(EQ(get(x, *g), K(0)), EQ(get(x, *a), e))))
            for g2 in gl:
                if g2 == g:
                    continue
                for a in mem:
                    if get(s, *a) == get(s, *g):
                        add(('gz', g, g2, a), lambda m, x, g=g, g2=g2, a=a: (None if get(x, *a) is None else OR(EQ(get(x, *g2), K(0)), EQ(get(x, *g), get(x, *a)))))
        for l in H:
            # a state field keeps its entry value until a ghost counter moves
            e = get(s, *l)
            if not isinstance(e, (Enum, Opq)) or getattr(e, 'ty', None) is None or l[0][0] == 'G':
                continue
            n = self.nvariants(e.ty)
            if not 1 <= n <= 5 or any(self.nfields(e.ty, k) for k in range(n)):
                continue
            for g in gl:
                if get(s, *g).const != 0:
                    continue
                for k in range(n):
                    def mks(m, x, l=l, g=g, k=k, n=n, e=e):
                        v = get(x, *l)
                        if v is None:
                            return None
                        same = False
                        for j in range(n):
                            same = OR(same, AND(m.is_variant(v, j, n), m.is_variant(e, j, n)))
                        return OR(m.is_variant(v, k, n), AND(EQ(get(x, *g), K(0)), same))
                    add(('gs', l, g, k), mks)
        for l in H:
            e = get(s, *l)
            if isinstance(e, Lin):
                continue
            if e is True or e is False:
                add(('b', l), lambda m, x, l=l, e=e: (m.as_bool(get(x, *l)) if e else NOT(m.as_bool(get(x, *l)))) if get(x, *l) is not None else None)
            if isinstance(e, Enum):
                n = self.nvariants(e.ty)
                add(('var', l), lambda m, x, l=l, e=e, n=n: m.is_variant(get(x, *l), e.k, n) if get(x, *l) is not None else None)
            if isinstance(e, Opq):
                n = self.nvariants(e.ty)
                vs = s.vars.get(e.term)
                if vs is not None and len(vs) == 1 and n:
                    k = next(iter(vs))
                    add(('var', l), lambda m, x, l=l, k=k, n=n: m.is_variant(get(x, *l), k, n) if get(x, *l) is not None else None)
                for t, val in list(s.lits.items()):
                    if len(t) == 2 and t[1] == e.term:
                        def mkl(m, x, l=l, p=t[0], val=val):
                            v = get(x, *l)
                            if not isinstance(v, Opq):
                                return None
                            f = ('p', (p, v.term))
                            return f if val else NOT(f)
                        add(('lit', l, t[0]), mkl)
        return c

    def is_variant(self, v, k, n=None):
        if isinstance(v, Enum):
            return v.k == k
        if isinstance(v, Opq):
            return ('var', v.term, k, n or self.nvariants(v.ty))
        return False
