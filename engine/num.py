"""Relational numeric domain: conjunctions of linear constraints over integer symbols.

Entailment is decided by exact integer-tightened Fourier-Motzkin elimination.  `infeasible`
may answer False ("cannot refute") on systems it gives up on; it never answers True wrongly.
"""
from math import gcd

U64 = (1 << 64) - 1
ISIZE = (1 << 63) - 1
BIG = 1 << 31


class Sym:
    """Registry of integer symbols, one per (hashable) term and range (the same term may name fields of
    different types in different analyses)."""
    ids = {}
    term = []
    lo = []
    hi = []

    @classmethod
    def get(cls, term, lo, hi):
        i = cls.ids.get((term, lo, hi))
        if i is None:
            i = len(cls.term)
            cls.ids[(term, lo, hi)] = i
            cls.term.append(term)
            cls.lo.append(lo)
            cls.hi.append(hi)
        return i


class Lin:
    __slots__ = ('c', 't', 'h')

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t)

    def __repr__(self):
        s = []
        for v, k in self.t:
            n = tname(Sym.term[v])
            s.append(('+' if k > 0 else '-') + (str(abs(k)) if abs(k) != 1 else '') + n)
        if self.c or not s:
            s.append('%+d' % self.c)
        r = ''.join(s)
        return r[1:] if r[0] == '+' else r

    @property
    def const(self):
        return self.c if not self.t else None

    def add(self, o, k=1):
        if not o.t:
            return Lin(self.c + k * o.c, self.t)
        if not self.t and k == 1:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for v, a in o.t:
            n = d.get(v, 0) + k * a
            if n:
                d[v] = n
            else:
                d.pop(v, None)
        return Lin(self.c + k * o.c, tuple(sorted(d.items())))

    def __add__(self, o):
        return self.add(o if isinstance(o, Lin) else Lin(o))

    def __sub__(self, o):
        return self.add(o if isinstance(o, Lin) else Lin(o), -1)

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, tuple((v, a * k) for v, a in self.t))

    def __neg__(self):
        return self.scale(-1)


def tname(t):
    if isinstance(t, str):
        return t
    if isinstance(t, tuple) and t:
        if t[0] == 'fresh':
            return '%s#%d' % (t[1], t[2])
        if len(t) == 2:
            return '%s(%s)' % (t[0], tname(t[1]))
        if t[0] == 'f':
            return '%s.%s' % (tname(t[1]), t[2])
        if t[0] == 'vf':
            return '%s:%s.%s' % (tname(t[1]), t[2], t[3])
        return '%s(%s)' % (t[0], ','.join(tname(x) for x in t[1:]))
    return str(t)


def K(n):
    return Lin(n)


def symbol(term, lo=0, hi=U64):
    return Lin(0, ((Sym.get(term, lo, hi), 1),))


def norm_le(e):
    """e <= 0, integer-tightened; returns Lin, True (trivial) or False (absurd)."""
    if not e.t:
        return e.c <= 0
    g = 0
    for _, a in e.t:
        g = gcd(g, a)
    if g > 1:
        return Lin(-((-e.c) // g), tuple((v, a // g) for v, a in e.t))
    return e


def _bounds_fast(e):
    lo = hi = e.c
    for v, a in e.t:
        if a > 0:
            lo += a * Sym.lo[v]
            hi += a * Sym.hi[v]
        else:
            lo += a * Sym.hi[v]
            hi += a * Sym.lo[v]
    return lo, hi


class _Absurd(Exception):
    pass


def _model(elim):
    """an integer solution found by going back through the eliminated variables, or None"""
    val = {}
    for kind, x, rows in reversed(elim):
        if kind == 'eq':
            a, r = 0, rows['c']
            for v, w in rows['t'].items():
                if v == x:
                    a = w
                else:
                    r += w * val.setdefault(v, Sym.lo[v])
            if r % a:
                return None
            val[x] = -r // a
            continue
        lo = hi = None
        for q in rows:
            a, r = 0, q['c']
            for v, w in q['t'].items():
                if v == x:
                    a = w
                else:
                    r += w * val.setdefault(v, Sym.lo[v])
            if a > 0:
                b = (-r) // a
                hi = b if hi is None or b < hi else hi
            else:
                b = (r - a - 1) // -a
                lo = b if lo is None or b > lo else lo
        if lo is not None and hi is not None and lo > hi:
            return None
        val[x] = lo if lo is not None else hi if hi is not None else Sym.lo[x]
    return val


def holds(val, c):
    k, e = c
    n = e.c
    for v, a in e.t:
        x = val.get(v)
        n += a * (Sym.lo[v] if x is None else x)
    return n <= 0 if k == 'le' else n == 0 if k == 'eq' else n != 0


def _fm(les, eqs, cap=600, out=None):
    """True if the system is infeasible (over the integers, as far as tightening sees)."""
    elim = []
    try:
        les = [dict(t=dict(e.t), c=e.c) for e in les]
        eqs = [dict(t=dict(e.t), c=e.c) for e in eqs]
        # gaussian elimination of the equalities
        while eqs:
            j, best = 0, None
            for i, q in enumerate(eqs):
                w = (min([abs(a) for a in q['t'].values()], default=0), len(q['t']))
                if best is None or w < best:
                    j, best = i, w
                    if w <= (1, 2):
                        break
            q = eqs.pop(j)
            if not q['t']:
                if q['c'] != 0:
                    return True
                continue
            g = 0
            for a in q['t'].values():
                g = gcd(g, a)
            if q['c'] % g:
                return True
            if g > 1:
                q = dict(t={v: a // g for v, a in q['t'].items()}, c=q['c'] // g)
            x = min(q['t'], key=lambda v: abs(q['t'][v]))
            a = q['t'][x]
            elim.append(('eq', x, q))

            def subst(r, ineq):
                b = r['t'].get(x)
                if not b:
                    return r
                # |a|*r - sign(a)*b*q
                m = abs(a)
                k = b if a > 0 else -b
                d = {v: m * w for v, w in r['t'].items()}
                for v, w in q['t'].items():
                    n = d.get(v, 0) - k * w
                    if n:
                        d[v] = n
                    else:
                        d.pop(v, None)
                return dict(t=d, c=m * r['c'] - k * q['c'])
            les = [subst(r, True) if x in r['t'] else r for r in les]
            eqs = [subst(r, False) if x in r['t'] else r for r in eqs]

        def tidy(rows):
            best = {}
            for r in rows:
                if not r['t']:
                    if r['c'] > 0:
                        raise _Absurd()
                    continue
                g = 0
                for a in r['t'].values():
                    g = gcd(g, a)
                if g > 1:
                    t = tuple(sorted((v, a // g) for v, a in r['t'].items()))
                    c = -((-r['c']) // g)
                else:
                    t = tuple(sorted(r['t'].items()))
                    c = r['c']
                if t not in best or best[t] < c:
                    best[t] = c
            for t, c in best.items():
                nt = tuple((v, -a) for v, a in t)
                c2 = best.get(nt)
                if c2 is not None and c + c2 > 0:
                    raise _Absurd()
            return [dict(t=dict(t), c=c) for t, c in best.items()]
        les = tidy(les)
        while True:
            cnt = {}
            for r in les:
                for v, a in r['t'].items():
                    p, n = cnt.get(v, (0, 0))
                    cnt[v] = (p + 1, n) if a > 0 else (p, n + 1)
            if not cnt:
                if out is not None:
                    out.append(_model(elim))
                return False
            x = min(cnt, key=lambda v: cnt[v][0] * cnt[v][1] - cnt[v][0] - cnt[v][1])
            pos = [r for r in les if r['t'].get(x, 0) > 0]
            neg = [r for r in les if r['t'].get(x, 0) < 0]
            rest = [r for r in les if x not in r['t']]
            elim.append(('le', x, pos + neg))
            if len(pos) * len(neg) + len(rest) > cap:
                return False
            for p in pos:
                a = p['t'][x]
                for n in neg:
                    b = -n['t'][x]
                    g = gcd(a, b)
                    ka, kb = b // g, a // g
                    d = {v: ka * w for v, w in p['t'].items()}
                    for v, w in n['t'].items():
                        m = d.get(v, 0) + kb * w
                        if m:
                            d[v] = m
                        else:
                            d.pop(v, None)
                    rest.append(dict(t=d, c=ka * p['c'] + kb * n['c']))
            les = tidy(rest)
    except _Absurd:
        return True


_cache = {}
STATS = {'queries': 0, 'fm': 0, 'model': 0}
MODELS = []             # recent solutions: what one of them satisfies is feasible
MAXMODELS = 24


def infeasible(facts, extra=()):
    """facts, extra: iterables of ('le',Lin) / ('eq',Lin) / ('ne',Lin).  True if contradictory."""
    key = (facts, extra)
    r = _cache.get(key)
    if r is None:
        STATS['queries'] += 1
        r = _infeasible(facts, extra)
        if len(_cache) > 400000:
            _cache.clear()
        _cache[key] = r
    return r


def _infeasible(facts, extra):
    # trivial cases
    goal = set()
    for k, e in extra:
        if not e.t:
            if k == 'le' and e.c > 0 or k == 'eq' and e.c != 0 or k == 'ne' and e.c == 0:
                return True
        else:
            lo, hi = _bounds_fast(e)
            if k == 'le' and lo > 0 or k == 'eq' and (lo > 0 or hi < 0):
                return True
            for v, _ in e.t:
                goal.add(v)
    # cone of influence
    allc = list(extra) + list(facts)
    if extra:
        if not goal:
            return False
        changed = True
        cone = []
        rest = list(facts)
        while changed:
            changed = False
            nrest = []
            for c in rest:
                if any(v in goal for v, _ in c[1].t):
                    cone.append(c)
                    for v, _ in c[1].t:
                        if v not in goal:
                            goal.add(v)
                            changed = True
                else:
                    nrest.append(c)
            rest = nrest
        allc = list(extra) + cone
    for i, val in enumerate(MODELS):
        for c in allc:
            if not holds(val, c):
                break
        else:
            if i:
                MODELS.insert(0, MODELS.pop(i))
            STATS['model'] += 1
            return False
    les = [e for k, e in allc if k == 'le']
    eqs = [e for k, e in allc if k == 'eq']
    nes = [e for k, e in allc if k == 'ne']
    syms = set()
    for e in les + eqs + nes:
        for v, _ in e.t:
            syms.add(v)
    big = any(abs(e.c) >= BIG for e in les + eqs + nes)
    bl = [Lin(Sym.lo[v], ((v, -1),)) for v in syms]
    bh = [Lin(-Sym.hi[v], ((v, 1),)) for v in syms if big or Sym.hi[v] < BIG]
    STATS['fm'] += 1
    base = les + bl + bh
    got = []
    if _fm(base, eqs, out=got):
        return True
    val = got[0] if got else None
    if val is not None:
        if all(Sym.lo[v] <= x <= Sym.hi[v] for v, x in val.items()):
            MODELS.insert(0, val)
            del MODELS[MAXMODELS:]
            if all(holds(val, c) for c in allc):
                return False
    # disequalities: strengthen when one side is closed
    todo = list(nes)
    prog = True
    while todo and prog:
        prog = False
        for e in list(todo):
            ge = _fm(base + [e + K(1)], eqs)       # e <= -1 impossible  => e >= 0
            le = _fm(base + [K(1) - e], eqs)       # e >= 1 impossible   => e <= 0
            if ge and le:
                return True
            if ge:
                base = base + [K(1) - e]
            elif le:
                base = base + [e + K(1)]
            else:
                continue
            todo.remove(e)
            prog = True
    return False
