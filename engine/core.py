"""Abstract interpreter over type-resolved MIR (see DESIGN.md, "Engine")."""
import json
import sys
from num import Lin, K, symbol, infeasible, norm_le, U64, ISIZE, Sym as NSym, tname

sys.setrecursionlimit(20000)

# ----------------------------------------------------------------------------- values


class V:
    __slots__ = ('h',)

    def key(self):
        raise NotImplementedError

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and self.h == o.h and self.key() == o.key())

    def __ne__(self, o):
        return not self == o


class Opq(V):
    """Symbolic value of a type, named by a term."""
    __slots__ = ('ty', 'term')

    def __init__(self, ty, term):
        self.ty = ty
        self.term = term
        self.h = hash(('O', term))

    def key(self):
        return self.term

    def __repr__(self):
        return '?%s' % tname(self.term)


class Agg(V):
    __slots__ = ('ty', 'f')

    def __init__(self, ty, f):
        self.ty = ty
        self.f = tuple(f)
        self.h = hash(('A', self.f))

    def key(self):
        return self.f

    def __repr__(self):
        return '{%s}' % ', '.join(map(repr, self.f))


class Enum(V):
    __slots__ = ('ty', 'k', 'f')

    def __init__(self, ty, k, f=()):
        self.ty = ty
        self.k = k
        self.f = tuple(f)
        self.h = hash(('E', k, self.f))

    def key(self):
        return (self.k, self.f)

    def __repr__(self):
        return '#%d(%s)' % (self.k, ', '.join(map(repr, self.f)))


class Ref(V):
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root = root
        self.path = path
        self.h = hash(('R', root, path))

    def key(self):
        return (self.root, self.path)

    def __repr__(self):
        return '&%s%s' % (tname(self.root), ''.join('.' + str(p[-1]) for p in self.path))


class SRef(V):
    """Fat reference to a run of elements of the container at (root, path)."""
    __slots__ = ('root', 'path', 'start', 'len')

    def __init__(self, root, path, start, len):
        self.root = root
        self.path = path
        self.start = start
        self.len = len
        self.h = hash(('SR', root, path, start, len))

    def key(self):
        return (self.root, self.path, self.start, self.len)

    def __repr__(self):
        return '&%s%s[%r;+%r]' % (tname(self.root), ''.join('.' + str(p[-1]) for p in self.path), self.start, self.len)


class Seq(V):
    """Container of elements (Vec, String, [T], str, long arrays): length and content token."""
    __slots__ = ('ty', 'len', 'term')

    def __init__(self, ty, len, term):
        self.ty = ty
        self.len = len
        self.term = term
        self.h = hash(('Q', len, term))

    def key(self):
        return (self.len, self.term)

    def __repr__(self):
        return 'Seq<%r;%s>' % (self.len, tname(self.term))


class Arr(V):
    __slots__ = ('ty', 'e')

    def __init__(self, ty, e):
        self.ty = ty
        self.e = tuple(e)
        self.h = hash(('Ar', self.e))

    def key(self):
        return self.e

    def __repr__(self):
        return '[%s]' % ', '.join(map(repr, self.e))


class Fn(V):
    __slots__ = ('callee',)

    def __init__(self, callee):
        self.callee = callee
        self.h = hash(('F', callee['path'], str(callee.get('key'))))

    def key(self):
        return (self.callee['path'], self.callee.get('key'), tuple(self.callee['targs']))

    def __repr__(self):
        return 'fn:' + self.callee['path']


class Discr(V):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v
        self.h = hash(('D', v))

    def key(self):
        return self.v

    def __repr__(self):
        return 'discr(%r)' % (self.v,)


class Iter(V):
    """Iterator over elements start..end of the container at (root, path); kind: ref/mut/val."""
    __slots__ = ('root', 'path', 'start', 'end', 'kind', 'extra')

    def __init__(self, root, path, start, end, kind, extra=None):
        self.root, self.path, self.start, self.end, self.kind, self.extra = root, path, start, end, kind, extra
        self.h = hash(('I', root, path, start, end, kind, extra))

    def key(self):
        return (self.root, self.path, self.start, self.end, self.kind, self.extra)

    def __repr__(self):
        return 'iter(%s,%r..%r)' % (tname(self.root), self.start, self.end)


UNIT = Agg(None, ())


def NOT(f):
    if f is True:
        return False
    if f is False:
        return True
    if f[0] == 'not':
        return f[1]
    if f[0] == 'eq':
        return ('ne', f[1])
    if f[0] == 'ne':
        return ('eq', f[1])
    if f[0] == 'le':
        return ('le', K(1) - f[1])
    if f[0] == 'and':
        return OR(NOT(f[1]), NOT(f[2]))
    if f[0] == 'or':
        return AND(NOT(f[1]), NOT(f[2]))
    return ('not', f)


def AND(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    if a == b:
        return a
    return ('and', a, b)


def OR(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    if a == b:
        return a
    return ('or', a, b)


def IMP(a, b):
    return OR(NOT(a), b)


def LE(a, b):
    e = norm_le(a - b)
    return e if isinstance(e, bool) else ('le', e)


def LT(a, b):
    return LE(a + K(1), b)


def EQ(a, b):
    e = a - b
    if not e.t:
        return e.c == 0
    if e.t[0][1] < 0:
        e = -e
    return ('eq', e)


def NE(a, b):
    return NOT(EQ(a, b))


# ----------------------------------------------------------------------------- state

class State:
    __slots__ = ('mem', 'facts', 'lits', 'vars', 'ghost', 'ev', 'taint', 'approx', 'trail')

    def __init__(self):
        self.mem = {}
        self.facts = ()
        self.lits = {}
        self.vars = {}
        self.ghost = {}
        self.ev = None
        self.taint = ()
        self.approx = ()
        self.trail = None

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = self.facts
        s.lits = self.lits
        s.vars = self.vars
        s.ghost = self.ghost
        s.ev = self.ev
        s.taint = self.taint
        s.approx = self.approx
        s.trail = self.trail
        return s

    def event(self, e):
        self.ev = (self.ev, e)
        n = self.ghost.get('fails')
        if n is not None and isinstance(e[-1], dict) and e[-1].get('err') is not None:
            self.setg('fails', n + K(1))        # unlike the events, the number survives a loop

    def events(self):
        out = []
        n = self.ev
        while n is not None:
            out.append(n[1])
            n = n[0]
        out.reverse()
        return out

    def g(self, k, d=None):
        return self.ghost.get(k, d)

    def setg(self, k, v):
        self.ghost = dict(self.ghost)
        self.ghost[k] = v

    def note(self, s):
        self.trail = (self.trail, s)

    def trail_list(self, n=30):
        out = []
        t = self.trail
        while t is not None and len(out) < n:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


class Blowup(Exception):
    pass


def add_fact(s, kind, e):
    """In place; returns False if contradictory."""
    if not e.t:
        return e.c <= 0 if kind == 'le' else e.c == 0 if kind == 'eq' else e.c != 0
    if kind == 'le':
        e = norm_le(e)
    c = (kind, e)
    if c in s.facts:
        return True
    if infeasible(s.facts, (c,)):
        return False
    if kind == 'ne':
        # one side is closed: an inequality says the same
        if infeasible(s.facts, (('le', norm_le(e + Lin(1))),)):
            c = ('le', norm_le(Lin(1) - e))
        elif infeasible(s.facts, (('le', norm_le(Lin(1) - e)),)):
            c = ('le', norm_le(e + Lin(1)))
    s.facts = s.facts + (c,)
    return True


def assume(s, f):
    """States refining s in which f holds (s itself is not modified)."""
    if f is True:
        return [s]
    if f is False:
        return []
    k = f[0]
    if k in ('le', 'eq', 'ne'):
        n = s.copy()
        return [n] if add_fact(n, k, f[1]) else []
    if k == 'p' or (k == 'not' and f[1][0] == 'p'):
        t = f[1] if k == 'p' else f[1][1]
        val = (k == 'p')
        cur = s.lits.get(t)
        if cur is not None:
            return [s] if cur == val else []
        n = s.copy()
        n.lits = dict(s.lits)
        n.lits[t] = val
        if t[0] == 'idle' and val:
            # trait contract: an idle codec requires no bytes
            if not add_fact(n, 'eq', symbol(('vf', ('req', t[1]), 0, 0))):
                return []
            if not add_fact(n, 'eq', symbol(('exact', t[1]))):
                return []
            for m in set_variant(n, ('req', t[1]), 0, 3, True):
                return [m]
            return []
        return [n]
    if k == 'var' or (k == 'not' and f[1][0] == 'var'):
        g = f if k == 'var' else f[1]
        return set_variant(s, g[1], g[2], g[3], k == 'var')
    if k == 'and':
        out = []
        for n in assume(s, f[1]):
            out.extend(assume(n, f[2]))
        return out
    if k == 'or':
        out = list(assume(s, f[1]))
        # disjoint cases
        for n in assume(s, NOT(f[1])):
            out.extend(assume(n, f[2]))
        return out
    if k == 'not':
        return assume(s, NOT(f[1]))
    raise Exception('assume %r' % (f,))


def set_variant(s, term, k, n, positive):
    cur = s.vars.get(term)
    if cur is None:
        cur = frozenset(range(n))
    new = cur & {k} if positive else cur - {k}
    if not new:
        return []
    if new == cur:
        return [s]
    m = s.copy()
    m.vars = dict(s.vars)
    m.vars[term] = new
    return [m]


def entails(s, f):
    if f is True:
        return True
    return not assume(s, NOT(f))


def feasible(s):
    return not infeasible(s.facts, ())


# ----------------------------------------------------------------------------- program

# what an analysis may run into on constructs it does not know: it then gives up on that part
GIVEUP = (KeyError, IndexError, AttributeError, TypeError, ValueError, RecursionError, AssertionError, Blowup)


class Program:
    def __init__(self, path):
        self.D = json.load(open(path))
        self.T = self.D['types']
        self.bodies = {}
        for b in self.D['bodies']:
            self.bodies[b['key']] = b
            self.prepare(b)
        self.fns = self.D['fns']
        self.adts = self.D['adts']
        self.bys = {}
        for t in self.T:
            self.bys.setdefault(t['s'], t['id'])

    def ty(self, i):
        return self.T[i]

    def find_ty(self, s):
        return self.bys.get(s)

    def prepare(self, b):
        # loop heads and natural loops of the non-cleanup CFG
        succ = {}
        for i, k in enumerate(b['blocks']):
            t = k['t']
            o = t[0]
            if k['cleanup']:
                succ[i] = []
                continue
            if o == 'goto':
                succ[i] = [t[1]]
            elif o == 'switch':
                succ[i] = [x[1] for x in t[2]] + [t[3]]
            elif o == 'drop':
                succ[i] = [t[2]]
            elif o == 'call':
                succ[i] = [] if t[4] is None else [t[4]]
            elif o == 'assert':
                succ[i] = [t[4]]
            else:
                succ[i] = []
        b['succ'] = succ
        # iterative DFS for back edges
        color = {}
        heads = {}
        stack = [(0, iter(succ.get(0, [])))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                if color.get(m, 0) == 0:
                    color[m] = 1
                    stack.append((m, iter(succ[m])))
                    break
                elif color[m] == 1:
                    heads.setdefault(m, []).append(n)
            else:
                color[n] = 2
                stack.pop()
        pred = {}
        for n, ss in succ.items():
            for m in ss:
                pred.setdefault(m, []).append(n)
        loops = {}
        for h, latches in heads.items():
            body = {h}
            todo = list(latches)
            while todo:
                n = todo.pop()
                if n in body:
                    continue
                body.add(n)
                todo.extend(p for p in pred.get(n, []) if p in color)
            loops[h] = body
        b['loops'] = loops


def adt_path(P, ty):
    t = P.ty(ty)
    return t.get('path') if t['k'] == 'adt' else None
