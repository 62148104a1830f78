"""The program's codecs, their methods, and inferred class invariants."""
from core import *
import machine
import natives

DEC = ('decode::Decode', 'decode::TaggedDecode', 'decode::TryTaggedDecode')
ENC = ('encode::Encode', 'encode::SizedEncode')
MNAMES = {
    ('decode::Decode', 'decode'): 'decode', ('decode::Decode', 'finish_decoding'): 'finish',
    ('decode::Decode', 'requiring_bytes'): 'requiring', ('decode::Decode', 'is_idle'): 'is_idle',
    ('encode::Encode', 'encode'): 'encode', ('encode::Encode', 'start_encoding'): 'start',
    ('encode::Encode', 'requiring_bytes'): 'requiring', ('encode::Encode', 'is_idle'): 'is_idle',
    ('encode::SizedEncode', 'exact_requiring_bytes'): 'exact',
    ('decode::TaggedDecode', 'start_decoding'): 'tag', ('decode::TryTaggedDecode', 'try_start_decoding'): 'trytag',
}


class Codec:
    def __init__(self, world, role, self_ty):
        self.w = world
        self.role = role
        self.ty = self_ty
        t = world.P.ty(self_ty)
        self.name = t['s']
        self.adt = t.get('path') if t['k'] == 'adt' else None
        self.m = {}

    def __repr__(self):
        return '%s[%s]' % (self.name, self.role)


# combinators that must be given an encoder without work
IDLE_NEEDED = {'Repeat'}


def busy_ok(path):
    return path.split('::')[-1] not in IDLE_NEEDED


def callees(bl):
    """paths of the functions a block calls or mentions"""
    out = []

    def walk(x):
        if isinstance(x, dict):
            if 'rpath' in x:
                out.append(x['rpath'] or x['path'])
                out.append(x['path'])
            for y in x.values():
                walk(y)
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
    walk(bl)
    return out


class World:
    def __init__(self, P, log=None):
        self.P = P
        self.log = log or (lambda *a: None)
        self.codecs = {}
        self.fnbody = {}
        self.made = None       # machines created while a failure is looked for
        self.inv = {}          # (adt path, role) -> list of Fact
        self.index()

    # -------------------------------------------------------------- index
    def index(self):
        P = self.P
        self.defaults = {}
        for f in P.fns:
            b = P.bodies.get(f['key'])
            if b is None:
                continue
            self.fnbody.setdefault(f['path'], b)
            if f['pk'] == 'trait' or f['self'] is None and f['trait'] in [x[0] for x in MNAMES]:
                mn = MNAMES.get((f['trait'] or '', f['name']))
                if mn:
                    self.defaults[(f['trait'], mn)] = b
        for i in P.D['impls']:
            tr = i.get('trait')
            if tr in DEC or tr in ENC:
                role = 'dec' if tr in DEC else 'enc'
                c = self.codecs.get((role, i['self']))
                if c is None:
                    c = self.codecs[(role, i['self'])] = Codec(self, role, i['self'])
        for f in P.fns:
            mn = MNAMES.get((f['trait'] or '', f['name']))
            if mn and f['self'] is not None and f['pk'] != 'trait':
                role = 'dec' if f['trait'] in DEC else 'enc'
                c = self.codecs.get((role, f['self']))
                b = P.bodies.get(f['key'])
                if c is not None and b is not None:
                    c.m[mn] = b
        for c in self.codecs.values():
            tr = 'decode::Decode' if c.role == 'dec' else 'encode::Encode'
            for mn in ('is_idle', 'requiring'):
                if mn not in c.m and (tr, mn) in self.defaults:
                    c.m[mn] = self.defaults[(tr, mn)]
        self.by_adt = {}
        for c in self.codecs.values():
            if c.adt:
                self.by_adt.setdefault((c.role, c.adt), []).append(c)

    def body(self, *pats):
        """the unique root body whose path contains all patterns"""
        r = [b for p, b in self.fnbody.items() if all(x in p for x in pats)]
        return r[0] if len(r) == 1 else None

    def codec(self, role, name):
        """codec whose type's last path segment (before generics) is `name`"""
        for c in self.codecs.values():
            if c.role == role and c.adt and c.adt.split('::')[-1] == name:
                return c
        return None

    def machine(self, monitor=None, unroll=None, budget=60000):
        m = machine.Machine(self.P, monitor, unroll, budget)
        if self.made is not None:
            self.made.append(m)
        m.world = self
        return m

    # -------------------------------------------------------------- leaves
    def leaves(self, ty, depth=0):
        """[(path, kind, guards)] of a value of type ty; kinds int,len,bool,opt,enum,comp"""
        P = self.P
        t = P.ty(ty)
        k = t['k']
        if depth > 5:
            return []
        if k == 'int':
            return [((), 'int', ())]
        if k == 'bool':
            return [((), 'bool', ())]
        if k in ('param', 'alias', 'dyn'):
            return [((), 'comp', ()), ((('#len',),), 'len', ())]
        if k == 'array':
            return [((('#len',),), 'len', ())]
        if k in ('slice', 'str'):
            return [((('#len',),), 'len', ())]
        if k == 'tuple':
            out = []
            for i, e in enumerate(t['elems']):
                out += [(((('f', i),) + p), kk, g) for p, kk, g in self.pre(self.leaves(e, depth + 1), ('f', i))]
            return out
        if k == 'adt':
            p = t['path']
            if p in ('std::vec::Vec', 'std::string::String'):
                return [((('#len',),), 'len', ())]
            if p in ('std::marker::PhantomData',) or p.startswith('std::boxed') or p.startswith('std::pin'):
                return []
            a = P.adts.get(p)
            if a is None:
                return []
            if a['kind'] == 'enum':
                out = [((), 'opt', ())]
                if len(a['variants']) <= 4:
                    for vi, fs in enumerate(t['vfields']):
                        for fi, ft in enumerate(fs):
                            for lp, kk, g in self.leaves(ft, depth + 1):
                                el = ('v', vi, fi)
                                out.append(((el,) + lp, kk, (((), vi),) + tuple(((el,) + gp, gk) for gp, gk in g)))
                return out
            out = []
            for fi, ft in enumerate(t['vfields'][0] if t['vfields'] else []):
                el = ('f', fi)
                for lp, kk, g in self.leaves(ft, depth + 1):
                    out.append(((el,) + lp, kk, tuple(((el,) + gp, gk) for gp, gk in g)))
            return out
        return []

    @staticmethod
    def pre(ls, el):
        return [(p, k, tuple(((el,) + gp, gk) for gp, gk in g)) for p, k, g in ls]

    def nested(self, ty, path=(), guards=(), depth=0, top=True):
        """[(path, guards, adt path, type)] of local data types stored by value inside ty"""
        P = self.P
        t = P.ty(ty)
        out = []
        if depth > 5:
            return out
        if t['k'] == 'tuple':
            for i, e in enumerate(t['elems']):
                out += self.nested(e, path + (('f', i),), guards, depth + 1, False)
        elif t['k'] == 'adt':
            a = P.adts.get(t['path'])
            if a is None:
                return out
            if not top and a.get('local', not t['path'].startswith(('std::', 'core::', 'tokio', 'trackable'))):
                out.append((path, guards, t['path'], ty))
            if a['kind'] == 'struct':
                for fi, ft in enumerate(t['vfields'][0] if t['vfields'] else []):
                    out += self.nested(ft, path + (('f', fi),), guards, depth + 1, False)
            elif len(a['variants']) <= 4:
                for vi, fs in enumerate(t['vfields']):
                    for fi, ft in enumerate(fs):
                        out += self.nested(ft, path + (('v', vi, fi),), guards + ((path, vi),), depth + 1, False)
        return out

    # -------------------------------------------------------------- class invariants
    def class_methods(self):
        """(adt, role) -> (constructors, mutators): bodies with the positions of the class's values"""
        P = self.P
        classes = {}
        roles = {}
        for c in self.codecs.values():
            if c.adt:
                roles.setdefault(c.adt, set()).add(c.role)
        local = [p for p, a in P.adts.items() if a.get('local', False)]
        for p in local:
            if P.adts[p]['kind'] != 'struct':
                continue
            for r in roles.get(p, {''}):
                classes[(p, r)] = ([], [])
        for f in P.fns:
            b = P.bodies.get(f['key'])
            if b is None or 'fmt::Debug' in f['path']:
                continue
            tr = f['trait'] or ''
            frole = 'dec' if tr in DEC else 'enc' if tr in ENC else None
            muts = []
            for i in range(b['args']):
                t = P.ty(b['locals'][i + 1][0])
                if t['k'] == 'adt' and t['path'] == 'std::pin::Pin' and t['args']:
                    t = P.ty(t['args'][0])
                if t['k'] == 'ref' and t.get('mut'):
                    t2 = P.ty(t['to'])
                    if t2['k'] == 'adt' and t2['path'] in P.adts:
                        muts.append((i, t2['path'], t['to']))
            rt = b['locals'][0][0]
            rets = []
            t = P.ty(rt)
            if t['k'] == 'adt':
                rets.append((t['path'], rt, None))
                if t['path'] in ('std::result::Result', 'std::option::Option') and t['args']:
                    k = 0 if t['path'].endswith('Result') else 1
                    t3 = P.ty(t['args'][0])
                    if t3['k'] == 'adt':
                        rets.append((t3['path'], t['args'][0], k))
            for (p, r), (ct, mu) in classes.items():
                for i, mp, mty in muts:
                    if mp == p and (frole is None or r == '' or frole == r):
                        mu.append((b, i, mty))
                for rp, rty, k in rets:
                    if rp == p:
                        ct.append((b, k, rty))
        # private helpers are judged as part of the operations that call them
        self.hidden = set()
        private = {f['path'] for f in P.fns if not f['pub'] and not f['trait']}
        callers = {}
        for b in P.D['bodies']:
            who = b['path'].split('::{closure')[0]
            for bl in b['blocks']:
                for c in callees(bl):
                    callers.setdefault(c, set()).add(who)
        for key, (ct, mu) in classes.items():
            members = {b['path'] for b, _, _ in ct} | {b['path'] for b, _, _ in mu}
            for other, (ct2, mu2) in classes.items():
                if other[0] == key[0]:
                    members |= {b['path'] for b, _, _ in ct2} | {b['path'] for b, _, _ in mu2}
            hide = set()
            for x in members & private:
                cs = callers.get(x, set()) - {x}
                if cs and cs <= members:
                    hide.add(x)
            roots = members - hide
            seen = set(roots)               # helpers reached from the operations that remain
            todo = True
            while todo:
                todo = {x for x in hide - seen if callers[x] & seen}
                seen |= todo
            hide &= seen
            if any(b['path'] not in hide for b, _, _ in ct):
                self.hidden |= hide
            if any(b['path'] not in hide for b, _, _ in mu):
                mu[:] = [x for x in mu if x[0]['path'] not in hide]
        return classes

    def facts_for(self, adt, role, tys):
        """candidate facts of a class; tys: one representative type id"""
        ls = self.leaves(tys)
        ints = [l for l in ls if l[1] == 'int']
        lens = [l for l in ls if l[1] == 'len']
        lits = []
        comps = [l for l in ls if l[1] == 'comp']
        for l in ls:
            if l[1] == 'bool':
                lits += [('b', l[0], True, l[2]), ('b', l[0], False, l[2])]
            elif l[1] == 'opt':
                lits += [('o', l[0], 0, l[2]), ('o', l[0], 1, l[2])]
        clits = []
        if role:
            for l in comps:
                clits += [('i', l[0], True, l[2]), ('i', l[0], False, l[2])]
        out = []
        for a in ints:
            for b in ints + lens:
                if a != b:
                    out.append(('le', a, b))
                    if b in lens or ints.index(a) < ints.index(b):
                        out.append(('eq', a, b))
            for b in ints:
                if ints.index(a) < ints.index(b):
                    out.append(('eqz', a, b))
        for i, a in enumerate(ints):
            for b in ints[i + 1:]:
                for c in ints + lens:
                    if c != a and c != b:
                        out.append(('sle', a, b, c))
        for x in lits + clits:
            for a in ints + lens:
                out.append(('litz', x, a))
        for x in lits:
            if x[0] == 'b':
                out += [('litlt', x, None, a) for a in ints] + [('litlt', x, a, b) for a in ints for b in ints if a != b]
        if len(lits) + len(clits) <= 14:
            for x in lits + clits:
                for y in lits + clits:
                    if x[0] == 'i' and y[0] == 'i':
                        continue
                    if x[:2] != y[:2]:
                        out.append(('imp', x, y))
        return out

    def val(self, m, s, root, base, path):
        p = base + path
        try:
            if path and path[-1][0] == '#len':
                v = m.read(s, root, p[:-1])
                return m.len_of(v)
            return m.read(s, root, p)
        except GIVEUP:
            return None

    def guardf(self, m, s, root, base, guards):
        f = True
        for gp, k in guards:
            try:
                v = m.read(s, root, base + gp)
            except GIVEUP:
                return False
            f = AND(f, m.is_variant(v, k))
            if f is False:
                return False
        return f

    def litf(self, m, s, root, base, x):
        g = self.guardf(m, s, root, base, x[3])
        if g is False:
            return None
        v = self.val(m, s, root, base, x[1])
        if v is None:
            return None
        if x[0] == 'b':
            f = m.as_bool(v)
            f = f if x[2] else NOT(f)
        elif x[0] == 'o':
            f = m.is_variant(v, x[2])
        else:
            if not isinstance(v, Opq):
                return None
            f = ('p', ('idle', v.term))
            f = f if x[2] else NOT(f)
        return g, f

    def fact_formula(self, m, s, root, base, fact):
        k = fact[0]
        if k in ('le', 'eq', 'eqz'):
            a, b = fact[1], fact[2]
            g = AND(self.guardf(m, s, root, base, a[2]), self.guardf(m, s, root, base, b[2]))
            if g is False:
                return True
            va = self.val(m, s, root, base, a[0])
            vb = self.val(m, s, root, base, b[0])
            if not isinstance(va, Lin) or not isinstance(vb, Lin):
                return None
            if k == 'le':
                return IMP(g, LE(va, vb))
            if k == 'eq':
                return IMP(g, EQ(va, vb))
            return IMP(g, OR(NE(va, vb), EQ(va, K(0))))
        if k == 'sle':
            g, vs = True, []
            for l in fact[1:]:
                g = AND(g, self.guardf(m, s, root, base, l[2]))
                vs.append(self.val(m, s, root, base, l[0]) if g is not False else None)
            if g is False:
                return True
            if not all(isinstance(v, Lin) for v in vs):
                return None
            return IMP(g, LE(vs[0] + vs[1], vs[2]))
        if k == 'litlt':
            r = self.litf(m, s, root, base, fact[1])
            if r is None:
                return True
            g, vs = AND(r[0], r[1]), [K(0), None]
            for i, l in enumerate(fact[2:]):
                if l is None:
                    continue
                g = AND(g, self.guardf(m, s, root, base, l[2]))
                vs[i] = self.val(m, s, root, base, l[0]) if g is not False else None
            if g is False:
                return True
            if not all(isinstance(v, Lin) for v in vs):
                return None
            return IMP(g, LT(vs[0], vs[1]))
        if k == 'litz':
            r = self.litf(m, s, root, base, fact[1])
            if r is None:
                return True
            a = fact[2]
            g = AND(AND(r[0], r[1]), self.guardf(m, s, root, base, a[2]))
            if g is False:
                return True
            va = self.val(m, s, root, base, a[0])
            if not isinstance(va, Lin):
                return None
            return IMP(g, EQ(va, K(0)))
        if k == 'imp':
            r = self.litf(m, s, root, base, fact[1])
            q = self.litf(m, s, root, base, fact[2])
            if r is None or q is None:
                return True
            return IMP(AND(AND(r[0], r[1]), q[0]), q[1])
        raise KeyError(k)

    def assume_inv(self, m, s, root, base, ty, role, skip_top=False):
        """states of s in which the class invariants of the value at root/base hold"""
        states = [s]
        t = self.P.ty(ty)
        todo = []
        if t['k'] == 'adt' and not skip_top:
            todo.append((base, (), t['path']))
        for p, g, ap, nty in self.nested(ty):
            todo.append((base + p, tuple((base + gp, gk) for gp, gk in g), ap))
        for b, g, ap in todo:
            facts = []
            for r in (role, 'dec', 'enc', ''):
                if (ap, r) in self.inv:
                    facts = self.inv[(ap, r)]
                    break
            for fct in facts:
                ns = []
                for st in states:
                    f = self.fact_formula(m, st, root, b, fct)
                    gf = self.guardf(m, st, root, (), g)
                    f = True if f is None else IMP(gf, f)
                    ns.extend(assume(st, f))
                states = ns
        return states

    def closure_of(self, tys):
        """local ADTs mentioned in the layout of the given types"""
        P = self.P
        seen, out, todo = set(), set(), list(tys)
        while todo:
            i = todo.pop()
            if i is None or i in seen:
                continue
            seen.add(i)
            t = P.ty(i)
            if t['k'] in ('ref', 'ptr'):
                todo.append(t['to'])
            elif t['k'] == 'tuple':
                todo += t['elems']
            elif t['k'] == 'adt':
                if t['path'] in P.adts and P.adts[t['path']].get('local'):
                    out.add(t['path'])
                for fs in t.get('vfields') or []:
                    todo += fs
                todo += [a for a in t.get('args', ()) if isinstance(a, int)]
        return out

    def need(self, tys):
        """infer the invariants of the classes the given types consist of"""
        if tys is None:
            return self.infer()
        return self.infer(self.closure_of(tys))

    def exposed(self, key, ty):
        """paths inside a value of the class that its methods hand out mutably"""
        out = set()
        for b in self.P.bodies.values():
            if b['args'] < 1 or b['key'].split('|')[0] != b['key'].split('|')[2]:
                continue
            rt = self.P.ty(b['locals'][0][0])
            if rt['k'] == 'adt' and rt.get('args') and rt['path'] in ('std::option::Option', 'std::pin::Pin'):
                rt = self.P.ty(rt['args'][0])
            if rt['k'] != 'ref' or not rt.get('mut'):
                continue
            t = self.P.ty(b['locals'][1][0])
            if t['k'] != 'ref':
                continue
            t = self.P.ty(t['to'])
            if t['k'] != 'adt' or t['path'] != key[0]:
                continue
            m = self.machine()
            m.silent += 1
            try:
                outs = self.run_fn(m, b, key[1])
            except GIVEUP:
                out.add(())
                continue
            for st, v, args in outs:
                if isinstance(v, Enum) and v.f:
                    v = v.f[0]
                if isinstance(v, Agg) and len(v.f) == 1:
                    v = v.f[0]
                a = args[0]
                if isinstance(v, Ref) and isinstance(a, Ref) and v.root == a.root:
                    out.add(v.path[len(a.path):])
        return out

    def fact_paths(self, f):
        out = []

        def walk(x):
            if isinstance(x, tuple):
                if len(x) == 3 and isinstance(x[0], tuple) and x[1] in ('int', 'len'):
                    out.append((x[0], x[1]))
                    return
                if len(x) == 4 and x[0] in ('b', 'o', 'i'):
                    out.append((x[1], x[0]))
                    return
                for y in x:
                    walk(y)
        walk(f[1:])
        return out

    def infer(self, only=None):
        P = self.P
        self.inv_notes = []
        cls = self.class_methods()
        if only is not None:
            cls = {k: v for k, v in cls.items() if k[0] in only}
        reps = {}
        for (p, r), (ct, mu) in cls.items():
            ty = None
            for c in self.by_adt.get((r, p), []):
                ty = c.ty
            if ty is None:
                for b, i, mty in mu:
                    ty = mty
                    break
            if ty is None and ct:
                ty = ct[0][2]
            if ty is None:
                continue
            reps[(p, r)] = ty
            tys = {mty for _, _, mty in mu}
            self.inv[(p, r)] = self.facts_for(p, r, ty) if len(self.by_adt.get((r, p), [])) <= 1 else []
            if self.inv[(p, r)]:
                keep = self.inv[(p, r)]
                self.inv[(p, r)] = []
                try:
                    ex = self.exposed((p, r), ty)
                except GIVEUP + (AssertionError,):
                    ex = {()}
                self.inv[(p, r)] = [f for f in keep if not any(
                    k in ('int', 'b', 'o') and fp[:len(e)] == e for fp, k in self.fact_paths(f) for e in ex)]
            if not self.built_only_by(p, {b['key'] for b, _, _ in ct}):
                self.inv[(p, r)] = []
        rounds = 0
        changed = True
        while changed and rounds < 40:
            changed = False
            rounds += 1
            for key, (ct, mu) in cls.items():
                if not self.inv.get(key):
                    continue
                bad = set()
                try:
                    for b, k, rty in ct:
                        bad |= self.check_ctor(key, b, k, [f for f in self.inv[key] if f not in bad])
                    for b, i, mty in mu:
                        bad |= self.check_mut(key, b, i, mty, [f for f in self.inv[key] if f not in bad])
                except GIVEUP + (AssertionError,):
                    bad = set(self.inv[key])
                if bad:
                    changed = True
                    self.inv[key] = [f for f in self.inv[key] if f not in bad]
        self.rounds = rounds
        if changed:
            for key in cls:
                self.inv[key] = []
        return self.inv

    def built_only_by(self, adt, keys):
        """every struct literal of the class occurs in a function checked as a constructor (or a closure of one)"""
        if not hasattr(self, '_built'):
            self._built = {}
            for b in self.P.bodies.values():
                for bl in b['blocks']:
                    for st in bl['s']:
                        if st[0] == '=' and st[2][0] == 'agg' and st[2][1][0] == 'adt':
                            self._built.setdefault(st[2][1][1], set()).add(b['key'])
        defs = {k.split('|')[-1] for k in keys}
        for k in self._built.get(adt, ()):
            if k.split('|')[-1] in defs:
                continue
            self.inv_notes.append((adt, 'also built by %s' % k))
            return False
        return True

    def run_fn(self, m, b, role, prep=None):
        """run a body with symbolic arguments satisfying their invariants; [(state, value, args)]"""
        s = State()
        args = []
        for i in range(b['args']):
            args.append(m.mk(b['locals'][i + 1][0], ('arg', i)))
        states = [s]
        P = self.P
        for i, a in enumerate(args):
            t = P.ty(b['locals'][i + 1][0])
            if t['k'] == 'adt' and t['path'] == 'std::pin::Pin' and t['args']:
                t = P.ty(t['args'][0])
            ns = []
            for st in states:
                if t['k'] == 'ref' and isinstance(a, Ref):
                    ns += self.assume_inv(m, st, a.root, a.path, t['to'], role)
                elif t['k'] in ('adt', 'tuple') and isinstance(a, (Opq, Agg)):
                    st = st.copy()
                    root = ('H', ('argv', i))
                    st.mem[root] = a
                    m.rty[root] = b['locals'][i + 1][0]
                    ns += self.assume_inv(m, st, root, (), b['locals'][i + 1][0], role)
                else:
                    ns.append(st)
            states = ns
        out = []
        for st in states:
            if prep:
                for st2 in prep(st, args):
                    out += [(x, v, args) for x, v in m.exec_body(b, args, st2)]
            else:
                out += [(x, v, args) for x, v in m.exec_body(b, args, st)]
        return out

    def check_ctor(self, key, b, k, facts):
        bad = set()
        m = self.machine()

        def prep(st, args):
            # encoders are handed over idle
            if key[1] != 'enc' or busy_ok(key[0]):
                return [st]
            sts = [st]
            for a in args:
                if isinstance(a, Opq) and self.P.ty(a.ty)['k'] in ('param', 'alias'):
                    sts = [y for x in sts for y in assume(x, ('p', ('idle', a.term)))]
                if isinstance(a, Agg):
                    for f in a.f:
                        if isinstance(f, Opq) and self.P.ty(f.ty)['k'] in ('param', 'alias'):
                            sts = [y for x in sts for y in assume(x, ('p', ('idle', f.term)))]
            return sts
        try:
            outs = self.run_fn(m, b, key[1], prep)
        except GIVEUP as e:
            self.inv_notes.append((b['path'], str(e)))
            return set(facts)
        for st, v, args in outs:
            if k is not None:
                if isinstance(v, Enum):
                    if v.k != k:
                        continue
                    v = v.f[0]
                else:
                    v = m.proj(v, ('v', k, 0))
            root = ('H', ('ret',))
            st = st.copy()
            st.mem[root] = v
            if key[1] == 'enc' and not busy_ok(key[0]):
                # components made by the type's own default are handed over idle as well
                sts = [st]
                for lp, kk, g in self.leaves(v.ty) if getattr(v, 'ty', None) is not None else []:
                    if kk == 'comp':
                        c = self.val(m, st, root, (), lp)
                        if isinstance(c, Opq):
                            sts = [y for x in sts for y in assume(x, ('p', ('idle', c.term)))]
            else:
                sts = [st]
            for st in sts:
                for f in facts:
                    if f in bad:
                        continue
                    try:
                        fm = self.fact_formula(m, st, root, (), f)
                    except GIVEUP:
                        fm = None
                    if fm is None or not entails(st, fm):
                        bad.add(f)
        return bad

    def check_mut(self, key, b, i, mty, facts):
        bad = set()
        m = self.machine()
        try:
            outs = self.run_fn(m, b, key[1])
        except GIVEUP as e:
            self.inv_notes.append((b['path'], str(e)))
            return set(facts)
        for st, v, args in outs:
            a = args[i]
            if not isinstance(a, Ref):
                continue
            for f in facts:
                if f in bad:
                    continue
                try:
                    fm = self.fact_formula(m, st, a.root, a.path, f)
                except GIVEUP:
                    fm = None
                if fm is None or not entails(st, fm):
                    bad.add(f)
        return bad


def _class_methods_cached(self):
    if not hasattr(self, '_cm'):
        self._cm = self.class_methods()
    return self._cm


World.class_methods_cached = _class_methods_cached


def _eos_rem(self, m, s, eos):
    """the byte count carried by an Eos value: [(state, ByteCount value)]"""
    b = self.fnbody.get('eos::Eos::remaining_bytes')
    if b is None:
        b = self.body('Eos::remaining_bytes')
    root = ('H', ('eosobs',))
    st = s.copy()
    st.mem[root] = eos
    m.rty[root] = eos.ty if hasattr(eos, 'ty') else None
    m.silent += 1
    try:
        outs = m.exec_body(b, [Ref(root)], st)
    finally:
        m.silent -= 1
    for x, v in outs:
        x.mem.pop(root, None)
    return outs


World.eos_rem = _eos_rem


def _codec_comps(self, c):
    """generic parameters of the codec's type that its methods call codec operations on"""
    key = (c.role, c.ty)
    if not hasattr(self, '_cc'):
        self._cc = {}
    if key in self._cc:
        return self._cc[key]
    names = set()
    seen = set()
    todo = [b for b in c.m.values()]
    trs = DEC + ENC + ('monolithic::MonolithicDecode', 'monolithic::MonolithicEncode')
    while todo:
        b = todo.pop()
        if b['key'] in seen:
            continue
        seen.add(b['key'])
        for k in b['blocks']:
            t = k['t']
            if t[0] == 'call' and t[1].get('kind') != 'indirect':
                cl = t[1]
                if cl.get('key') and cl['key'] in self.P.bodies and cl.get('local'):
                    todo.append(self.P.bodies[cl['key']])
                elif (cl.get('trait') or '') in trs:
                    names.add(cl.get('self'))
    self._cc[key] = names
    return names


World.codec_comps = _codec_comps


def _init_facts(self, c):
    """facts true of every freshly constructed value"""
    if not hasattr(self, '_if'):
        self._if = {}
    key = (c.adt, c.role)
    if key in self._if:
        return self._if[key]
    if c.adt is None or key not in self.class_methods_cached():
        self._if[key] = []
        return []
    ls = self.leaves(c.ty)
    facts = []
    ints = [l for l in ls if l[1] == 'int' and not l[2]]
    for l in ls:
        if l[2]:
            continue
        if l[1] == 'int':
            facts.append(('z', l))
        elif l[1] == 'bool':
            facts += [('lit', ('b', l[0], True, l[2])), ('lit', ('b', l[0], False, l[2]))]
        elif l[1] == 'opt':
            facts += [('lit', ('o', l[0], k, l[2])) for k in (0, 1)]
        elif l[1] == 'len':
            facts.append(('z', l))
    for i, a in enumerate(ints):
        for b in ints[i + 1:]:
            facts.append(('eq', a, b))
    for b, k, rty in self.class_methods_cached()[key][0]:
        if b['path'].endswith('::clone'):
            continue
        if not facts:
            break
        bad = self.check_ctor(key, b, k, facts)
        facts = [f for f in facts if f not in bad]
    self._if[key] = facts
    return facts


World.init_facts = _init_facts
_old_ff = World.fact_formula


def _ff(self, m, s, root, base, fact):
    if fact[0] == 'z':
        g = self.guardf(m, s, root, base, fact[1][2])
        v = self.val(m, s, root, base, fact[1][0])
        if not isinstance(v, Lin):
            return None
        return IMP(g, EQ(v, K(0)))
    if fact[0] == 'lit':
        r = self.litf(m, s, root, base, fact[1])
        return None if r is None else IMP(r[0], r[1])
    return _old_ff(self, m, s, root, base, fact)


World.fact_formula = _ff


def _setters(self, key):
    """public inherent methods of the class that change the value and return nothing"""
    out = []
    pub = {f['key']: f for f in self.P.fns}
    for b, i, mty in self.class_methods_cached()[key][1]:
        f = pub.get(b['key'])
        if i != 0 or f is None or f['trait'] or not f['pub'] or b['args'] > 3:
            continue
        rt = self.P.ty(b['locals'][0][0])
        unit = rt['k'] == 'tuple' and not rt['elems']
        res = rt['k'] == 'adt' and rt['path'] == 'std::result::Result' and self.P.ty(rt['args'][0])['k'] == 'tuple' and not self.P.ty(rt['args'][0])['elems']
        if not (unit or res):
            continue
        if any(self.P.ty(b['locals'][j + 1][0])['k'] not in ('int', 'bool', 'param', 'adt', 'float', 'char') for j in range(1, b['args'])):
            continue
        out.append(b)
    return out


World.setters = _setters
