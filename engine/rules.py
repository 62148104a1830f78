"""Which analyses decide which property."""
from core import *
import spec
import world
import families
import plain
import access
import content
import corner
import done
import drivers
import wire
import objects
import items
import sizes

TRUSTED = ['rustc nightly (type checking, MIR construction)', 'driver/driver.rs (MIR to JSON)',
           'engine/ (abstract interpreter and Fourier-Motzkin entailment)',
           'engine/natives.py (semantics of the std and trackable functions used)']
ASSUMPTIONS = [
    'components passed to combinators obey the documented codec protocol (the very rules checked here for the codecs of this crate)',
    'AsRef/AsMut of a byte container denote the same stable memory on every call; usize has 64 bits',
    'an encoder handed to repeat() has no work left, and components are not driven behind the combinator\'s back',
]

GENERIC = {
    'count-bound': ('C01',), 'count-exact': ('C01',), 'win-contig': ('C01',),
    'leaf-progress': ('C02',), 'leaf-remaining': ('C02',), 'item-position': ('C02',), 'leaf-complete': ('C02',),
    'idle-noop': ('C03',), 'idle-stays': ('C03',),
    'greedy': ('C04',),
    'leaf-eos': ('C05',), 'eos-kind': ('C05',), 'eos-truncated': ('C05',), 'eos-told': ('C05',),
    'eos-relay': ('C06',),
    'finish-complete': ('C07',), 'finish-yields': ('C07',), 'finish-kind': ('C07',), 'finish-ready': ('C07',),
    'finish-reset': ('C08',), 'rejected-clean': ('C30',), 'early-undisturbed': ('C29',),
    'busy-refused': ('C09',), 'busy-undisturbed': ('C09',), 'busy-kind': ('C09',), 'idle-accepts': ('C09',), 'start-ready': ('C09',),
    'exact-agrees': ('C10',), 'exact-step': ('C10',), 'exact-idle': ('C10',), 'idle-requires-none': ('C10',), 'start-size': ('C10', 'C02'), 'size-sum': ('C10',),
    'error-swallowed': ('C14',), 'error-relayed': ('C14',), 'error-stops': ('C14',), 'error-kind': ('C14',), 'error-origin': ('C14',),
    'requires-relay': ('C23',), 'idle-relay': ('C23',), 'exact-relay': ('C23',), 'requires-none': ('C23',), 'lower-bound': ('C23',), 'requires-step': ('C23',),
    'omit-nothing': ('C27',), 'omit-not': ('C27',), 'setting-kept': ('C27',), 'none-started': ('C27',), 'some-started': ('C27',),
    'peek-shows': ('C27',), 'peek-yields': ('C27',), 'peek-gone': ('C27',), 'peek-held': ('C27', 'C07'), 'passes-all': ('C27',), 'passes-end': ('C27',),
    'end-hidden': ('C27',), 'end-shown': ('C27',),
    'end-only': ('C24',), 'end-whole': ('C24',), 'end-complete': ('C24',), 'count-idle': ('C24',), 'count-step': ('C24',), 'count-kept': ('C24',),
    'repeat-done': ('C24',), 'parts-idle': ('C24',), 'padding-byte': ('C24',),
    'content-checked': ('C25',), 'content-accepted': ('C25',), 'content-kind': ('C25',), 'foreign-kind': ('C25',), 'foreign-kept': ('C25',), 'error-mapped': ('C25',),
    'set-get': ('C28',), 'set-only': ('C28',),
    'delegates': ('C22',), 'item-kept': ('C22',), 'pre-encoded': ('C22',),
}
# properties about one family of codecs: every rule on that family counts
FAMILY = {
    'Length': 'C11', 'MaxBytes': 'C12', 'Slice': 'C13',
    'Omittable': 'C27', 'Optional': 'C27', 'Peekable': 'C27', 'MaybeEos': 'C27',
}
# rules of one family that also witness a property of all codecs
ALSO = {
    'length-eos': ('C06',), 'length-truncated': ('C05',), 'length-reset': ('C08',), 'max-reset': ('C08',),
}
# methods whose harness produces a property's obligations (None: all)
METHODS = {
    'C01': ('decode', 'encode'), 'C02': ('decode', 'encode', 'start'), 'C03': ('decode', 'encode'), 'C04': ('decode', 'encode'),
    'C05': ('decode', 'encode'), 'C06': ('decode', 'encode'),
    'C07': ('finish', 'decode'), 'C08': ('finish',), 'C29': ('finish',), 'C30': ('start',), 'C09': ('start', 'encode'), 'C10': ('exact', 'requiring', 'start'),
}
# kinds of tasks that look at a codec as a whole
WHOLE = {'sizes': sizes.run, 'sets': access.setters, 'corner': corner.run, 'done': done.run, 'content': content.run}
DEPTHS = (1, 2, 3)          # successive bounds on the histories searched to confirm a failure
LEVEL = {}
RULETEXT = {}


def short(c):
    return (c.adt or c.name).split('::')[-1]


def tasks(w, prop):
    panics = prop == 'C21'                  # every analysis contributes to the absence of panics
    out = [('fn', name) for name, x in plain.FNS.items() if x[0] == prop or panics or prop == 'C14' and x[0] == 'C18']
    out += [('obj', name) for name in objects.OBJ if objects.witnesses(name, prop) or panics]
    meths = METHODS.get(prop)
    fam = prop in FAMILY.values()
    generic = any(prop in v for v in GENERIC.values())
    for key, c in w.codecs.items():
        if fam and FAMILY.get(short(c)) != prop:
            continue
        if prop in ('C27', 'C07'):
            if short(c) in corner.KINDS and (prop == 'C27' or short(c) == 'Peekable'):
                out.append(('corner', key, 'corner'))
        if prop == 'C24':
            if done.applies(w, c):
                out.append(('done', key, 'done'))
            continue
        if prop == 'C25':
            if short(c) in content.KINDS:
                out.append(('content', key, 'content'))
            continue
        if prop == 'C28':
            if access.set_pairs(w, c.adt):
                out.append(('sets', key, 'sets'))
            continue
        if prop == 'C23':
            out.append(('sizes', key, 'sizes'))
            continue
        if not fam and not generic and not panics:
            continue
        for mn in c.m:
            if meths and mn not in meths:
                continue
            if mn in ('is_idle',):
                continue
            out.append(('codec', key, mn))
        if (fam or panics) and short(c) in families.SETTERS:
            out.append(('setters', key, short(c)))
    return out


def cost(t):
    if t[0] == 'codec':
        n = 1.0
        name = str(t[1])
        n += name.count(',') ** 3 * (4 if t[2] == 'exact' else 1 if t[2] in ('decode', 'encode') else 0.2)
        n += 200 if 'onolithic' in name or 'Json' in name or 'Bincode' in name else 0
        return n
    return 150


def props_of(w, t, k):
    if k[0] == 'PANIC':
        out = ('C21',)
    elif t[0] == 'fn':
        out = (plain.FNS[t[1]][0],) + (('C14',) if k[1].endswith(('-swallowed', '-error')) else ())
    elif t[0] == 'obj':
        out = objects.rule_props(t[1], k[1])
    else:
        out = GENERIC.get(k[1], ()) or ALSO.get(k[1], ())
    if t[0] in ('codec', 'setters') + tuple(WHOLE):
        f = FAMILY.get(short(w.codecs[t[1]]))
        if f and k[0] != 'PANIC':
            out = tuple(out) + (f,)
    return out


def need_types(w, ts):
    out = [w.codecs[t[1]].ty for t in ts if t[0] in ('codec', 'setters') + tuple(WHOLE)]
    for t in ts:
        if t[0] == 'obj':
            out.append(objects.rep_type(w, objects.OBJ[t[1]][1]))
    return out


def run_task(w, t, o):
    mode = t[-1]
    if t[0] == 'codec':
        c = w.codecs[t[1]]
        reach = mode.startswith('reach')
        sp = spec.CodecSpec(w, c, unroll=3 if reach else None, init='reach' if reach else mode, want={t[2]},
                            depth=int(mode[5:]) if reach else 2)
        sp.run()
        take(o, sp)
    elif t[0] in WHOLE:
        c = w.codecs[t[1]]
        reach = mode.startswith('reach')
        sp = spec.CodecSpec(w, c, unroll=3 if reach else None, init='reach' if reach else mode, want=set(),
                            depth=int(mode[5:]) if reach else 2)
        sp.anyset = t[0] in ('done', 'sets')
        WHOLE[t[0]](sp)
        take(o, sp)
    elif t[0] == 'fn':
        p = plain.Plain(w, int(mode[5:]) if mode.startswith('reach') else None)
        plain.FNS[t[1]][1](p)
        take(o, p)
    elif t[0] == 'obj':
        p = objects.Obj(w, objects.OBJ[t[1]][1], mode)
        objects.OBJ[t[1]][2](p)
        take(o, p)
    elif t[0] == 'setters':
        c = w.codecs[t[1]]
        reach = mode.startswith('reach')
        sp = spec.CodecSpec(w, c, unroll=3 if reach else None, init='reach' if reach else mode, want=set(),
                            depth=int(mode[5:]) if reach else 2)
        families.SETTERS[t[2]](sp)
        take(o, sp)


def add_recs(o, recs):
    for k, r in recs.items():
        q = o.recs.get(k)
        if q is None:
            o.recs[k] = r
        else:
            q.proved += r.proved
            q.failed += r.failed
            q.undecided += r.undecided
    for k, r in o.recs.items():
        # failures on exact paths first
        r.failed = sorted(r.failed, key=lambda d: bool(d['approx']))[:12]
        r.undecided = r.undecided[:12]


def take(o, sp):
    add_recs(o, sp.recs)
    o.errors += sp.errors
    o.paths += sp.paths
    o.fns |= sp.fns
