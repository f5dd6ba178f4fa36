"""C16: data and names keep integer keys and flat arrays; lookup is by key first."""
import re

import numpy as np

from .. import model
from ..core import Violation
from ..model import (Model, Op, Reject, Injected, BadMapping, check_step, alloc_step, compare, gen_op, new_pack, raising, mapping_form,
                     gen_data, gen_names, gen_keys, gen_column, as_form, bad_items, bad_key, bad_value, insert_at, none, runs,
                     KEYS, NAMES)
from ..cases import lib
from ..util import normarr, norm, brief
from . import common

ALLOC = True
RUNS = {'quick': 80000, 'thorough': 1200000}
RULE = ('A run draws a pack and a history of 2-16 operations on its data and names: item assignment, update and |= from mappings and one-shot '
        'iterables, keyword arguments, setdefault, fromkeys, construction, deletion, pop, attribute assignment; valid ones, ones with an invalid '
        'key or value at any position, iterables that raise half way, failing allocations. The items are compared with a plain dict after every '
        'operation, then every kind of channel reference is resolved and compared. Non-trivial: an operation was rejected; distinct by the hash '
        'of the history.')
REAL = common.REAL_PACK
STUB = common.STUB_PACK
ASSUME = ['the dict of the standard library is right', 'all columns are as long as the mask where a call is made']


def target(src):
    return src.pick(['data', 'names'])


def valid_items(src, which, n):
    if which == 'data':
        return {k: as_form(src, v) for k, v in gen_data(src, n=n, lo=0).items()}
    return gen_names(src, gen_keys(src))


def conv(which, v):
    return np.array(v) if which == 'data' else v


def get(m, which):
    return m.data if which == 'data' else m.names


def gen(src, m):
    which = target(src)
    n = len(m.mask) if m.data else src.size(0, 6)
    T = lambda p: getattr(p, which)
    k = src.draw(10)
    if k == 0:
        key = src.pick(KEYS)
        v = as_form(src, gen_column(src, n)) if which == 'data' else src.pick(NAMES)
        return Op(which + '[]=', lambda: lambda p: T(p).__setitem__(key, v), lambda m: get(m, which).__setitem__(key, conv(which, v)), repr(key))
    if k in (1, 2, 3):
        d = valid_items(src, which, n)
        form = mapping_form(src, d)

        def make():
            x = form()
            if k == 1:
                return lambda p: T(p).update(x)
            if k == 2:
                return lambda p: none(T(p).__ior__(x))

            def aug(p):
                t = T(p)
                t |= x
            return aug

        def step(m):
            for kk, v in d.items():
                get(m, which)[kk] = conv(which, v)
        return Op(which + ('.update' if k == 1 else '|='), make, step, 'keys %r' % (list(d),))
    if k == 4:
        key = src.pick(KEYS)
        v = as_form(src, gen_column(src, n)) if which == 'data' else src.pick(NAMES)
        return Op(which + '.setdefault', lambda: lambda p: none(T(p).setdefault(key, v)),
                  lambda m: none(get(m, which).setdefault(key, conv(which, v))), repr(key))
    if k == 5:
        d = valid_items(src, which, n if m.data else None)
        if which == 'data' and not d and m.data:
            d = {0: [1.0] * n}
        form = mapping_form(src, d)

        def make():
            x = form()
            C = type(None)
            return lambda p: setattr(p, which, x)

        def step(m):
            if which == 'data':
                m.set_data(d)
            else:
                m.names = dict(d)
        return Op(which + '=', make, step, 'keys %r' % (list(d),))
    if k == 6:
        cur = sorted(get(m, which))
        if which == 'data' and len(cur) < 2 or not cur:
            return gen(src, m)
        key = src.pick(cur)
        j = src.draw(2)

        def step(m):
            del get(m, which)[key]
        return Op(which + (' del' if j else '.pop'), lambda: (lambda p: T(p).__delitem__(key)) if j else (lambda p: none(T(p).pop(key))), step, repr(key))
    if k == 7:
        # the update of nothing
        return Op(which + '.update', lambda: lambda p: T(p).update(), lambda m: None, 'nothing')
    if k == 8:
        # the class itself, through assignment of an instance
        d = valid_items(src, which, n if m.data else None)
        if which == 'data' and not d and m.data:
            d = {0: [1.0] * n}
        form = mapping_form(src, d)

        def make():
            x = form()
            return lambda p: setattr(p, which, type(T(p))(x))

        def step(m):
            if which == 'data':
                m.set_data(d)
            else:
                m.names = dict(d)
        return Op(which + '=type()', make, step, 'keys %r' % (list(d),))
    keys = gen_keys(src, 1)
    v = [float(src.draw(9)) for _ in range(n)] if which == 'data' else src.pick(NAMES)

    def step(m):
        if which == 'data':
            m.set_data({kk: v for kk in keys})
        else:
            m.names = {kk: v for kk in keys}
    return Op(which + '.fromkeys', lambda: lambda p: setattr(p, which, type(T(p)).fromkeys(list(keys), v)), step, repr(keys))


def gen_bad(src, m):
    which = target(src)
    n = len(m.mask)
    T = lambda p: getattr(p, which)
    k = src.draw(9)
    good = [1.0] * n if which == 'data' else 'z'
    if k == 0:
        key = bad_key(src)
        return Op(which + '[]=', lambda: lambda p: T(p).__setitem__(key, good), Rej(TypeError), 'key %r' % (key,), True)
    if k == 1:
        key = bad_key(src)
        return Op(which + '.setdefault', lambda: lambda p: T(p).setdefault(key, good), Rej(TypeError), 'key %r' % (key,), True)
    if k == 2:
        # string keys by keyword
        return Op(which + '.update', lambda: lambda p: T(p).update({1: good}, a=good), Rej(TypeError), 'keyword', True)
    if k == 3 and which == 'data':
        v = bad_value(src)
        j = src.draw(2)
        key = 44
        return Op('data[]=' if j else 'data.setdefault', lambda: (lambda p: T(p).__setitem__(1, v)) if j else (lambda p: T(p).setdefault(key, v)),
                  Rej(), 'value %s' % brief(v, 40), True)
    if k == 4:
        x = src.pick([5, 'ab', [(1,)], [1, 2], [(1, good, 3)]])
        j = src.draw(2)
        return Op(which + ('.update' if j else '|='), lambda: (lambda p: T(p).update(x)) if j else (lambda p: T(p).__ior__(x)),
                  Rej(), 'not a mapping: %s' % brief(x, 40), True)
    if which == 'data':
        items = list(gen_data(src, n=n).items())
        arg, types, why = bad_items(src, items)
    else:
        items = list(gen_names(src, gen_keys(src, 1)).items())
        if src.chance(1, 2):
            at = src.draw(len(items) + 1)
            arg, types, why = (lambda: raising(items, at)), (Injected,), 'raises'
        else:
            xs = insert_at(src, items, (bad_key(src), 'z'))
            arg, types, why = mapping_form(src, dict(xs)), (TypeError,), 'bad key'

    def make():
        x = arg()
        if k == 5:
            return lambda p: T(p).update(x)
        if k == 6:
            return lambda p: T(p).__ior__(x)
        if k == 7:
            return lambda p: setattr(p, which, x)
        return lambda p: setattr(p, which, type(T(p))(x))
    return Op(which + ['.update', '|=', '=', '=type()'][k - 5], make, Rej(*types), why, True) if k >= 5 else gen_bad(src, m)


class Rej(object):
    def __init__(self, *types):
        self.types = types or (Exception,)

    def __call__(self, m):
        raise Reject(*self.types)


def refs(src, m):
    out = list(m.data) + [k for k in KEYS if k not in m.data]
    out += [v for v in m.names.values()] + NAMES[:9]
    out += [m.prefix + str(k) for k in (0, 1, 2, 3, 5, 10, 4)]
    out += ['nosuch', 'ch', '', m.prefix, 'x' + m.prefix + '0', ' ' + m.prefix + '0', m.prefix.upper() + '0']
    out += [m.prefix + str(k) + src.pick(['x', ' ', '.0', '\n', '_1', ' and more']) for k in (0, 1)]
    # strings that come close to a key, a name or a fallback string
    k = src.pick(sorted(m.data) or [0])
    out += [str(k), src.pick(['+%d', ' %d', '%d ', '%d.0', '0%d', '#%d', '[%d]']) % k, m.prefix[:-1] + str(k), m.prefix[1:] + str(k)]
    if k >= 0:
        out += [m.prefix + src.pick(['0', ' ', '+', '_', '-']) + str(k)]
    for nm in list(m.names.values())[:3]:
        if nm:
            out.append(src.pick([nm[:-1], nm[1:], nm.upper(), nm.lower(), nm.title(), nm + ' ', nm + nm, nm.split()[0] if nm.split() else nm,
                                 nm + str(k), m.prefix + nm]))
    return out


def gen_merge(src, m):
    """The statement pack.data |= ... (or names), which also assigns the attribute."""
    if src.chance(1, 3):
        d = gen_names(src, gen_keys(src, 0, 3))
        form = mapping_form(src, d)

        def make():
            x = form()

            def act(p):
                p.names |= x
            return act
        return Op('names |=', make, lambda m: m.names.update(d), repr(d))
    n = len(m.mask) if m.data else src.size(0, 6)
    d = gen_data(src, n=n, lo=0)
    form = mapping_form(src, d)

    def make():
        x = form()

        def act(p):
            p.data |= x
        return act

    def step(m):
        new = dict(m.data)
        new.update(d)
        m.set_data(new)
    return Op('data |=', make, step, 'keys %r' % (list(d),))


def check_words(p, m, ch, key):
    """name() with firstwordonly."""
    nm = m.names.get(key) if key is not None else None
    for fw in (True, r'\w+', 'zz+'):
        if key is None or key not in m.names:
            exp = ('raised', 'KeyError')
        elif fw is True:
            if not nm.split():
                continue
            exp = ('ok', nm.split()[0])
        else:
            found = re.findall(fw, nm)
            exp = ('ok', found[0]) if found else ('raised', 'ValueError')
        try:
            got = ('ok', p.name(ch, firstwordonly=fw))
        except Exception as e:
            got = ('raised', type(e).__name__)
        if got != exp:
            raise Violation('name', 'name(%r, firstwordonly=%r) with names %r: %s instead of %s' % (
                ch, fw, m.names, brief(got, 200), brief(exp, 200)))


def check_lookup(ctx, p, m):
    for ch in refs(ctx.src, m):
        try:
            key = m.key(ch)
            exp = ('ok', m.column(key, nof='ignore'))
        except Reject:
            key, exp = None, ('raised', 'KeyError')
        try:
            got = ('ok', normarr(p(ch, nof='ignore')))
        except Violation:
            raise
        except Exception as e:
            got = ('raised', type(e).__name__)
        if got != exp:
            raise Violation('lookup', 'pack(%r) with keys %r, names %r, prefix %r: %s instead of %s' % (
                ch, sorted(m.data), m.names, m.prefix, brief(got, 200), brief(exp, 200)))
        for fb in (False, True):
            if key is None:
                exp = ('raised', 'KeyError')
            elif fb:
                exp = ('ok', m.prefix + str(int(key)))
            elif key in m.names:
                exp = ('ok', m.names[key])
            else:
                exp = ('raised', 'KeyError')
            try:
                got = ('ok', p.name(ch, fallback=fb))
            except Exception as e:
                got = ('raised', type(e).__name__)
            if got != exp:
                raise Violation('name', 'name(%r, fallback=%r) with keys %r, names %r: %s instead of %s' % (
                    ch, fb, sorted(m.data), m.names, brief(got, 200), brief(exp, 200)))
        if ctx.src.chance(1, 6):
            check_words(p, m, ch, key)


def run(ctx):
    src = ctx.src
    p, m = new_pack(src)
    hist = []
    check_all = lambda what: (compare(p, m, what, deep=False), check_items(p, m, what))
    for i in range(2 + src.draw(14)):
        k = src.weighted([('good', 5), ('bad', 5), ('alloc', 2), ('prefix', 1), ('merge', 1)])
        if k == 'bad':
            op = gen_bad(src, m)
        elif k == 'prefix':
            op = model.op_prefix(src, m)
        elif k == 'merge':
            op = gen_merge(src, m)
        else:
            op = gen(src, m)
        hist.append(repr(op))
        if k == 'alloc':
            m, _ = alloc_step(ctx, p, m, op)
        else:
            m = check_step(ctx, p, m, op)
        # items set on an empty pack: the mask is the caller's to reset
        if m.data and len(m.mask) != m.n():
            m = check_step(ctx, p, m, model.op_mask_reset(src, m))
        check_all('after %s' % ' ; '.join(hist[-3:]))
        if src.chance(1, 4):
            check_lookup(ctx, p, m)
    check_lookup(ctx, p, m)
    ctx.sample = {'history': hist}
    ctx.sched(*hist)


def check_items(p, m, what):
    for k in p.data:
        v = p.data[k]
        if not isinstance(k, int) or not isinstance(v, np.ndarray) or v.ndim != 1:
            raise Violation('invariant', '%s: data[%r] is %s' % (what, k, brief(v, 100)))
    for k in p.names:
        if not isinstance(k, int):
            raise Violation('invariant', '%s: names has key %r' % (what, k))
