"""C31: settings are read as written, and written as they are."""
import os
import shutil
import tempfile
from decimal import Decimal
from forecaster.canada.constants import ConstantsCanada
from forecaster.canada.settings import SettingsCanada
from forecaster.settings import Settings
from forecaster.value_reader import ValueReader, ValueReaderAttribute

BOUNDS = (
    'files of up to 12 entries nested 3 deep (objects and lists), numbers of '
    'up to 21 digits before and 20 after the point as numbers, text and '
    'keys, whole numbers of up to 30 digits, text, truth values, infinity; '
    'with and without high precision and conversion of text; histories of 4 '
    '(thorough: 5) changes to two sets of settings.')
ASSUMPTIONS = [
    'numbers as text are opaque: reading text gives the number it was '
    'written for, exactly (high-precision types, whole numbers) or the '
    'nearest float, of which only that it is within one part in 2^53, '
    'whole for whole numbers, and equal for those up to 2^53, is assumed',
    'the json module and the file system are run for real; files are '
    'written to a directory that is removed']


def scratch(fn):
    """Runs a harness with a directory of its own."""
    def run(ctx, **kw):
        path = tempfile.mkdtemp(prefix='verif-c31-')
        try:
            return fn(ctx, path, **kw)
        finally:
            shutil.rmtree(path, ignore_errors=True)
    run.__name__ = fn.__name__
    run.__doc__ = fn.__doc__
    return run


class Reader(ValueReader):
    """With attributes."""
    a = ValueReaderAttribute(5)
    b = ValueReaderAttribute('text')
    c = ValueReaderAttribute()


def write(path, name, text):
    """A file, by other means than those of the package."""
    path = os.path.join(path, name)
    with open(path, 'w', encoding='utf-8') as f:
        f.write(text)
    return path


def number(ctx, v):
    return not isinstance(v, (str, bool)) and v is not None


def whole(ctx, v):
    """Whether this is an int."""
    return v.isint if ctx.symbolic and hasattr(v, 'isint') else isinstance(
        v, int)


def exactly(ctx, got, want, label):
    """Numbers that are equal, without any tolerance."""
    ctx.check(number(ctx, got), 'numbers are read as numbers')
    if number(ctx, got):
        ctx.check(got == want, label)


def nearly(ctx, got, want):
    """The nearest float."""
    if not ctx.symbolic:
        ctx.check(isinstance(got, (int, float)) and got == float(want),
                  'nearest float')
        return
    err = ctx.abs(got - want)
    ctx.check(err * 2 ** 53 <= ctx.abs(want), 'nearest float')


def reads(ctx, path, hp, convert, digits, way):
    """Every number in a file is read as it is."""
    x = ctx.digits('x', digits, -10 ** 21, 10 ** 21)
    y = ctx.digits('y', digits, 0, 10 ** 6)
    z = ctx.digits('z', digits, 0, 100)
    k = ctx.int('k', -10 ** 30, 10 ** 30)
    j = ctx.int('j', 1, 3000)
    t = [ctx.text(v) for v in (x, y, z, k, j)]
    doc = ('{"text": "%s", "bare": %s, "whole": "%s", "list": [%s, "%s", '
           '{"deep": "%s"}], "keys": {"%s": {"%s": %s}}, "plain": 3, '
           '"word": "B%s", "yes": true, "none": null, "most": Infinity, '
           '"minus": -Infinity}' % (
               t[0], t[0], t[3], t[1], t[1], t[3], t[4], t[1], t[2], t[1]))
    path = write(path, 'in.json', doc)
    args = dict(high_precision=ctx.decimal if hp else None)
    if way == 'init':
        r = ValueReader(path, numeric_convert=convert, **args)
    else:
        r = ValueReader(**args)
        r.values['old'] = 1
        r.read(path, numeric_convert=convert)
    v = r.values
    ctx.check(len(v) == 11, 'what is in the file, nothing else')
    same = exactly if hp else (
        lambda ctx, got, want, label: nearly(ctx, got, want))
    same(ctx, v['bare'], x, 'numbers')
    same(ctx, v['list'][0], y, 'numbers')
    if convert:
        same(ctx, v['text'], x, 'numbers as text')
        same(ctx, v['list'][1], y, 'numbers as text')
        ctx.check(ctx.Implies(x == ctx.floor(x), whole(ctx, v['text'])),
                  'whole numbers are whole')
        exactly(ctx, v['whole'], k, 'whole numbers')
        exactly(ctx, v['list'][2]['deep'], k, 'whole numbers')
        ctx.check(whole(ctx, v['whole']), 'whole numbers are whole')
        [(key, sub)] = v['keys'].items()
        exactly(ctx, key, j, 'keys')
        ctx.check(whole(ctx, key), 'whole numbers are whole')
        [(key, val)] = sub.items()
        same(ctx, key, y, 'keys')
        same(ctx, val, z, 'numbers')
    else:
        ctx.check(v['text'] == t[0] and v['whole'] == t[3] and
                  v['list'][1:] == [t[1], {'deep': t[3]}], 'text is kept')
        ctx.check(list(v['keys']) == [t[4]] and
                  list(v['keys'][t[4]]) == [t[1]], 'text is kept')
    ctx.check(v['plain'] == 3 and v['word'] == 'B' + t[1] and
              v['yes'] is True and v['none'] is None, 'other values')
    ctx.check(v['most'] == float('inf') and v['minus'] == -float('inf'),
              'infinity')


def trip(ctx, path, digits, serialize, keys, how):
    """What is written is read again."""
    def value(name, lo=-10 ** 21, hi=10 ** 21):
        return ctx.digits(name, digits, lo, hi)
    x, y = value('x'), value('y', 0, 10 ** 6)
    args = dict(high_precision=ctx.decimal)
    calls = []
    if serialize:
        def out(v):
            calls.append(v)
            return ctx.text(v)
        args['high_precision_serialize'] = out
    w = Reader(**args)
    vals = {'a': x, 'b': 'B', 'list': [y, 7, None, True, [x]],
            'sub': {'s': y, 't': {'u': x}}, 'big': float('inf')}
    if keys:
        vals['keys'] = {2017: {0: x, y + 1: y}, 2018: {y + 2: 5}}
    path = os.path.join(path, 'out.json')
    if how == 'own':
        w.values = vals
        w.write(path)
    elif how == 'given':
        w.values = {'a': 3}
        w.write(path, vals)
    r = Reader(path, **args)
    v = r.values
    ctx.check(set(v) == set(vals), 'the same keys')
    exactly(ctx, r.a, x, 'numbers')
    exactly(ctx, v['list'][0], y, 'numbers')
    exactly(ctx, v['list'][4][0], x, 'numbers')
    exactly(ctx, v['sub']['s'], y, 'numbers')
    exactly(ctx, v['sub']['t']['u'], x, 'numbers')
    ctx.check(r.b == 'B' and v['list'][1:4] == [7, None, True] and
              v['big'] == float('inf'), 'other values')
    if keys:
        a, b = v['keys'][2017], v['keys'][2018]
        ctx.check(set(v['keys']) == {2017, 2018} and len(a) == 2 and
                  len(b) == 1, 'the same keys')
        for got, want in ((a, {0: x, y + 1: y}), (b, {y + 2: 5})):
            for (k, val), (k2, val2) in zip(
                    sorted(got.items()), sorted(want.items())):
                exactly(ctx, k, k2, 'keys')
                exactly(ctx, val, val2, 'numbers')
    if serialize:
        ctx.check(len(calls) >= 5, 'own ways of writing are used')


OPS = ('set', 'del', 'set other', 'read', 'defaults off', 'defaults on',
       'values')


def changes(ctx, path, n, cls):
    """Settings are those set or read, otherwise the defaults."""
    name, other, default = {
        'Reader': ('a', 'b', 5), 'Settings': ('inflation', 'currency', .02),
        'SettingsCanada': ('tax_province', 'inflation', 'BC'),
        'ConstantsCanada': ('RRSP_ACCRUAL_RATE', 'RESP_BCSTEG_AMOUNT', .18),
    }[cls]
    kind = dict(Reader=Reader, Settings=Settings, SettingsCanada=
                SettingsCanada, ConstantsCanada=ConstantsCanada)[cls]
    empty = write(path, 'empty.json', '{}')
    in_file = ctx.decimal('1.25')
    full = write(path, 'full.json', '{"%s": "%s", "more": 1}' % (
        name, ctx.text(in_file)))
    s, other_s = [kind(empty, high_precision=ctx.decimal) for _ in 'ab']
    state, on = {}, True
    for i in range(n):
        op = ctx.pick('op%d' % i, OPS)
        x = ctx.real('x%d' % i, 0, 100)
        if op == 'set':
            setattr(s, name, x)
            state[name] = x
        elif op == 'values':
            s.values[name] = x
            state[name] = x
        elif op == 'set other':
            setattr(s, other, x)
            state[other] = x
        elif op == 'del':
            if name in state:
                delattr(s, name)
                del state[name]
            else:
                ctx.check(ctx.raises((KeyError, AttributeError), delattr, s,
                                     name), 'nothing to delete')
        elif op == 'read':
            s.read(full)
            state = {name: in_file, 'more': 1}
        else:
            on = s.use_defaults = op == 'defaults on'
        if name in state:
            ctx.check(getattr(s, name) == state[name], 'as set')
        elif on:
            ctx.check(getattr(s, name) == default, 'default')
        else:
            ctx.check(ctx.raises(KeyError, getattr, s, name), 'no default')
        ctx.check(set(s.values) == set(state), 'values')
        if other in state:
            ctx.check(getattr(s, other) == state[other], 'as set')
        ctx.check(getattr(other_s, name) == default and
                  not other_s.values, 'other settings are left alone')


def errors(ctx, path):
    """What isn't settings isn't read as settings."""
    hp = ctx.pick('hp', [None, ctx.decimal])
    for text, exc in (('[1]', TypeError), ('3', TypeError),
                      ('{"a": NaN}', ValueError), ('{"a": ', ValueError)):
        f = write(path, 'bad.json', text)
        ctx.check(ctx.raises(exc, ValueReader, f, high_precision=hp),
                  'rejected')
    ctx.check(ctx.raises(FileNotFoundError, ValueReader, os.path.join(
        path, 'none.json')), 'no such file')
    r = Reader(high_precision=hp)
    ctx.check(ctx.raises(KeyError, getattr, r, 'c'), 'no default')
    ctx.check(r.a == 5 and r.b == 'text', 'defaults')


def shipped(ctx, path):
    """The files the package ships with, and copies of them."""
    for cls in (Settings, SettingsCanada, ConstantsCanada):
        one = cls()
        for hp in (False, True):
            a = cls(high_precision=ctx.decimal if hp else None)
            f = os.path.join(path, 'copy.json')
            a.write(f)
            b = cls(f, high_precision=ctx.decimal if hp else None)
            alike(ctx, a.values, b.values, 'copies')
            if not ctx.symbolic:
                alike(ctx, a.values, one.values, 'with high precision')
    name = ctx.digits('x', 2, 0, 10)
    s = Settings(high_precision=ctx.decimal)
    s.inflation = name
    s.write(f)
    ctx.check(Settings(f, high_precision=ctx.decimal).inflation == name,
              'changes to copies')


def alike(ctx, a, b, label):
    """The same, except for the types of numbers."""
    if isinstance(b, dict):
        ctx.check(len(a) == len(b), label)
        for x, y in zip(*[sorted(d.items(), key=lambda i: (
                isinstance(i[0], str), i[0])) for d in (a, b)]):
            alike(ctx, x[0], y[0], label)
            alike(ctx, x[1], y[1], label)
    elif isinstance(b, list):
        ctx.check(len(a) == len(b), label)
        for x, y in zip(a, b):
            alike(ctx, x, y, label)
    elif isinstance(b, float) and isinstance(a, Decimal):
        ctx.check(float(a) == b, label)
    else:
        ctx.check(a == b, label)


reads, trip, changes, errors, shipped = [
    scratch(f) for f in (reads, trip, changes, errors, shipped)]


def tasks(tier):
    more = tier == 'thorough'
    t = [(errors, {}), (shipped, {})]
    for hp in (True, False):
        for convert in (True, False):
            for way in ('init', 'read'):
                t.append((reads, dict(hp=hp, convert=convert, way=way,
                                      digits=20)))
    for serialize in (False, True):
        for keys in (False, True):
            for how in ('own', 'given'):
                t.append((trip, dict(digits=20, serialize=serialize,
                                     keys=keys, how=how)))
    for cls in ('Reader', 'Settings', 'SettingsCanada', 'ConstantsCanada'):
        t.append((changes, dict(
            n=(5 if more else 4) - (cls != 'Reader'), cls=cls)))
    return t
