"""C09: accounts that share a limit never exceed it together."""
from forecaster.accounts import LinkedLimitAccount
from forecaster.accounts.link import AccountLink
from harness.common import person, growth, YEAR

BOUNDS = ('2 or 3 accounts sharing one limit (plus an unlinked one), each '
          'with 0 to 2 recorded and 0 to 1 hypothetical symbolic '
          'transactions at symbolic timings (possibly equal), symbolic '
          'balances, rates in [-0.5, 1], limits and requested limits; '
          'schedules of 1 or 2 timings; annual compounding.')
ASSUMPTIONS = ['exact real arithmetic', 'fractional powers abstracted']
AMT = 100000
KINDS = ('max_inflow', 'min_inflow', 'max_outflow', 'min_outflow')


def link_kw(kind, link, limit=None):
    kw = {kind + '_link': link}
    if limit is not None:
        kw[kind + '_limit'] = limit
    return kw


def registration(ctx, kind, form):
    """The last limit given wins and is seen by every linked account."""
    p, q = person(name='P'), person(name='Q')
    l1, l2, l3 = (ctx.real('l%d' % i, -AMT, AMT) for i in range(3))
    tok = (p, 'token')
    if form == 'link':
        tok = AccountLink(tok)
    a = LinkedLimitAccount(p, **link_kw(kind, tok, l1))
    b = LinkedLimitAccount(q, **link_kw(kind, (p, 'token')))
    c = LinkedLimitAccount(p, **link_kw(kind, (p, 'other'), l2))
    d = LinkedLimitAccount(p, **link_kw(kind, (q, 'token'), l2))
    e = LinkedLimitAccount(p)
    name = kind + '_limit'

    def lim(x):
        return getattr(x, name)
    ctx.check(ctx.eq(lim(a), l1) and ctx.eq(lim(b), l1), 'shared')
    ctx.check(ctx.eq(lim(c), l2) and ctx.eq(lim(d), l2), 'separate groups')
    group = getattr(a, kind + '_link').group
    ctx.check(group == {a, b}, 'group members')
    ctx.check(getattr(b, kind + '_link') == getattr(a, kind + '_link') and
              getattr(c, kind + '_link') != getattr(a, kind + '_link') and
              getattr(d, kind + '_link') != getattr(a, kind + '_link'),
              'links identify their owner and token')
    setattr(b, name, l3)
    ctx.check(ctx.eq(lim(a), l3) and ctx.eq(lim(b), l3), 'update is shared')
    ctx.check(ctx.eq(lim(c), l2) and ctx.eq(lim(d), l2), 'others unaffected')
    f = LinkedLimitAccount(q, **link_kw(kind, (p, 'token'), l2))
    ctx.check(ctx.eq(lim(a), l2) and ctx.eq(lim(f), l2), 'joining updates')
    for k in KINDS:
        if k != kind:
            v = getattr(a, k + '_limit')
            z = getattr(e, k + '_limit')
            ctx.check(v == z, 'other limits unaffected')
    ctx.check(getattr(e, kind + '_link') is None, 'unlinked account')


def four(ctx):
    """Each of the four limits is stored and updated on its own."""
    p = person()
    ls = {k: ctx.real(k, -AMT, AMT) for k in KINDS}
    new = {k: ctx.real('new_' + k, -AMT, AMT) for k in KINDS}
    kw = {}
    for k in KINDS:
        kw.update(link_kw(k, (p, k), ls[k]))
    a = LinkedLimitAccount(p, **kw)
    cur = dict(ls)
    for k in KINDS:
        setattr(a, k + '_limit', new[k])
        cur[k] = new[k]
        for j in KINDS:
            ctx.check(ctx.eq(getattr(a, j + '_limit'), cur[j]), 'own limit')
    for k in KINDS:
        ctx.check(ctx.raises(AttributeError, setattr, LinkedLimitAccount(p),
                             k + '_limit', new[k]), 'unlinked cannot be set')


def shared(ctx, kind, others, recorded, hypo, n, tlim, own='none'):
    """What one account may still do is what the whole group has left."""
    p = person()
    inflow = kind.endswith('inflow')
    sgn = 1 if inflow else -1
    limit = ctx.real('limit', 0, AMT) * sgn
    rate = ctx.real('rate', -0.5, 1)
    bal = ctx.real('balance', -AMT, AMT)
    a = LinkedLimitAccount(p, balance=bal, rate=rate, nper=1,
                           **link_kw(kind, (p, 'x'), limit))
    group = [a] + [LinkedLimitAccount(
        p, balance=ctx.real('obal%d' % i, -AMT, AMT), rate=0,
        **link_kw(kind, (p, 'x'))) for i in range(others)]
    alone = LinkedLimitAccount(p, balance=0, rate=0)
    t_all = [ctx.real('t%d' % i, 0, 1) for i in range(max(1, recorded))]
    flows = {}
    for i, x in enumerate(group):
        flows[x] = []
        for j in range(recorded):
            v = ctx.real('r%d_%d' % (i, j), -AMT, AMT)
            # the same timings in every account
            x.add_transaction(v, t_all[j])
            flows[x].append((t_all[j], v))
    alone.add_transaction(ctx.real('ra', -AMT, AMT), 0)
    given = {}
    th = [ctx.real('th%d' % i, 0, 1) for i in range(2)]
    for i, x in enumerate(group):
        if hypo and (i > 0 or own == 'group'):
            v = ctx.real('h%d' % i, -AMT, AMT)
            given[x] = {th[0]: v}
            flows[x].append((th[0], v))
    if hypo:
        given[alone] = {th[0]: ctx.real('ha', -AMT, AMT)}
    kw = {}
    if given:
        kw['group_transactions'] = given
    if own == 'arg':
        v = ctx.real('h0', -AMT, AMT)
        kw['transactions'] = {th[1]: v}
        flows[a].append((th[1], v))
    if tlim:
        kw['transaction_limit'] = ctx.real('tlim', 0, AMT) * sgn
    when = [ctx.real('w%d' % i, 0, 1) for i in range(n)]
    if n == 2:
        ctx.assume(when[0] < when[1])
    wt = [ctx.real('wt%d' % i, 0.125, 10) for i in range(n)]
    timing = dict(zip(when, wt))
    keep = {x: list(d.items()) for x, d in given.items()}
    out = getattr(a, kind + 's')(timing, **kw)
    for x, items in keep.items():
        ctx.check(list(given[x].items()) == items, 'inputs intact')
    total = ctx.sum(out.values())
    for v in out.values():
        ctx.check(v * sgn >= 0, 'direction')
    used = 0
    for x in group:
        # inflows and outflows are summed per account and per timing as the
        # account itself would record them
        merged = {}
        for t, v in [f for f in flows[x]][:recorded]:
            merged[t] = (merged[t] if t in merged else 0) + v
        vs = list(merged.values()) + [v for _, v in flows[x][recorded:]]
        for v in vs:
            used = used + (ctx.max(v, 0) if inflow else ctx.min(v, 0))
    left = ctx.max((limit - used) * sgn, 0)
    ctx.check(ctx.le(total * sgn, left), 'shared limit')
    if tlim:
        ctx.check(ctx.le(total * sgn, kw['transaction_limit'] * sgn),
                  'requested limit')
    caps = [ctx.eq(total * sgn, left)]
    if tlim:
        caps.append(ctx.eq(total, kw['transaction_limit']))
    if not inflow:
        # withdrawals also stop when this account is empty
        end = bal * (1 + rate)
        for t, v in flows[a]:
            end = end + v * growth(ctx, rate, 1, 1 - t)
        for t, v in out.items():
            end = end + v * growth(ctx, rate, 1, 1 - t)
        ctx.check(ctx.Or(ctx.ge(end, 0, 1e-3), ctx.eq(total, 0)),
                  'no overdraft')
        caps.append(ctx.le(end, 0, 1e-3))
    ctx.check(ctx.Or(*caps), 'all the group has left')


def fill_group(ctx, kind, n):
    """Using each account's maximum in turn uses the limit exactly once."""
    p = person()
    limit = ctx.real('limit', 0, AMT)
    group = [LinkedLimitAccount(p, balance=0, rate=0,
                                **link_kw('max_inflow', (p, 'x'), limit))
             for _ in range(n)]
    done = 0
    for i, x in enumerate(group):
        t = ctx.real('t%d' % i, 0, 1)
        kw = {}
        if i < n - 1:
            kw['transaction_limit'] = ctx.real('tl%d' % i, 0, AMT)
        got = x.max_inflows({t: 1}, **kw)
        for w, v in got.items():
            x.add_transaction(v, w)
            done = done + v
        ctx.check(ctx.le(done, limit), 'never above the limit')
    ctx.check(ctx.eq(done, limit), 'whole limit used')


def tasks(tier):
    res = [(registration, dict(kind=k, form=f)) for k in KINDS
           for f in ('tuple', 'link')]
    res.append((four, {}))
    for k in KINDS:
        res.append((shared, dict(kind=k, others=1, recorded=1, hypo=0, n=1,
                                 tlim=False)))
        res.append((shared, dict(kind=k, others=1, recorded=1, hypo=1, n=1,
                                 tlim=True)))
        res.append((shared, dict(kind=k, others=1, recorded=0, hypo=1, n=2,
                                 tlim=False, own='group')))
        res.append((shared, dict(kind=k, others=1, recorded=0, hypo=1, n=1,
                                 tlim=False, own='arg')))
        res.append((shared, dict(kind=k, others=2, recorded=0, hypo=1, n=1,
                                 tlim=False, own='group')))
    res += [(fill_group, dict(kind='max_inflow', n=n)) for n in (2, 3)]
    if tier == 'thorough':
        for k in KINDS:
            res.append((shared, dict(kind=k, others=2, recorded=1, hypo=1,
                                     n=2, tlim=True, own='arg')))
            res.append((shared, dict(kind=k, others=1, recorded=2, hypo=1,
                                     n=2, tlim=True, own='group')))
    return res
