"""C10: accounts that share contribution room move through the years
together; the room is worked out once per year for the whole group."""
from forecaster.canada.accounts import RegisteredAccount, RRSP, TFSA
from forecaster.accounts.link import AccountLink
from harness.common import person, growth, YEAR

BOUNDS = ('1 to 3 registered accounts sharing room (owners equal or '
          'different from the contributor), advanced in every order over 1 '
          'to 3 years, with symbolic opening balances, rates, contributions, '
          'withdrawals (symbolic timings), initial room and per-year room; '
          'symbolic overriding inputs for any of the years.')
ASSUMPTIONS = ['exact real arithmetic',
               'annual compounding (fractional powers abstracted)']
AMT = 100000


def make(ctx, room_by_year, calls):
    class Registered(RegisteredAccount):
        def next_contribution_room(self):
            calls.append((self, self.this_year))
            return room_by_year[self.this_year + 1]
    return Registered


def group(ctx, cls, n, owners='same', inputs=None, room=True, **kw):
    """n accounts with one contributor; returns (accounts, contributor, room)
    """
    c = person(name='C')
    r0 = ctx.real('room', 0, AMT) if room else None
    accts = []
    for i in range(n):
        o = c if owners == 'same' or i == 0 and owners != 'away' \
            else person(name='O%d' % i)
        a = dict(balance=ctx.real('balance%d' % i, -AMT, AMT),
                 rate=ctx.real('rate%d' % i, -0.5, 1), nper=1, contributor=c)
        if inputs is not None:
            a['inputs'] = {k: dict(v) for k, v in inputs.items()}
        if room and i == 0:
            a['contribution_room'] = r0
        a.update(kw)
        accts.append(cls(o, **a))
    return accts, c, r0


def roll(ctx, n, years, owners, order):
    """Everyone advances together and the room is updated once a year."""
    rooms = {y: ctx.real('room%d' % y, 0, AMT)
             for y in range(YEAR + 1, YEAR + years + 1)}
    calls = []
    cls = make(ctx, rooms, calls)
    accts, c, r0 = group(ctx, cls, n, owners)
    rooms[YEAR] = r0
    bal = {a: a.balance for a in accts}
    for y in range(YEAR, YEAR + years):
        for i, a in enumerate(accts):
            v = ctx.real('v%d_%d' % (i, y), -AMT, AMT)
            t = ctx.real('t%d_%d' % (i, y), 0, 1)
            a.add_transaction(v, t)
            bal[a] = bal[a] * (1 + a.rate) + v * growth(ctx, a.rate, 1, 1 - t)
        del calls[:]
        first = order[(y - YEAR) % len(order)] % n
        seq = accts[first:] + accts[:first]
        for a in seq:
            while a.this_year <= y:
                a.next_year()
        ctx.check(len(calls) == 1 and calls[0][1] == y,
                  'room is worked out once for the group')
        ctx.check(c.this_year == y + 1, 'contributor advances too')
        for a in accts:
            ctx.check(a.this_year == y + 1, 'every account is in the same year')
            ctx.check(ctx.eq(a.balance, bal[a]), 'balances carry over')
            ctx.check(ctx.eq(a.contribution_room, rooms[y + 1]),
                      'every account sees the new room')
            ctx.check(ctx.eq(a.max_inflow_limit, rooms[y + 1]),
                      'room is the contribution limit')
            h = a.contribution_room_history
            for z in range(YEAR, y + 2):
                ctx.check(ctx.eq(h[z], rooms[z]), 'room history')
            ctx.check(len(a.transactions) == 0, 'new year starts empty')


def known(ctx, n, which):
    """A room given for a year in advance is used instead of a computed one.
    """
    rooms = {y: ctx.real('room%d' % y, 0, AMT) for y in (YEAR + 1, YEAR + 2)}
    given = {y: ctx.real('given%d' % y, 0, AMT)
             for y in (YEAR, YEAR + 1, YEAR + 2) if which & (1 << (y - YEAR))}
    calls = []
    cls = make(ctx, rooms, calls)
    accts, c, r0 = group(ctx, cls, n, inputs={'contribution_room': given})
    want = {YEAR: r0}
    want.update(rooms)
    want.update(given)
    ctx.check(ctx.eq(accts[0].contribution_room, want[YEAR]), 'first year')
    for y in (YEAR, YEAR + 1):
        accts[0].next_year()
        for a in accts:
            ctx.check(a.this_year == y + 1, 'every account is in the same year')
            ctx.check(ctx.eq(a.contribution_room, want[y + 1]),
                      'given room is used')
            for z in range(YEAR, y + 2):
                ctx.check(ctx.eq(a.contribution_room_history[z], want[z]),
                          'history has the given room')
    ctx.check([y for _, y in calls] ==
              [y for y in (YEAR, YEAR + 1) if y + 1 not in given],
              'computed only when not given')


def separate(ctx, cls):
    """Different contributors or tokens have separate room."""
    p, q = person(name='P'), person(name='Q')
    r = [ctx.real('r%d' % i, 0, AMT) for i in range(4)]
    K = {'RRSP': RRSP, 'TFSA': TFSA}[cls]
    other = {'RRSP': TFSA, 'TFSA': RRSP}[cls]
    a = K(p, balance=0, rate=0, contribution_room=r[0])
    b = K(q, balance=0, rate=0, contribution_room=r[1])
    s = K(q, balance=0, rate=0, contributor=p)      # shares a's room
    t = K(p, balance=0, rate=0, contribution_room=r[2], max_inflow_token='z')
    o = other(p, balance=0, rate=0, contribution_room=r[3])
    for x, w in ((a, r[0]), (b, r[1]), (s, r[0]), (t, r[2]), (o, r[3])):
        ctx.check(ctx.eq(x.contribution_room, w), 'own room')
    ctx.check(a.contributor is p and b.contributor is q and
              s.contributor is p and s.owner is q, 'contributor')
    ctx.check(a.max_inflow_link.group == {a, s} and
              b.max_inflow_link.group == {b} and
              t.max_inflow_link.group == {t} and
              o.max_inflow_link.group == {o}, 'groups')
    new = ctx.real('new', 0, AMT)
    s.contribution_room = new
    for x, w in ((a, new), (b, r[1]), (s, new), (t, r[2]), (o, r[3])):
        ctx.check(ctx.eq(x.contribution_room, w), 'setting the room')
        ctx.check(ctx.eq(x.max_inflow_limit, w), 'room is the limit')


def alias(ctx, cls):
    """Aliased arguments mean the same thing and may not be given twice."""
    p, q = person(name='P'), person(name='Q')
    r = ctx.real('r', 0, AMT)
    K = {'RRSP': RRSP, 'TFSA': TFSA}[cls]
    a = K(p, balance=0, rate=0, max_inflow_limit=r)
    ctx.check(ctx.eq(a.contribution_room, r), 'max_inflow_limit is the room')
    link = AccountLink((q, 'tok'))
    b = K(p, balance=0, rate=0, max_inflow_link=link, contribution_room=r)
    ctx.check(b.contributor is q, 'link sets the contributor')
    ctx.check(b.max_inflow_link == link, 'link is used')
    for kw in (dict(contribution_room=r, max_inflow_limit=r),
               dict(contributor=q, max_inflow_link=link),
               dict(max_inflow_token='t', max_inflow_link=link)):
        ctx.check(ctx.raises(ValueError, lambda: K(p, balance=0, rate=0, **kw)),
                  'the same thing cannot be given twice')
    ctx.check(ctx.raises(
        NotImplementedError,
        RegisteredAccount(p, balance=0, rate=0,
                          contribution_room=r).next_year),
        'base class has no rule')


def limit(ctx, cls, n):
    """Contributions proposed for one account leave room for the others'."""
    K = {'RRSP': RRSP, 'TFSA': TFSA}[cls]
    accts, c, r0 = group(ctx, K, n)
    used = 0
    for i, a in enumerate(accts):
        v = ctx.real('v%d' % i, -AMT, AMT)
        a.add_transaction(v, 0.5)
        used = used + ctx.max(v, 0)
    got = ctx.sum(accts[-1].max_inflows({0.5: 1}).values())
    ctx.check(ctx.eq(got, ctx.max(r0 - used, 0)), 'room left for the group')


def tasks(tier):
    t = [(roll, dict(n=1, years=2, owners='same', order=[0])),
         (roll, dict(n=2, years=2, owners='same', order=[0, 1])),
         (roll, dict(n=1, years=2, owners='away', order=[0])),
         (roll, dict(n=2, years=1, owners='away', order=[1])),
         (roll, dict(n=2, years=1, owners='other', order=[0])),
         (roll, dict(n=2, years=1, owners='other', order=[1])),
         (roll, dict(n=3, years=1, owners='other', order=[1]))]
    for w in range(8):
        t.append((known, dict(n=2, which=w)))
    for c in ('RRSP', 'TFSA'):
        t += [(separate, dict(cls=c)), (alias, dict(cls=c)),
              (limit, dict(cls=c, n=1)), (limit, dict(cls=c, n=2))]
    if tier == 'thorough':
        t += [(roll, dict(n=3, years=2, owners='other', order=[o, p]))
              for o in range(3) for p in range(3)]
        t += [(roll, dict(n=2, years=3, owners='other', order=[1, 0, 1]))]
        t += [(known, dict(n=3, which=w)) for w in range(8)]
        t += [(limit, dict(cls=c, n=3)) for c in ('RRSP', 'TFSA')]
    return t
