"""C24: marriages and account ownership stay consistent."""
from forecaster.accounts import Account
from forecaster.person import Person
from harness.common import person, YEAR

BOUNDS = (
    'every sequence of up to 3 (thorough: 4) changes - marriages, divorces, '
    'changes of owner (also to nobody), rejected changes, new accounts and '
    'people - among 3 or 4 people and 2 accounts, with symbolic incomes, '
    'balances, taxable amounts, deductions and credits; with a year '
    'change after any of them.')
ASSUMPTIONS = ['exact real arithmetic']
AMT = 100000


class Acct(Account):
    """An account with tax consequences of its own."""
    income = deduction = credit = withheld = 0

    @property
    def taxable_income(self):
        return self.income

    @property
    def tax_deduction(self):
        return self.deduction

    @property
    def tax_credit(self):
        return self.credit


class World:
    """The real objects next to what they should be."""

    def __init__(self, ctx, people, accounts):
        self.ctx = ctx
        self.people, self.accts = [], []
        self.spouse, self.owner = {}, {}
        for i in range(people):
            self.new_person()
        for i in range(accounts):
            self.new_account(self.people[0])

    def new_person(self, spouse=None):
        i = len(self.people)
        p = person(name='P%d' % i, spouse=spouse,
                   gross_income=self.ctx.real('g%d' % i, 0, AMT))
        self.people.append(p)
        self.spouse[p] = None
        if spouse is not None:
            self.married(p, spouse)

    def new_account(self, p):
        i = len(self.accts)
        a = Acct(p, balance=self.ctx.real('b%d' % i, 0, AMT))
        a.income = self.ctx.real('i%d' % i, -AMT, AMT)
        a.deduction = self.ctx.real('d%d' % i, 0, AMT)
        a.credit = self.ctx.real('c%d' % i, 0, AMT)
        self.accts.append(a)
        self.owner[a] = p

    def married(self, p, q):
        for x in (p, q):
            y = self.spouse.get(x)
            if y is not None:
                self.spouse[x] = self.spouse[y] = None
        self.spouse[p], self.spouse[q] = q, p

    def do(self, op):
        ctx, P, A = self.ctx, self.people, self.accts
        kind = op[0]
        if kind == 'marry':
            P[op[1]].spouse = P[op[2]]
            self.married(P[op[1]], P[op[2]])
        elif kind == 'divorce':
            x, y = P[op[1]], self.spouse[P[op[1]]]
            x.spouse = None
            self.spouse[x] = None
            if y is not None:
                self.spouse[y] = None
        elif kind == 'own':
            a, p = A[op[1]], None if op[2] is None else P[op[2]]
            a.owner = p
            self.owner[a] = p
        elif kind == 'wed new':
            self.new_person(P[op[1]])
        elif kind == 'open':
            self.new_account(P[op[1]])
        elif kind == 'bad spouse':
            ctx.check(ctx.raises(TypeError, setattr, P[op[1]], 'spouse',
                                 'somebody'), 'refused')
        elif kind == 'bad owner':
            ctx.check(ctx.raises(TypeError, setattr, A[op[1]], 'owner',
                                 'somebody'), 'refused')
        elif kind == 'year':
            for p in P:
                p.next_year()
            for a in A:
                a.next_year()

    def judge(self):
        ctx = self.ctx
        for p in self.people:
            ctx.check(p.spouse is self.spouse[p], 'spouse')
            q = p.spouse
            ctx.check(q is None or (q.spouse is p and q is not p),
                      'marriage is mutual')
            own = [a for a in self.accts if self.owner[a] is p]
            ctx.check(p.accounts == set(own), 'accounts of a person')
            ctx.check(ctx.eq(p.taxable_income, p.gross_income + ctx.sum(
                a.income for a in own)), 'taxable income')
            ctx.check(ctx.eq(p.tax_deduction, ctx.sum(
                a.deduction for a in own)), 'deductions')
            ctx.check(ctx.eq(p.tax_credit, ctx.sum(
                a.credit for a in own)), 'credits')
        for a in self.accts:
            ctx.check(a.owner is self.owner[a], 'owner')


def operations(people, accounts, which):
    ops = []
    for i in range(people):
        for j in range(people):
            if i != j and 'marry' in which:
                ops.append(('marry', i, j))
        for kind in ('divorce', 'wed new', 'open', 'bad spouse'):
            if kind in which:
                ops.append((kind, i))
    for a in range(accounts):
        if 'own' in which:
            for i in list(range(people)) + [None]:
                ops.append(('own', a, i))
        if 'bad owner' in which:
            ops.append(('bad owner', a))
    if 'year' in which:
        ops.append(('year',))
    return ops


def history(ctx, people, accounts, which, steps):
    """Any sequence of changes."""
    w = World(ctx, people, accounts)
    w.judge()
    ops = operations(people, accounts, which)
    for k in range(steps):
        w.do(ctx.pick('op%d' % k, ops))
        w.judge()


def tasks(tier):
    more = 1 if tier == 'thorough' else 0
    return [
        (history, dict(people=3, accounts=0,
                       which=['marry', 'divorce', 'bad spouse'],
                       steps=3 + more)),
        (history, dict(people=4, accounts=0, which=['marry', 'divorce'],
                       steps=3)),
        (history, dict(people=2, accounts=2, which=['own', 'bad owner'],
                       steps=3 + more)),
        (history, dict(people=2, accounts=1,
                       which=['own', 'open', 'year', 'marry'],
                       steps=3 + more)),
        (history, dict(people=2, accounts=1,
                       which=['wed new', 'own', 'divorce', 'year'],
                       steps=3 + more)),
        (history, dict(people=3, accounts=2,
                       which=['own', 'marry', 'divorce', 'bad owner',
                              'bad spouse', 'open', 'wed new', 'year'],
                       steps=2 + more)),
    ]
