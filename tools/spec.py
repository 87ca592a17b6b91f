"""Writes properties.jsonl and MANIFEST.json from one table (run after edits)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []
IN = ['inputs']
IH = ['inputs', 'histories']
IC = ['inputs', 'configurations']
IHC = ['inputs', 'histories', 'configurations']


def P(pid, title, statement, over, text, why, mech, observe, note=None,
      na=None):
    """mech: list of 'file: name' strings."""
    files = []
    ms = []
    for m in mech:
        f, n = m.split(': ', 1)
        if f not in files:
            files.append(f)
        ms.append({'name': n, 'where': m.replace(': ', ':')})
    assert len(title) <= 80, title
    PROPS.append({
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
        'anchors': {'files': files, 'mechanism': ms, 'observe_at': observe,
                    'hook_needed': None}})
    if na:
        NA.append({'property': pid, 'reason': na})
    else:
        PROPS[-1]['_note'] = note or ''


U = 'forecaster/utility/'
A = 'forecaster/accounts/'

P('C01', 'Spreading an amount over a schedule keeps the total and the weights',
  'When an amount is spread over a schedule of timings (or over a chosen '
  'subset of them), every selected timing receives a share proportional to '
  'its weight, no other timing receives anything, and the shares add up to '
  'the amount exactly. The schedule that was passed in is not changed.',
  IN, 'every schedule, every sign and size of the amount, every subset of '
  'the timings',
  'Tests use a few fixed schedules with round numbers; the claim is over all '
  'real weights, amounts and subsets.',
  [U + 'timing.py: transactions_from_timing',
   U + 'timing.py: Timing.normalized',
   U + 'timing.py: Timing.subset'],
  ['return value of the spreading and normalising operations'])

P('C02', 'Netting a mix of inflows and outflows into a schedule',
  'A schedule derived from a mix of inflows and outflows only uses timings '
  'of those flows, has no negative weights, and never schedules money for a '
  'time when it is not (or no longer) available: cumulative weight never '
  'exceeds cumulative net availability in the direction of the net total. '
  'Merging two schedules adds amounts time by time and leaves the second one '
  'unchanged.',
  IC, 'every set of amounts and timings and every order in which they are '
  'listed',
  'Tests check a few hand-made mixes; sign patterns, ties in cumulative sums '
  'and dict orders are unbounded.',
  [U + 'timing.py: Timing.__init__', U + 'timing.py: _convert_mixed_timing',
   U + 'timing.py: add_transactions', U + 'timing.py: subtract_transactions'],
  ['weights of the resulting schedule'])

P('C03', 'Timing and frequency conventions',
  'A time within a year is accepted exactly when it lies between the start '
  'and the end of the year, and a payment frequency exactly when it is a '
  'known code or a positive whole number. A periodic schedule has one equally '
  'weighted transaction in every period, at the same relative position in '
  'each period and always inside the year, and spreading an amount over it '
  'gives amounts summing to that amount.',
  IC, 'every numeric time, every frequency code or number of periods, every '
  'position within the period',
  'Tests check a few codes and a few positions.',
  [U + 'timing.py: when_conv', U + 'timing.py: frequency_conv',
   U + 'timing.py: Timing.__init__'],
  ['accepted or rejected values, resulting schedule'])

P('C04', 'Inflation adjustment compounds consistently between years',
  'Adjusting between two years multiplies by exactly the product of the '
  'annual inflation rates of the years in between: it is 1 from a year to '
  'itself, the inverse in the other direction, and transitive through any '
  'third year. Tables of adjustment factors agree with single adjustments, '
  'and every annual assumption is the one given for that year.',
  IC, 'every sequence of inflation rates and every pair or triple of years, '
  'including targets before the base year',
  'Tests sample constant rates and a few year pairs.',
  ['forecaster/scenario.py: Scenario.accumulation_function',
   'forecaster/scenario.py: Scenario.inflation_adjust',
   'forecaster/scenario.py: Scenario.inflation_adjustments',
   U + 'inflation.py: build_inflation_adjust'],
  ['adjustment factors returned for pairs of years'])

P('C05', 'Values for unlisted years come from the right year, inflated',
  'A value for a year that is not listed is taken from the closest earlier '
  'listed year (or, before the first one, from the earliest listed year) and '
  'adjusted by the inflation between the two years; listed years are used '
  'unchanged. The shape of the value (number, list, table) is preserved and '
  'the series itself is not modified.',
  IC, 'every set of listed years, every target year, every value and every '
  'inflation path',
  'Tests check single series under one inflation function.',
  [U + 'inflation.py: nearest_year',
   U + 'inflation.py: extend_inflation_adjusted',
   U + 'inflation.py: build_inflation_adjust'],
  ['value returned for a target year'])

P('C06', "An account's year-end balance follows from what was paid in and out",
  "An account's balance at any time, and the balance carried into the next "
  'year, equals the opening balance plus every transaction, each grown at '
  "that year's rate for exactly the time it was invested; returns are the "
  'remaining difference. Hypothetical transactions affect only the queried '
  'projection, and transactions, balances and rates of past years stay as '
  'they were recorded.',
  IH, 'every opening balance, rate path, compounding method and transaction '
  'history over several years, including several transactions at one time',
  'Tests check one or two transactions at fixed rates; timings, signs and '
  'multi-year histories are unbounded.',
  [A + 'base.py: Account.balance_at_time', A + 'base.py: Account.next_year',
   A + 'base.py: Account.add_transaction', A + 'base.py: Account.returns',
   A + 'base.py: Account.accumulation_function',
   A + 'base.py: Account.get'],
  ['balance at a time, next opening balance, returns, yearly histories'])

P('C07', 'Proposed contributions and withdrawals respect limits and targets',
  'A schedule of transactions proposed to reach a target balance does reach '
  'it, in the proportions of the requested schedule. Schedules proposed as '
  'the largest or smallest contributions or withdrawals have the right '
  "direction, stay within the annual limit, the caller's limits and the "
  'balance limit after taking account of existing transactions, and are as '
  'large as those limits allow; withdrawals never overdraw the account.',
  IH, 'every balance, rate, schedule, set of limits and existing or '
  'hypothetical transactions',
  'Tests cover a few schedules with one limit active at a time.',
  [A + 'base.py: Account.transactions_to_balance',
   A + 'base.py: Account.max_inflows', A + 'base.py: Account.max_outflows',
   A + 'base.py: Account.min_inflows', A + 'base.py: Account.min_outflows',
   A + 'base.py: Account.max_outflow'],
  ['schedules proposed by an account', 'balance after applying them'])

P('C08', 'Debt payments reduce what is owed and never overpay',
  'A debt always has a non-positive balance regardless of the sign it was '
  'given with, and offers no withdrawals. Payments proposed for it are '
  'positive, follow the requested schedule, never exceed what clears the '
  'debt by year end, and respect the minimum payment, the accelerated '
  'payment and any requested limit, whichever is tightest; a debt that has '
  'been paid off asks for nothing more.',
  IH, 'every balance, rate, minimum and accelerated payment, schedule and '
  'prior payment',
  'Tests cover a few balances and schedules.',
  [A + 'debt.py: Debt.max_inflows', A + 'debt.py: Debt.min_inflows',
   A + 'debt.py: Debt.max_inflow', A + 'debt.py: Debt.min_inflow'],
  ['payments proposed, balance after paying them'])

try:
    from spec2 import define
except ImportError:
    define = None


def main():
    if define:
        define(globals())
    PROPS.sort(key=lambda p: p['id'])
    checks = []
    na = {n['property'] for n in NA}
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            note = p.pop('_note', '')
            f.write(json.dumps(p) + '\n')
            if p['id'] in na:
                continue
            if not os.path.exists(os.path.join(
                    HERE, 'harness', p['id'] + '.py')):
                raise SystemExit('no harness for ' + p['id'])
            checks.append({
                'property': p['id'],
                'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'],
                'thorough_cmd': 'python3-vt check.py %s --tier thorough'
                                % p['id'],
                'technique': 'symbolic execution of the real Python code, '
                             'every path obligation decided by z3, '
                             'counterexamples replayed on the plain code',
                'level': 'model_checking',
                'level_note': (
                    'Bounded: holds for all real values of the symbolic '
                    'inputs within the bounds the evidence states. Exact real '
                    'arithmetic, so float rounding is outside the claim; '
                    'trusts z3 and the numeric proxies (path witnesses are '
                    'replayed against the plain code). ' + note).strip()})
    man = {'version': 1,
           'setup_cmd': 'python3-vt -c "import z3" && /opt/venv/bin/python '
                        '-c "import networkx, dateutil, moneyed"',
           'checks': checks, 'not_applicable': NA,
           'notes': 'No hooks in /repo. Each check runs the current '
                    '/repo/forecaster package under the symbolic engine in '
                    'symx/; see DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
