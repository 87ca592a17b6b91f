"""Second half of the property table (see spec.py)."""


def define(g):
    P, IN, IH, IC, IHC = g['P'], g['IN'], g['IH'], g['IC'], g['IHC']
    A = 'forecaster/accounts/'
    C = 'forecaster/canada/accounts/'

    P('C09', 'Accounts that share a limit never exceed it together',
      'Accounts linked to the same owner and token share one contribution or '
      'withdrawal limit: the last limit set applies to all of them and to no '
      'other account. What an account may still contribute or withdraw is '
      'the shared limit less what all linked accounts (including '
      'hypothetical transactions passed along) already have in that '
      'direction; contributions to one never offset withdrawals from '
      'another, and no account is overdrawn.',
      IHC, 'every number of linked accounts, recorded and hypothetical '
      'transactions, balances, limits and schedules',
      'Tests use two accounts with one or two round transactions.',
      [A + 'linked_limit.py: LinkedLimitAccount.max_inflows',
       A + 'linked_limit.py: LinkedLimitAccount.max_outflows',
       A + 'linked_limit.py: LinkedLimitAccount.min_inflows',
       A + 'linked_limit.py: LinkedLimitAccount.min_outflows',
       A + 'link.py: AccountLink'],
      ['limits seen by each account', 'schedules proposed by an account'])

    P('C10', 'Accounts sharing contribution room move through the years as one',
      'Registered accounts with the same contributor and kind (or the same '
      'token) share their contribution room. Advancing any one of them '
      'advances all of them and the contributor to the same year; the new '
      "room is determined exactly once per year for the group and every "
      "account's history holds the room of each year. A room provided as an "
      'input for a year is used instead of a computed one. Giving the same '
      'thing twice under two argument names is an error.',
      IHC, 'every group size, owner/contributor combination, order of '
      'advancing, transaction history and set of overriding inputs',
      'Tests advance one or two accounts once in one order.',
      [C + 'registered_account.py: RegisteredAccount.next_year',
       C + 'registered_account.py: RegisteredAccount._process_alias_args',
       C + 'registered_account.py: RegisteredAccount.contribution_room'],
      ['contribution_room and its history', 'this_year of linked accounts'])

    P('C11', 'TFSA contribution room: accrual, roll-over and withdrawals',
      "A TFSA's contribution room for the next year is this year's room, less "
      "contributions and plus withdrawals made in any linked account, plus "
      "that year's accrual: the listed annual amount, or for unlisted later "
      'years the base amount adjusted for inflation and rounded to the '
      'nearest $500; nothing accrues before the year the contributor turns '
      '18. Room that is not given when the account is set up is everything '
      'accrued since the contributor became eligible, or the last known '
      'earlier room plus what accrued since. TFSA income is never taxable.',
      IHC, 'every contributor age, first year, contribution/withdrawal '
      'history, inflation path and set of known rooms',
      'Tests check single years with fixed amounts and ages.',
      [C + 'tfsa.py: TFSA.next_contribution_room',
       C + 'tfsa.py: TFSA._infer_initial_contribution_rm',
       C + 'tfsa.py: TFSA._contribution_room_accrual'],
      ['contribution_room of every linked account, initially and each year'],
      'One known finding (see known_findings.txt): the inflation adjustment '
      'of later accruals is inverted.')

    P('C12', 'RRSP/RRIF room, conversion, minimum withdrawals and withholding',
      "An RRSP's room for the next year is this year's room, less "
      'contributions to linked accounts, plus the accrual rate times the '
      "contributor's income up to the year's (inflation-adjusted) maximum; no "
      'room after the contributor turns 71. It becomes a RRIF no later than '
      'the year the annuitant turns 71; from the following year a minimum '
      'share of the opening balance, set by the annuitant\'s age, must be '
      'withdrawn. Withdrawals are taxable income and contributions are '
      'deductible, in full. Withholding tax is the bracket rate for the '
      'whole amount withdrawn (for a RRIF, only the part above the minimum), '
      'so it lies between zero and the withdrawal.',
      IHC, 'every age, income, room, balance, set of contributions and '
      'withdrawals, conversion year, statutory table and inflation path',
      'Tests check single accounts with fixed ages and amounts.',
      [C + 'rrsp.py: RRSP.next_contribution_room',
       C + 'rrsp.py: RRSP.minimum_distribution',
       C + 'rrsp.py: RRSP.min_outflow_limit',
       C + 'rrsp.py: RRSP.tax_withheld', C + 'rrsp.py: RRSP.taxable_income',
       C + 'rrsp.py: RRSP.tax_deduction',
       C + 'rrsp.py: RRSP.rrif_conversion_year'],
      ['room, minimum withdrawal, withholding, taxable income and deduction '
       'of each year'])

    P('C13', 'Capital gains and cost base of a taxable account are consistent',
      'Processing the year\'s transactions in time order, contributions add '
      'to the adjusted cost base and each withdrawal realizes the share of '
      'the unrealized gain that it is of the balance at that moment, and '
      'removes the same share of the cost base; so gain equals proceeds less '
      'cost base given up. Half of the gain is taxable income. The result '
      'does not depend on the order transactions were added or on when it '
      'was read, follows every later change to the transactions, and the '
      'cost base carries over to the next year. Values provided as inputs '
      'for a year are used. Gains on a principal residence are not taxed.',
      IH, 'every balance, rate, cost base, transaction sequence, insertion '
      'order and multi-year history',
      'Tests check a handful of fixed transaction sequences.',
      [C + 'taxable_account.py: TaxableAccount.capital_gain',
       C + 'taxable_account.py: TaxableAccount.acb',
       C + 'taxable_account.py: TaxableAccount.add_transaction',
       C + 'taxable_account.py: TaxableAccount.taxable_income',
       C + 'principle_residence.py: PrincipleResidence.taxable_income'],
      ['capital_gain, acb, taxable_income and their histories'])

    T = 'forecaster/tax.py'
    CT = 'forecaster/canada/tax.py'
    P('C14', 'Tax on an amount: each bracket rate on its part of the income',
      'Tax on an amount is the sum over brackets of the rate times the part '
      'of the income (after deductions) inside the bracket, less credits at '
      "the year's credit rate, and never negative. It follows that more "
      'income never lowers tax, that there are no jumps at bracket '
      'boundaries, and that the last units of income are taxed at the '
      'marginal rate. In years that are not listed, thresholds and the '
      'personal deduction (not the rates) follow inflation, whichever years '
      'or figures were asked for before. Combined jurisdictions owe the sum, '
      'and their combined brackets describe that same tax.',
      IHC, 'every bracket table, income, deduction, credit, inflation path '
      'and order of queries',
      'Tests check incomes at and around the boundaries of one table.',
      [T + ': Tax.tax_money', T + ': Tax.tax_brackets', T + ': Tax.accum',
       T + ': Tax.add_accum', T + ': Tax.marginal_bracket',
       T + ': Tax.marginal_rate', T + ': TaxMulti.tax_brackets',
       T + ': TaxMulti.accum'],
      ['tax, brackets, accumulated tax, marginal rate'])

    P('C15', 'Tax owed by people counts everything once, for the right year',
      "A person's tax for a year is the tax on that year's employment and "
      'account income, less the personal deduction, the deductions of all '
      'their accounts and any deduction passed in, each counted once, with '
      'credits likewise. A group (in any kind of collection) owes the sum of '
      'what its members owe; marriage changes nothing unless a jurisdiction '
      'says so. Several jurisdictions each apply their own rules to the same '
      'people. Tax for a past year does not change when later years are '
      'reached.',
      IHC, 'every set of people, accounts, incomes, deductions, credits, '
      'marriages and jurisdictions',
      'Tests compare a few people against the same implementation.',
      [T + ': Tax.tax_person', T + ': Tax.tax_people', T + ': Tax.tax_spouses',
       T + ': Tax.deduction', T + ': Tax.credit', T + ': TaxMulti.__call__',
       'forecaster/person.py: Person.taxable_income',
       'forecaster/person.py: Person.tax_deduction'],
      ['tax owed by a person, a group, several jurisdictions'])

    P('C16', 'Canadian tax: federal plus provincial, pension and spousal amounts',
      'Canadian tax is federal plus provincial tax, each with its own '
      'brackets, deductions and credits. Each person can claim RRSP/RRIF '
      'withdrawals up to the pension amount. In a married couple exactly one '
      'spouse, the one with more net income, can claim the spousal amount '
      "less the other spouse's net income, which is never negative nor more "
      'than the spousal amount; unmarried people claim nothing. All amounts '
      "follow inflation in unlisted years. Past years' tax does not change "
      'as time goes on, and arguments passed in are not modified.',
      IHC, 'every pair of incomes, deductions and withdrawals, marriage '
      'status, year, and set of statutory amounts',
      'Tests check one couple with fixed incomes.',
      [CT + ': TaxCanadaJurisdiction.credit',
       CT + ': TaxCanadaJurisdiction._pension_income_credit',
       CT + ': TaxCanadaJurisdiction._spousal_tax_credit',
       CT + ': TaxCanada.__call__'],
      ['tax and credits of each person and couple, per level'])

    U = 'forecaster/utility/'
    L2 = 'forecaster/ledger/recorded_property.py'
    S = 'forecaster/strategy/'
    P('C17', "Ledgers: recorded values of past years hold still; inputs win",
      "A recorded property follows the object's state until the year is "
      'advanced, and is then recorded: its history holds one value for each '
      'year from the first to the current one, and nothing done later '
      'changes the value of a past year. A value provided as an input for a '
      'year is the value of that year, whatever is computed or assigned; '
      'inputs are not modified. Cached values are worked out at most once a '
      'year until cleared, and one ledger never affects another.',
      IHC, 'every sequence of assignments, reads, deletions, cache '
      'clearings and year changes, with inputs for any subset of years',
      'Tests use one fixed sequence with round numbers.',
      ['forecaster/ledger/base.py: Ledger.next_year', L2 + ': recorded_property',
       L2 + ': recorded_property_cached'],
      ['the property and its _history', 'effect on other ledgers'])

    P('C18', 'High precision: one number type throughout, object by object',
      'An object reports the value it was given, through its own high '
      'precision conversion and never that of another object, also when '
      'values or conversions are changed later. Objects built with high '
      'precision amounts never mix them with ordinary floats (which fails '
      'for Decimal), and give the same results as with ordinary numbers.',
      IHC, 'every conversion, sequence of changes, amount, account, tax '
      'and strategy',
      'Tests build a few Decimal objects and compare single values.',
      [U + 'precision.py: HighPrecisionOptionalProperty',
       U + 'precision.py: HighPrecisionOptionalPropertyCached',
       'forecaster/accounts/base.py: Account.balance_at_time',
       'forecaster/tax.py: Tax.tax_money'],
      ['values reported by each object', 'types of all results'])

    P('C19', 'Asset allocation stays within bounds and drives returns',
      'An allocation adds up to one, has no negative part and keeps equity '
      'between its minimum and maximum (contradictory bounds are refused); '
      'other assets keep their proportions. Each strategy gives the share '
      "its documentation describes: n less age (shifted by how far "
      "retirement departs from the standard age when that is asked for), or "
      'from the maximum down to the target over the transition period '
      'before retirement; growing older or retiring sooner never means more '
      'equity. The rate of return of a year is the average of the returns '
      "of the asset classes in that year, weighted by the mix for the "
      "person's age in that year.",
      IN, 'every age, retirement age, target, bounds, transition period and '
      'path of returns',
      'Tests check a few ages with one set of parameters.',
      [S + 'allocation.py: AllocationStrategy', S + 'allocation.py: '
       'RateFunction', S + 'allocation.py: AssetAllocation'],
      ['allocations returned', 'rates of return of accounts'])

    P('C20', 'Living expenses follow the chosen rule, never below zero',
      'Living expenses are what the chosen rule says: net income less the '
      'inflation-adjusted base; the inflation-adjusted base; the rate times '
      'net or gross income; the adjusted base plus the rate times what net '
      'income exceeds it by; or, adjusted for inflation since the '
      'retirement year, the rate times principal, net or gross income of '
      'the retirement year. The result is never negative, counts every '
      'person (and for principal every account) once, and is the same when '
      'asked again. A schedule uses the retirement rule in years after the '
      'retirement year and the working rule otherwise, but never less than '
      'the minimum rule.',
      IHC, 'every set of people and accounts, income, balance, base, rate, '
      'price path and retirement year',
      'Tests check each rule for one couple and one year.',
      [S + 'gross_transaction.py: LivingExpensesStrategy',
       S + 'gross_transaction.py: LivingExpensesStrategySchedule'],
      ['living expenses returned'])

    P('C21', 'Proposed transactions are possible, and as large as possible',
      'Given money to contribute (or an amount to withdraw) over a year, '
      'the transactions proposed for a priority tree of accounts go one way '
      'only, are spread over the year like the money itself, never break a '
      'limit of an account, of linked accounts or of a node of the tree '
      '(apart from required minimums), overdraw no account and overpay no '
      'debt. Required minimum contributions (as far as there is money) and '
      'minimum withdrawals (always) are included. In total they use all the '
      'money, or as much of it as the accounts can take. Arguments are not '
      'modified and earlier calls have no effect.',
      IHC, 'every tree, amount, schedule, account limit, balance and '
      'minimum',
      'Tests check a dozen trees with fixed amounts.',
      [S + 'transaction/base.py: TransactionTraversal',
       S + 'transaction/graph.py: _generate_flows',
       S + 'transaction/util.py: _convert_flows_to_transactions',
       S + 'transaction/node.py: TransactionNode'],
      ['transactions returned', 'year-end balances with them'],
      'One known finding (see known_findings.txt): accounts sharing a '
      'withdrawal limit can be given too little.')

    P('C22', 'Money goes where the priorities say',
      'In an ordered group no member gets more than its minimum before all '
      'earlier members have as much as they can take. In a weighted group '
      'members get shares in proportion to their weights, except for those '
      'that cannot take theirs (they are full) or whose minimum is more. '
      'This holds at every level of the tree, in both directions, and when '
      'there is too little for all minimums, these are met in the same '
      'order. A tree converted to nodes, or assigned later, means the same.',
      IHC, 'every tree of ordered and weighted groups, amount, limit and '
      'minimum',
      'Tests check a dozen trees with fixed amounts.',
      [S + 'transaction/base.py: TransactionTraversal._add_node_ordered',
       S + 'transaction/base.py: TransactionTraversal._add_node_weighted',
       S + 'transaction/base.py: TransactionTraversal._balance_flows',
       S + 'transaction/node.py: TransactionNode'],
      ['totals of the transactions returned for each account'])

    P('C23', 'Strategies send money to the accounts their settings name',
      'A transaction strategy treats the accounts of each named type (or, '
      'failing that, its nearest named supertype) as one group: ordered '
      'strategies fill groups from the lowest weight up, weighted ones '
      'divide money by weight; members of a group share equally, accounts '
      'of types not named get nothing. Debts of a group are repaid one after '
      'the other, the highest rate (avalanche) or the smallest balance '
      '(snowball) first, after minimum payments; debts at or above the '
      'high-interest threshold come before everything else, and debts that '
      'are paid off make no difference. Payments never exceed what is owed '
      'or allowed.',
      IHC, 'every set of accounts and debts, weights, rates, balances, '
      'minimums, threshold and amount',
      'Tests check two or three accounts with fixed amounts.',
      [S + 'transaction/strategy.py: TransactionStrategy',
       S + 'debt_payment/base.py: DebtPaymentStrategy',
       S + 'debt_payment/util.py: avalanche_priority',
       S + 'debt_payment/util.py: snowball_priority'],
      ['transactions returned'])

    P('C24', 'Marriages and account ownership stay consistent',
      'Marriage is always mutual: whatever was done before (marrying, '
      'divorcing, marrying someone who is married), a person has at most one '
      'spouse, whose spouse is that person, and former spouses are single. '
      'An account is in the accounts of its owner and of nobody else, '
      'however often it changes hands. A person\'s taxable income, deductions '
      'and credits include exactly those of the accounts currently owned. A '
      'rejected spouse or owner (one that is not a person) changes nothing.',
      IH, 'every sequence of marriages, divorces, transfers and rejected '
      'changes, and every income and account',
      'Tests check single changes.',
      ['forecaster/person.py: Person.spouse',
       A + 'base.py: Account.owner',
       'forecaster/person.py: Person.taxable_income'],
      ['spouse, owner, accounts', 'taxable_income, tax_deduction, '
       'tax_credit'])

    P('C25', 'Income follows the raises until retirement; ages are exact',
      'Gross income of each year is that of the year before times one plus '
      "that year's raise, and nothing after the retirement year; values given "
      'as inputs or set for a year are used instead and carried forward. Net '
      'income is gross income less its tax in the same year (or all of it '
      'without a tax treatment), and income tax withheld is that tax. None of '
      'this depends on which values are read or when, and histories hold '
      'every year. The age on any day is the number of birthdays so far; '
      'retirement age and retirement date agree, and retiring before birth '
      'is refused.',
      IH, 'every income, raise, tax rate, retirement date, overriding input, '
      'reading order, birth date and day',
      'Tests use one person with constant raises and a few dates.',
      ['forecaster/person.py: Person.gross_income',
       'forecaster/person.py: Person.net_income',
       'forecaster/person.py: Person.raise_rate',
       'forecaster/person.py: Person.retirement_age',
       'forecaster/person.py: Person.age'],
      ['gross_income, net_income, raise_rate, taxable_income, tax_withheld '
       'and histories', 'age, retirement_age, retirement_date'])

    F = 'forecaster/forecast/'
    P('C26', 'Subforecasts neither create nor lose money',
      'Whatever a subforecast moves leaves one place and arrives at the other '
      'in the same amount, at the same times: cash pools, accounts and the '
      'outside world, in either direction. Its transactions of a year are '
      'recorded with both sides; amounts follow the weights of the timing '
      'given (by default the times at which money is available). Being '
      'called again in a year, or undone, replaces what it did before, once, '
      'and nothing else; the money available before is what is reported; '
      'each year starts afresh and histories keep the transactions of every '
      'year.',
      IH, 'every amount, sign, timing, pair of places, earlier transaction '
      'and sequence of calls, undos and years',
      'Tests move one round amount between one pair of places.',
      [F + 'subforecast.py: SubForecast.add_transaction',
       F + 'subforecast.py: SubForecast.undo_transactions',
       F + 'subforecast.py: SubForecast.__call__',
       F + 'subforecast.py: SubForecast.total_available'],
      ['entries of cash pools and accounts', 'transactions, '
       'transactions_history, total_available'])

    P('C27', 'Money is moved when it is there',
      'In non-strict mode a subforecast moves an amount at the earliest time '
      'from the one asked for at which neither then nor later in the year '
      'does what it is taken from run short (for accounts: considering '
      'growth and withdrawal limits); only if there is no such time, it is '
      'moved as asked. (Times considered are the one asked for, those of '
      'other transactions and those in between at which growth brings an '
      'account up to the amount.) An account reports as time to reach a balance the '
      'first time from the one asked for at which its balance is that, '
      'considering growth and transactions, or infinity if that never '
      'happens.',
      IHC, 'every amount, time, existing transactions, balance, rate, '
      'compounding frequency and limit',
      'Tests use a few round amounts without growth.',
      [F + 'subforecast.py: SubForecast.add_transaction',
       F + 'subforecast.py: SubForecast._shift_when',
       A + 'base.py: Account.time_to_balance'],
      ['time of the transaction', 'time_to_balance'])

    P('C28', 'Income, expenses, savings, withdrawals and taxes of a year',
      'Each year, everyone\'s net income arrives when they are paid, living '
      'expenses are spent once and in proportion to pay, savings and debt '
      'payments leave the money available and arrive in their accounts, and '
      'withdrawals leave the accounts and are available less tax withheld. '
      'The amounts reported (gross and net income, tax withheld, '
      'living expenses, savings, debt repayments, withdrawals, tax owing and '
      'the refund or payment due) are those, also in the histories of '
      'every year, however often a forecast is called in a year and in '
      'whatever order they are read. Tax withheld is counted once per '
      'person and account.',
      IH, 'every number of people and accounts, income, tax, payment '
      'schedule, plan of a strategy, repeated call and number of years',
      'Tests use one person, one year and round amounts.',
      [F + 'income.py: IncomeForecast',
       F + 'living_expenses.py: LivingExpensesForecast',
       F + 'saving.py: SavingForecast',
       F + 'withdrawal.py: WithdrawalForecast',
       F + 'tax.py: TaxForecast'],
      ['money available and in accounts', 'recorded properties and their '
       'histories'],
      'One known finding (see known_findings.txt): WithdrawalForecast adds '
      'tax withheld by RRSPs instead of deducting it.')

    P('C29', 'A forecast carries money over the years and loses none',
      'A forecast goes through every year of its scenario, once and in order, '
      'and everyone, every account and every part of it ends in the last '
      'year. Money not used in a year is available at the start of the '
      'next, and the refund or payment of the year\'s taxes when that is '
      'due (or at the start of the year if nothing says when). In each year '
      'the money available changes by net income, living expenses, savings, '
      'debt payments and net withdrawals, and by nothing else; accounts hold '
      'what was put there and what it grew by. The histories of a forecast '
      'give those amounts for each year; principal is the opening balance '
      'of the assets, without debts. The retirement year is that of the '
      'last one to retire. With the ordinary strategies no account is '
      'overdrawn and no debt overpaid.',
      IHC, 'every income, amount of living expenses, plan of saving and '
      'withdrawing, tax owing, growth, schedule and number of years',
      'Tests mock the parts of a forecast, or run one example for a year or '
      'two.',
      [F + 'forecast.py: Forecast.__init__',
       F + 'forecast.py: Forecast.update_available',
       F + 'forecast.py: Forecast.add_carryover',
       F + 'forecast.py: Forecast.add_tax_carryover',
       F + 'forecast.py: Forecast.principal',
       F + 'forecast.py: Forecast.retirement_year',
       F + 'subforecast.py: SubForecast.__call__'],
      ['money available to the first subforecast of each year and left by '
       'the last', 'account balances', 'histories of the forecast'])

    P('C30', 'A Forecaster follows its settings and leaves its inputs alone',
      'Whatever a Forecaster needs and was not given is built from its '
      'settings at the time: each argument from its setting, unless given '
      'by name or position; inflation comes from the scenario used. Running '
      'a forecast changes neither the people, accounts, contribution rooms '
      'and links passed to it nor the Forecaster; the forecast consists of '
      'copies that belong together. It can be repeated with the same result, '
      'whatever was run in between and however settings changed and changed '
      'back, and later runs leave earlier forecasts alone. With the default '
      'settings, every kind of account is used for saving and withdrawals.',
      IHC, 'every value of every setting, way of giving arguments, set of '
      'people and accounts and sequence of runs',
      'Tests build each parameter once from default settings and run one '
      'forecast.',
      ['forecaster/forecaster.py: Forecaster.run_forecast',
       'forecaster/forecaster.py: Forecaster.build_param',
       'forecaster/forecaster.py: Forecaster.get_param',
       'forecaster/forecaster.py: Forecaster.set_param',
       'forecaster/canada/forecaster.py: ForecasterCanada',
       'forecaster/canada/settings.py: SettingsCanada'],
      ['forecasts returned', 'state of what was passed to it',
       'parameters it builds'])

    V = 'forecaster/value_reader.py: '
    P('C31', 'Settings are read as they are written, whatever the precision',
      'Numbers in a file of settings or constants - as numbers, as text '
      '(unless conversion is off) or as keys - are read as the numbers they '
      'are: whole numbers in text as whole numbers, others with the '
      'high-precision type without loss, or else as the nearest float; '
      'infinities and everything else are kept. What is written with high '
      'precision, including keys, is read again unchanged. An attribute '
      'gives what was last set or read, and after it is deleted, or if it '
      'never was set, the default (if use_defaults is set; otherwise '
      'KeyError); reading a file replaces all values; other settings '
      'objects are not affected.',
      IHC, 'every number (of up to 41 digits), place in a file, precision, '
      'and sequence of changes, deletions and reads',
      'Tests read a handful of short numbers and never delete or write '
      'nested values.',
      [V + 'ValueReader.read', V + 'ValueReader._numeric_convert',
       V + 'ValueReader.write', V + 'HighPrecisionJSONEncoder',
       V + 'ValueReaderAttribute',
       'forecaster/settings.py: Settings',
       'forecaster/canada/settings.py: SettingsCanada',
       'forecaster/canada/constants.py: ConstantsCanada'],
      ['values and attributes after reading', 'files written, read again'])
