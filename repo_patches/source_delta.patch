From ba49a23c84c4e1088ade361ccff9abc794160c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 01/51] fix: Scenario.inflation_adjustments returned the
 inverse of each adjustment factor

---
 forecaster/scenario.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/scenario.py b/forecaster/scenario.py
index 1b77f8c..5549955 100644
--- a/forecaster/scenario.py
+++ b/forecaster/scenario.py
@@ -202,7 +202,7 @@ class Scenario(object):
             (or, for years prior to `base_year`, it is the present value
             of $1 in base_year)
         """
-        return {year: self.accumulation_function(year, base_year)
+        return {year: self.accumulation_function(base_year, year)
                 for year in self}
 
     @property
-- 
2.43.0


From c859f3fc369536428b18e50b4f9093468a37a501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 02/51] fix: Timing built from a frequency code ignored
 high_precision for its default position

---
 forecaster/utility/timing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forecaster/utility/timing.py b/forecaster/utility/timing.py
index 005fddd..ea25303 100644
--- a/forecaster/utility/timing.py
+++ b/forecaster/utility/timing.py
@@ -79,6 +79,8 @@ class Timing(dict):
             if isinstance(when, str) and when in FREQUENCY_MAPPING:
                 frequency = when
                 when = WHEN_DEFAULT  # default value
+                if high_precision is not None:
+                    when = high_precision(when)
             # Arguments might be str-valued; make them numeric:
             when = when_conv(when, high_precision=high_precision)
             frequency = frequency_conv(frequency)
-- 
2.43.0


From 7a622440a7e477f5488402a66cd36fad05ed171d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 03/51] fix: Account.get raised TypeError and never returned
 the transaction

---
 forecaster/accounts/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 6f4fc12..6bec04e 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -877,7 +877,7 @@ class Account(TaxSource):
 
     def get(self, key, default=None):
         """ Gets the transaction value at a particular timing. """
-        self._transactions.get(key, default=default)
+        return self._transactions.get(key, default)
 
     def clear(self):
         """ Clears all of the account's transactions. """
-- 
2.43.0


From 5e166edbe5dff7f1539861b89cc937dff83247a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 04/51] fix: Account.balance grew last year's money at this
 year's rate

---
 forecaster/accounts/base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 6bec04e..6a0c721 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -227,12 +227,18 @@ class Account(TaxSource):
         # This method isn't hidden in __init__; it's assigned to (by a
         # setter defined via metaclass)
 
+        # Last year's growth is determined by last year's rate (which may
+        # be different from this year's):
+        # pylint: disable=no-member
+        # Pylint gets confused by attributes added by metaclass.
+        rate = self._rate_history[self.this_year - 1]
+
         # First, grow last year's initial balance based on the rate:
         balance = value_at_time(
             # pylint: disable=no-member
             # Pylint gets confused by attributes added by metaclass.
             self._balance_history[self.this_year - 1],
-            self.rate, 'start', 'end', nper=self.nper,
+            rate, 'start', 'end', nper=self.nper,
             high_precision=self.high_precision)
 
         # Then, grow each transactions and add it to the year-end total.
@@ -243,7 +249,7 @@ class Account(TaxSource):
         transactions_history = self._transactions_history
         for when, value in transactions_history[self.this_year - 1].items():
             balance += value_at_time(
-                value, self.rate, when, 'end', nper=self.nper,
+                value, rate, when, 'end', nper=self.nper,
                 high_precision=self.high_precision)
 
         return balance
-- 
2.43.0


From 74ab65f1f05cb046704352118d58b173ef0a0bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 05/51] fix: LinkedLimitAccount outflow-limit setters overwrote
 the inflow limits

---
 forecaster/accounts/linked_limit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/accounts/linked_limit.py b/forecaster/accounts/linked_limit.py
index ac5b669..e5b9b0a 100644
--- a/forecaster/accounts/linked_limit.py
+++ b/forecaster/accounts/linked_limit.py
@@ -111,7 +111,7 @@ class LinkedLimitAccount(Account):
     @max_outflow_limit.setter
     def max_outflow_limit(self, value):
         """ Sets max_outflow_limit. """
-        self._set_limit(self.max_inflow_link, value)
+        self._set_limit(self.max_outflow_link, value)
 
     @property
     def min_outflow_limit(self):
@@ -122,7 +122,7 @@ class LinkedLimitAccount(Account):
     @min_outflow_limit.setter
     def min_outflow_limit(self, value):
         """ Sets min_outflow_limit. """
-        self._set_limit(self.min_inflow_link, value)
+        self._set_limit(self.min_outflow_link, value)
 
     def _get_limit(self, link, default=None):
         """ Gets the limit for a given linked group of accounts.
-- 
2.43.0


From ac527752fe7013713ad3da09b1156670c659bb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 06/51] fix: linked accounts netted each other's transactions
 when sharing a limit

Transactions of the other linked accounts were merged into this account's,
so an inflow to one account cancelled an outflow of another at the same
time and this account's projected balance included other accounts' money.
---
 forecaster/accounts/linked_limit.py | 178 ++++++++++++++++------------
 1 file changed, 101 insertions(+), 77 deletions(-)

diff --git a/forecaster/accounts/linked_limit.py b/forecaster/accounts/linked_limit.py
index e5b9b0a..97f87d4 100644
--- a/forecaster/accounts/linked_limit.py
+++ b/forecaster/accounts/linked_limit.py
@@ -1,9 +1,7 @@
 """ A module providing the LinkedLimitAccount class. """
 
-from copy import copy
 from forecaster.accounts.base import Account
 from forecaster.accounts.link import AccountLink
-from forecaster.utility import add_transactions
 
 class LinkedLimitAccount(Account):
     """ An account with inflow/outflow limits linked to other accounts.
@@ -195,16 +193,8 @@ class LinkedLimitAccount(Account):
             link.data = limit
         return link
 
-    def _merge_transactions(self, transactions, group_transactions, link):
-        """ Merges `group_transactions` and `transactions`.
-
-        Only linked accounts have their transactions in
-        `group_transactions` added to `transactions`. Any keys in
-        `group_transactions` which are not linked (per `link`) are
-        ignored.
-
-        If `transactions` is provided, any transactions for this account
-        in `group_transactions` are ignored.
+    def _own_transactions(self, transactions, group_transactions):
+        """ The hypothetical transactions to/from this account only.
 
         Args:
             transactions (Union[dict[Number, Money], NoneType]): A
@@ -213,52 +203,55 @@ class LinkedLimitAccount(Account):
             group_transactions
                 (Union[dict[Account, dict[Number, Money]], NoneType]):
                 A mapping of `Account` keys to `transactions`-like
-                values. Keys not linked (according to `link`) are
-                ignored.
+                values. Any transactions for this account are ignored
+                if `transactions` is provided.
+
+        Returns:
+            Union[dict[Number, Money], NoneType]: `transactions`, if
+            provided, or else this account's transactions in
+            `group_transactions` (or `None` if there aren't any).
+        """
+        if transactions is None and group_transactions is not None:
+            transactions = group_transactions.get(self)
+        return transactions
+
+    def _shared_limit(
+            self, limit, flows, transactions, group_transactions, link):
+        """ What's left of a limit after every linked account's flows.
+
+        Args:
+            limit (Money): The limit shared by the linked accounts.
+            flows (str): The name of the `Account` method which sums the
+                flows that use up `limit` ('inflows' or 'outflows').
+            transactions (dict[Number, Money]): Hypothetical
+                transactions for this account. May be `None`.
+            group_transactions (dict[Account, dict[Number, Money]]):
+                Hypothetical transactions for the other accounts. May
+                be `None`. Accounts not linked (according to `link`)
+                are ignored.
             link (AccountLink): An object defining a collection of
                 linked accounts.
 
         Returns:
-            dict[Number, Money]: A time-series of transactions formed
-            by merging `transactions` (if provided) with the
-            transactions mapped by any accounts of `group_transactions`
-            (if provided) which are linked to this account.
+            Union[Money, NoneType]: The remaining limit, or `None` if
+            the limit is not shared with any accounts.
         """
-        # For convenience, use an empty iterable rather than `None`:
-        if group_transactions is None:
-            group_transactions = set()
-
-        # We want to return `transactions`, but we don't want to mutate
-        # any of the inputs, so copy it first:
-        if transactions is not None:
-            transactions = copy(transactions)
-        elif self in group_transactions:
-            # If `transactions` isn't given, but this account is
-            # represented in `group_transactions`, use that:
-            transactions = copy(group_transactions[self])
-        else:
-            # Otherwise, just start with a empty dict to fill later:
-            transactions = {}
-
-        # If this account isn't linked (for this type of inflow/outflow,
-        # anyways), we're done:
         if link is None:
-            return transactions
-
-        # Otherwise, merge the transactions for each other linked
-        # account in the group (note that this account is handled above)
-        group = link.group - {self}
-        for account in group:
-            # Add the transactions already recorded against the account:
-            add_transactions(transactions, account.transactions)
-            # And add any additional transactions, if present in
-            # `group_transactions`:
-            if account in group_transactions:
-                add_transactions(transactions, group_transactions[account])
-        return transactions
+            return None
+        if group_transactions is None:
+            group_transactions = {}
+        limit = limit - getattr(self, flows)(transactions)
+        for account in link.group:
+            # NOTE: Flows are summed account by account; transactions of
+            # different accounts must not be netted against each other.
+            if account is not self:
+                limit = limit - getattr(account, flows)(
+                    group_transactions.get(account))
+        return limit
 
     def max_inflows(
-            self, *args, transactions=None, group_transactions=None, **kwargs):
+            self, timing=None, transaction_limit=None, *args,
+            transactions=None, group_transactions=None, **kwargs):
         """ The maximum amounts that can be contributed to the account.
 
         This overloaded method simply provides a new argument
@@ -272,8 +265,8 @@ class LinkedLimitAccount(Account):
             group_transactions (dict[Account, dict[Number, Money]]):
                 A mapping of `Account` keys to `transactions`-like
                 values. Any transactions mapped to accounts with a max
-                inflow limit linked to this one will be added to
-                `transactions` when determining the result. Optional.
+                inflow limit linked to this one will count towards that
+                limit when determining the result. Optional.
 
         Returns:
             dict[float, Money]: A mapping of `{when: value}` pairs where
@@ -282,14 +275,22 @@ class LinkedLimitAccount(Account):
         # pylint: disable=too-many-arguments,arguments-differ
         # This method just adds an extra optional argument.
 
-        # Merge `transactions` and `group_transactions`:
-        transactions = self._merge_transactions(
-            transactions, group_transactions, self.max_inflow_link)
+        transactions = self._own_transactions(transactions, group_transactions)
+        # Don't exceed whatever other linked accounts have left over:
+        limit = self._shared_limit(
+            self.max_inflow_limit, 'inflows', transactions,
+            group_transactions, self.max_inflow_link)
+        if limit is not None:
+            transaction_limit = (
+                limit if transaction_limit is None
+                else min(limit, transaction_limit))
         return super().max_inflows(
-            *args, transactions=transactions, **kwargs)
+            timing, transaction_limit, *args,
+            transactions=transactions, **kwargs)
 
     def max_outflows(
-            self, *args, transactions=None, group_transactions=None, **kwargs):
+            self, timing=None, transaction_limit=None, *args,
+            transactions=None, group_transactions=None, **kwargs):
         """ The maximum amounts that can be withdrawn from the account.
 
         This overloaded method simply provides a new argument
@@ -303,8 +304,8 @@ class LinkedLimitAccount(Account):
             group_transactions (dict[Account, dict[Number, Money]]):
                 A mapping of `Account` keys to `transactions`-like
                 values. Any transactions mapped to accounts with a max
-                outflow limit linked to this one will be added to
-                `transactions` when determining the result. Optional.
+                outflow limit linked to this one will count towards that
+                limit when determining the result. Optional.
 
         Returns:
             dict[float, Money]: A mapping of `{when: value}` pairs where
@@ -313,14 +314,22 @@ class LinkedLimitAccount(Account):
         # pylint: disable=too-many-arguments,arguments-differ
         # This method just adds an extra optional argument.
 
-        # Merge `transactions` and `group_transactions`:
-        transactions = self._merge_transactions(
-            transactions, group_transactions, self.max_outflow_link)
+        transactions = self._own_transactions(transactions, group_transactions)
+        # Don't exceed whatever other linked accounts have left over:
+        limit = self._shared_limit(
+            self.max_outflow_limit, 'outflows', transactions,
+            group_transactions, self.max_outflow_link)
+        if limit is not None:
+            transaction_limit = (
+                limit if transaction_limit is None
+                else max(limit, transaction_limit))
         return super().max_outflows(
-            *args, transactions=transactions, **kwargs)
+            timing, transaction_limit, *args,
+            transactions=transactions, **kwargs)
 
     def min_inflows(
-            self, *args, transactions=None, group_transactions=None, **kwargs):
+            self, timing=None, transaction_limit=None, *args,
+            transactions=None, group_transactions=None, **kwargs):
         """ The minimum amounts that must be contributed to the account.
 
         This overloaded method simply provides a new argument
@@ -334,8 +343,8 @@ class LinkedLimitAccount(Account):
             group_transactions (dict[Account, dict[Number, Money]]):
                 A mapping of `Account` keys to `transactions`-like
                 values. Any transactions mapped to accounts with a min
-                inflow limit linked to this one will be added to
-                `transactions` when determining the result. Optional.
+                inflow limit linked to this one will count towards that
+                limit when determining the result. Optional.
 
         Returns:
             dict[float, Money]: A mapping of `{when: value}` pairs where
@@ -344,14 +353,22 @@ class LinkedLimitAccount(Account):
         # pylint: disable=too-many-arguments,arguments-differ
         # This method just adds an extra optional argument.
 
-        # Merge `transactions` and `group_transactions`:
-        transactions = self._merge_transactions(
-            transactions, group_transactions, self.min_inflow_link)
+        transactions = self._own_transactions(transactions, group_transactions)
+        # Don't exceed whatever other linked accounts have left over:
+        limit = self._shared_limit(
+            self.min_inflow_limit, 'inflows', transactions,
+            group_transactions, self.min_inflow_link)
+        if limit is not None:
+            transaction_limit = (
+                limit if transaction_limit is None
+                else min(limit, transaction_limit))
         return super().min_inflows(
-            *args, transactions=transactions, **kwargs)
+            timing, transaction_limit, *args,
+            transactions=transactions, **kwargs)
 
     def min_outflows(
-            self, *args, transactions=None, group_transactions=None, **kwargs):
+            self, timing=None, transaction_limit=None, *args,
+            transactions=None, group_transactions=None, **kwargs):
         """ The minimum amounts that must be withdrawn from the account.
 
         This overloaded method simply provides a new argument
@@ -365,8 +382,8 @@ class LinkedLimitAccount(Account):
             group_transactions (dict[Account, dict[Number, Money]]):
                 A mapping of `Account` keys to `transactions`-like
                 values. Any transactions mapped to accounts with a min
-                outflow limit linked to this one will be added to
-                `transactions` when determining the result. Optional.
+                outflow limit linked to this one will count towards that
+                limit when determining the result. Optional.
 
         Returns:
             dict[float, Money]: A mapping of `{when: value}` pairs where
@@ -375,8 +392,15 @@ class LinkedLimitAccount(Account):
         # pylint: disable=too-many-arguments,arguments-differ
         # This method just adds an extra optional argument.
 
-        # Merge `transactions` and `group_transactions`:
-        transactions = self._merge_transactions(
-            transactions, group_transactions, self.min_outflow_link)
+        transactions = self._own_transactions(transactions, group_transactions)
+        # Don't exceed whatever other linked accounts have left over:
+        limit = self._shared_limit(
+            self.min_outflow_limit, 'outflows', transactions,
+            group_transactions, self.min_outflow_link)
+        if limit is not None:
+            transaction_limit = (
+                limit if transaction_limit is None
+                else max(limit, transaction_limit))
         return super().min_outflows(
-            *args, transactions=transactions, **kwargs)
+            timing, transaction_limit, *args,
+            transactions=transactions, **kwargs)
-- 
2.43.0


From 94b0427c87d59a6d86a13871997dc1761eee0ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 07/51] fix: contribution room roll-over ignored contributions
 to linked accounts

---
 forecaster/canada/accounts/rrsp.py | 4 +++-
 forecaster/canada/accounts/tfsa.py | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/accounts/rrsp.py b/forecaster/canada/accounts/rrsp.py
index b1353a9..993c23a 100644
--- a/forecaster/canada/accounts/rrsp.py
+++ b/forecaster/canada/accounts/rrsp.py
@@ -214,7 +214,9 @@ class RRSP(RegisteredAccount):
                 self.inflation_adjust,
                 year + 1)
             # Don't forget to add in any rollovers:
-            rollover = self.contribution_room - self.inflows()
+            # (Contributions to any linked account use up room.)
+            rollover = self.contribution_room - sum(
+                account.inflows() for account in self.max_inflow_link.group)
             return min(
                 accrual,
                 max_accrual # Money value
diff --git a/forecaster/canada/accounts/tfsa.py b/forecaster/canada/accounts/tfsa.py
index 4fb2cbb..bc1299f 100644
--- a/forecaster/canada/accounts/tfsa.py
+++ b/forecaster/canada/accounts/tfsa.py
@@ -125,7 +125,10 @@ class TFSA(RegisteredAccount):
         contribution_room = self._contribution_room_accrual(self.this_year + 1)
         # On top of this year's accrual, roll over unused contribution
         # room, plus any withdrawals (less contributions) from last year
-        rollover = self.contribution_room - (self.outflows() + self.inflows())
+        # (including those of any linked accounts, which share the room).
+        rollover = self.contribution_room - sum(
+            account.outflows() + account.inflows()
+            for account in self.max_inflow_link.group)
         return contribution_room + rollover
 
     @recorded_property
-- 
2.43.0


From 3a7f07623dca3d93c1b2a52a4a289bd93296e1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 08/51] fix: TFSA room accrued a year before the contributor
 was eligible

---
 forecaster/canada/accounts/tfsa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/accounts/tfsa.py b/forecaster/canada/accounts/tfsa.py
index bc1299f..006efc8 100644
--- a/forecaster/canada/accounts/tfsa.py
+++ b/forecaster/canada/accounts/tfsa.py
@@ -102,8 +102,8 @@ class TFSA(RegisteredAccount):
 
         This excludes any rollovers - it's just the statutory accrual.
         """
-        # No accrual if the owner is too young to qualify:
-        if self.owner.age(year + 1) < self.constants.TFSA_ELIGIBILITY_AGE:
+        # No accrual if the contributor is too young to qualify:
+        if self.contributor.age(year) < self.constants.TFSA_ELIGIBILITY_AGE:
             return self.precision_convert(0) # Money value
 
         # If we already have an accrual rate set for this year, use that
-- 
2.43.0


From 00d8ba6942c04c5a2875dfe1721fa066bc4e33a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 09/51] fix: RRIF withholding tax was charged on the minimum
 withdrawal, twice

---
 forecaster/canada/accounts/rrsp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/accounts/rrsp.py b/forecaster/canada/accounts/rrsp.py
index 993c23a..9b1bbb5 100644
--- a/forecaster/canada/accounts/rrsp.py
+++ b/forecaster/canada/accounts/rrsp.py
@@ -145,8 +145,10 @@ class RRSP(RegisteredAccount):
             taxable_income = self.taxable_income
         else:
             # Only withdrawals in excess of the minimum RRIF withdrawal
-            # are hit by the withholding tax.
-            taxable_income = self.taxable_income - self.min_outflow_limit
+            # are hit by the withholding tax. (Outflows are negative.)
+            taxable_income = max(
+                self.taxable_income + self.min_outflow_limit,
+                self.precision_convert(0)) # Money value
 
         year = nearest_year(
             self.constants.RRSP_WITHHOLDING_TAX_RATE,
-- 
2.43.0


From d2761b6338e890be47e00a79b7245711c3f0585b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:22 +0000
Subject: [PATCH 10/51] fix: TFSA could not be built from inputs for later
 years only

---
 forecaster/canada/accounts/tfsa.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/forecaster/canada/accounts/tfsa.py b/forecaster/canada/accounts/tfsa.py
index 006efc8..e19630c 100644
--- a/forecaster/canada/accounts/tfsa.py
+++ b/forecaster/canada/accounts/tfsa.py
@@ -73,12 +73,13 @@ class TFSA(RegisteredAccount):
         # before this initial_year (e.g. due to `input`), in which
         # case we should extrapolate from that year onwards:
         # (See above note re: `_contribution_room_history`)
-        if self._contribution_room_history:
+        past_years = [
+            year for year in self._contribution_room_history
+            if year < self.initial_year]
+        if past_years:
             # Get the last year for which there is data and the
             # contribution room recorded for that year:
-            last_year = max(
-                year for year in self._contribution_room_history
-                if year < self.initial_year)
+            last_year = max(past_years)
             contribution_room = self._contribution_room_history[last_year]
             # We'll add up accruals starting the year after that:
             start_year = last_year + 1
-- 
2.43.0


From 0013defa906989774d42fdb50262ca72c24602ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 11/51] fix: RRIF minimum withdrawals used the contributor's
 age instead of the annuitant's

---
 forecaster/canada/accounts/rrsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/canada/accounts/rrsp.py b/forecaster/canada/accounts/rrsp.py
index 9b1bbb5..599fe0a 100644
--- a/forecaster/canada/accounts/rrsp.py
+++ b/forecaster/canada/accounts/rrsp.py
@@ -246,7 +246,7 @@ class RRSP(RegisteredAccount):
         # Minimum withdrawals are required the year after converting to
         # an RRIF. How it is calculated depends on the person's age.
         if self.rrif_conversion_year < self.this_year:
-            age = self.contributor.age(self.this_year)
+            age = self.owner.age(self.this_year)
             if age in rrif_withdrawal_min:
                 return (
                     self.precision_convert(rrif_withdrawal_min[age])
-- 
2.43.0


From 9feac2a6940c4ae68e9aadb11e56ca0c8ac05a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 12/51] fix: TaxableAccount ignored acb and capital_gain inputs
 and removed transactions

---
 forecaster/canada/accounts/taxable_account.py | 33 +++++++++++++++++--
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/forecaster/canada/accounts/taxable_account.py b/forecaster/canada/accounts/taxable_account.py
index 9bd3d78..851b83f 100644
--- a/forecaster/canada/accounts/taxable_account.py
+++ b/forecaster/canada/accounts/taxable_account.py
@@ -80,6 +80,10 @@ class TaxableAccount(Account):
         activity. Therefore, changing any transactions will affect
         capital_gain.
         """
+        return self._realize_capital_gain()
+
+    def _realize_capital_gain(self):
+        """ Determines this year's capital gain and next year's acb. """
         acb = self.acb
         capital_gain = self.precision_convert(0)
         transactions = self.transactions
@@ -106,18 +110,41 @@ class TaxableAccount(Account):
                 acb *= self.precision_convert(1) - (-value / balance)
 
         # We've generated the ACB for the next year, so store it now.
-        self._acb_history[self.this_year + 1] = acb
+        # (But don't overwrite user input.)
+        if self.this_year + 1 not in self.inputs.get('acb', {}):
+            self._acb_history[self.this_year + 1] = acb
         return capital_gain
 
+    def next_year(self):
+        # If `capital_gain` was provided as an input then next year's
+        # acb won't have been determined yet.
+        if self.this_year + 1 not in self._acb_history:
+            self._realize_capital_gain()
+        super().next_year()
+
     def add_transaction(self, value, when='end'):
         super().add_transaction(value, when)
+        self._invalidate_capital_gain()
+
+    def __delitem__(self, key):
+        super().__delitem__(key)
+        self._invalidate_capital_gain()
+
+    def clear(self):
+        super().clear()
+        self._invalidate_capital_gain()
+
+    def _invalidate_capital_gain(self):
+        """ Removes cached values (but not inputs) for capital gains. """
         # Invalidate the cache for acb and capital gains, since
         # transactions will affect it.
         # pylint: disable=no-member
         # Pylint gets confused by attributes added via metaclass.
         # All `_*_history` members are dicts added automatically:
-        self._capital_gain_history.pop(self.this_year, None)
-        self._acb_history.pop(self.this_year + 1, None)
+        if self.this_year not in self.inputs.get('capital_gain', {}):
+            self._capital_gain_history.pop(self.this_year, None)
+        if self.this_year + 1 not in self.inputs.get('acb', {}):
+            self._acb_history.pop(self.this_year + 1, None)
 
     @recorded_property
     def taxable_income(self):
-- 
2.43.0


From bb253e542c6a1a82f27e6ede97f54c8e4456abbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 13/51] fix: tax deductions and credits of a person were
 counted twice

---
 forecaster/tax.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 52b744e..fbd43e6 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -403,14 +403,9 @@ class Tax(HighPrecisionOptional):
             float: The tax liability of the person.
         """
         taxable_income = person.taxable_income_history[year]
-        deduction = (
-            person.tax_deduction_history[year]
-            + self.deduction(person, year)
-            + deduction)
-        credit = (
-            person.tax_credit_history[year]
-            + self.credit(person, year)
-            + credit)
+        # (These include the tax_deduction and tax_credit of `person`.)
+        deduction = self.deduction(person, year) + deduction
+        credit = self.credit(person, year) + credit
         return self.tax_money(taxable_income, year, deduction, credit)
 
     def tax_people(self, people, year, deduction=None, credit=None):
-- 
2.43.0


From 0d499875a1211593ab0903392d9d31f1565c0237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 14/51] fix: Tax.accum inflated the rates instead of the
 brackets of unlisted years

---
 forecaster/tax.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index fbd43e6..72b3b1d 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -213,12 +213,10 @@ class Tax(HighPrecisionOptional):
     def accum(self, year, bracket=None):
         """ The accumulated tax payable for a given tax bracket. """
         # If we don't have this accum, we'll need to generate it.
-        # add_brackets() does this for us.
+        # tax_brackets() does this for us (via add_brackets()) when it
+        # generates the inflation-adjusted tax brackets for this year.
         if year not in self._accum:
-            # Get the inflation-adjusted tax brackets for this year:
-            brackets = extend_inflation_adjusted(
-                self._tax_brackets, self.inflation_adjust, year)
-            self.add_brackets(brackets, year)
+            self.tax_brackets(year)
         if bracket is None:
             return self._accum[year]
         return self._accum[year][bracket]
-- 
2.43.0


From 8beb1ce5302b7ce4995865a46570be194738d199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 15/51] fix: TaxMulti methods failed (or returned zero rates)
 for the combined jurisdictions

---
 forecaster/tax.py | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 72b3b1d..e29aeda 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -662,13 +662,13 @@ class TaxMulti(object):
     def tax_brackets(self, year, bracket=None):
         """ Combined tax brackets for year. """
         # If `bracket` is provided, we return a scalar:
+        # (Look it up in the combined brackets, since a jurisdiction's
+        # own brackets might not include it.)
         if bracket is not None:
-            return sum(
-                tax.tax_brackets(year=year, bracket=bracket)
-                for tax in self.jurisdictions)
+            return self.tax_brackets(year)[bracket]
         # Otherwise we return a dict.
         # Get a dict for each jurisdiction:
-        brackets = (tax.tax_brackets(year=year) for tax in self.jurisdictions)
+        brackets = [tax.tax_brackets(year=year) for tax in self.jurisdictions]
         # Collect all the keys of the dicts (ignoring duplicates):
         bracket_keys = set.union(*(set(bracket) for bracket in brackets))
         combined_brackets = {}
@@ -679,14 +679,24 @@ class TaxMulti(object):
             combined_brackets[key] = sum(
                 bracket[
                     max(inner_key for inner_key in bracket if inner_key <= key)]
-                for bracket in brackets)
+                for bracket in brackets
+                if min(bracket) <= key)
         return combined_brackets
 
     def accum(self, year, bracket=None):
         """ The accumulated tax payable for a given tax bracket. """
-        return sum(
-            tax.accum(year=year, bracket=bracket)
-            for tax in self.jurisdictions)
+        # Accumulate over the combined brackets, since the jurisdictions'
+        # brackets might not align.
+        combined_brackets = self.tax_brackets(year)
+        accum = {}
+        total, prev = 0, None
+        for key in sorted(combined_brackets):
+            if prev is not None:
+                total += (key - prev) * combined_brackets[prev]
+            accum[key], prev = total, key
+        if bracket is None:
+            return accum
+        return accum[bracket]
 
     def personal_deduction(self, year):
         """ Personal deduction for `year`. """
@@ -694,7 +704,7 @@ class TaxMulti(object):
 
     def deduction(self, person, year):
         """ The deductions the person is eligible for. """
-        return self.jurisdictions[0].deductions(
+        return self.jurisdictions[0].deduction(
             person=person, year=year)
 
     def credit(self, person, year, deduction=None):
@@ -726,8 +736,8 @@ class TaxMulti(object):
             self, taxable_income, year, deductions=None, credits_=None):
         """ Returns taxes owing on a given amount of taxable income. """
         # Wrap args in defaultdicts to avoid key errors:
-        deductions = make_defaultdict(deductions)
-        credits_ = make_defaultdict(credits_)
+        deductions = make_defaultdict(deductions, lambda: 0)
+        credits_ = make_defaultdict(credits_, lambda: 0)
         # Add up all jurisdictions' tax treatment:
         return sum(
             tax.tax_money(
@@ -739,8 +749,8 @@ class TaxMulti(object):
             self, person, year, deductions=None, credits_=None):
         """ Returns tax treatment for an individual person. """
         # Wrap args in defaultdicts to avoid key errors:
-        deductions = make_defaultdict(deductions)
-        credits_ = make_defaultdict(credits_)
+        deductions = make_defaultdict(deductions, lambda: 0)
+        credits_ = make_defaultdict(credits_, lambda: 0)
         # Add up all jurisdictions' tax treatment:
         return sum(
             tax.tax_person(
-- 
2.43.0


From 6d7904aad994aae48d766f07e5c529433b7598fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 16/51] fix: Canadian credits for a past year were based on the
 current year's income

---
 forecaster/canada/tax.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index b8d41e7..cc6e306 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -73,8 +73,9 @@ class TaxCanadaJurisdiction(Tax):
         Returns:
             Money: The amount of the credit claimable by person in year.
         """
+        # (The taxable income of an RRSP is the amount withdrawn from it.)
         pension_income = abs(sum(
-            account.outflows() for account in person.accounts
+            account.taxable_income_history[year] for account in person.accounts
             if isinstance(account, RRSP)))
             # NOTE: Other qualified pension income sources can be
             # added here
@@ -123,14 +124,14 @@ class TaxCanadaJurisdiction(Tax):
         # This would help to avoid calling self.deductions many times.
         spouse = person.spouse
         spouse_net_income = (
-            spouse.taxable_income - self.deduction(spouse, year))
+            spouse.taxable_income_history[year] - self.deduction(spouse, year))
 
         # Figure out whether to assign the credit to this person or
         # their spouse based on who has more income:
 
         # If this is the lower-earner, use their spouse instead:
         person_net_income = (
-            person.taxable_income - self.deduction(person, year))
+            person.taxable_income_history[year] - self.deduction(person, year))
         if person_net_income < spouse_net_income:
             return 0 # Money value
         # If their incomes are the same, use memory location to
-- 
2.43.0


From b3c495d8d0c3d9e0b161b4f712b6a55c89dd97b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 17/51] fix: TaxCanadaJurisdiction did not use high_precision
 for its own arithmetic

---
 forecaster/canada/tax.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index cc6e306..a27255c 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -29,6 +29,7 @@ class TaxCanadaJurisdiction(Tax):
             inflation_adjust=inflation_adjustments,
             refund_timing=self.constants.TAX_REFUND_TIMING,
             payment_timing=self.constants.TAX_PAYMENT_TIMING,
+            high_precision=high_precision,
             **kwargs)
 
         self.jurisdiction = jurisdiction
-- 
2.43.0


From eb97d652db6246a39b67581ab27a89e089dd1fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 18/51] fix: spousal amount could exceed its maximum when the
 spouse had unused deductions

---
 forecaster/canada/tax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index a27255c..02d28e2 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -145,7 +145,7 @@ class TaxCanadaJurisdiction(Tax):
         # by the spouse's (net) income, but in any event it's not
         # negative.
         credit = max(
-            max_spousal_amount - spouse_net_income,
+            max_spousal_amount - max(spouse_net_income, 0),
             0) # Money value
 
         return credit
-- 
2.43.0


From 3f71d295e78eafb0e9205af201388765b58ecc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 19/51] fix: TaxCanada changed the deduction and credit
 arguments of its caller

---
 forecaster/canada/tax.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index 02d28e2..773abed 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -226,11 +226,11 @@ class TaxCanada(TaxMulti, HighPrecisionOptional):
         # by the superclass), or they can pass in `federal_*` and/or
         # `provincial_*` scalars which we'll wrap up appropriately.
         if "deductions" in kwargs:
-            deductions = kwargs["deductions"]
+            deductions = dict(kwargs["deductions"] or {})
         else:
             deductions = {}
         if "credits_" in kwargs:
-            credits_ = kwargs["credits_"]
+            credits_ = dict(kwargs["credits_"] or {})
         else:
             credits_ = {}
 
-- 
2.43.0


From 787c44eaefd68e62691dfe5413110a1e1c4b889d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 20/51] fix: taxes could not be determined for a list of people

---
 forecaster/tax.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index e29aeda..ff244c8 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -433,6 +433,8 @@ class Tax(HighPrecisionOptional):
         if not people:
             return self.precision_convert(0)
 
+        # We remove people below, so use a set (not, e.g., a list):
+        people = set(people)
         # Otherwise, grab someone at random and determine their taxes.
         person = next(iter(people))
 
-- 
2.43.0


From 728e4397fc76b472e337e0524707d91f20b37a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:04 +0000
Subject: [PATCH 21/51] fix: high-precision property cache was shared between
 objects, so one object could report another's value

---
 forecaster/utility/precision.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/forecaster/utility/precision.py b/forecaster/utility/precision.py
index a2e85cd..0e55430 100644
--- a/forecaster/utility/precision.py
+++ b/forecaster/utility/precision.py
@@ -107,9 +107,14 @@ class HighPrecisionOptionalPropertyCached(HighPrecisionOptionalProperty):
 
     def __init__(self):
         super().__init__()
-        # Cached values (for efficient calls to __get__):
-        self._high_precision_cache = None
-        self._high_precision_value_cache = None
+        # Set by __set_name__
+        self._cache_name = None
+
+    def __set_name__(self, owner, name):
+        super().__set_name__(owner, name)
+        # Cached values (for efficient calls to __get__) are stored on
+        # each object (there is only one descriptor for all of them):
+        self._cache_name = self.private_name + '_high_precision_cache'
 
     def __get__(self, obj, objtype=None, *, high_precision=None):
         # When called by metaclass on class init, `obj` is None:
@@ -127,13 +132,14 @@ class HighPrecisionOptionalPropertyCached(HighPrecisionOptionalProperty):
 
         # Check to see if the previous return value is cached and can
         # be used for these inputs:
+        cache = getattr(obj, self._cache_name, None)
         if (
                 # Confirm we have a cached value (this fails if a new
                 # value has been set since the last call to __get__):
-                self._high_precision_value_cache is not None and
+                cache is not None and
                 # Confirm that the conversion method is the same:
-                self._high_precision_cache == high_precision):
-            return self._high_precision_value_cache
+                cache[0] == high_precision):
+            return cache[1]
 
         # If we can't use the cache, calculate a fresh value:
         value = super().__get__(
@@ -143,15 +149,14 @@ class HighPrecisionOptionalPropertyCached(HighPrecisionOptionalProperty):
             high_precision=high_precision)
 
         # Update the cache to make the next call more efficient:
-        self._high_precision_value_cache = value
-        self._high_precision_cache = high_precision
+        setattr(obj, self._cache_name, (high_precision, value))
 
         return value
 
     def __set__(self, obj, value):
         super().__set__(obj, value)
         # Invalidate the cache
-        self._high_precision_value_cache = None
+        setattr(obj, self._cache_name, None)
 
 class HighPrecisionOptional(object):
     """ Supports both native and high-precision numerical types.
-- 
2.43.0


From 2e8fc117d4e56b075befc878a43f0fb2aabb7097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:04 +0000
Subject: [PATCH 22/51] fix: balancing an allocation without bonds failed, and
 used max_equity for the minimum

---
 forecaster/strategy/allocation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/forecaster/strategy/allocation.py b/forecaster/strategy/allocation.py
index a4b2500..eed5d26 100644
--- a/forecaster/strategy/allocation.py
+++ b/forecaster/strategy/allocation.py
@@ -232,7 +232,13 @@ class AllocationStrategy(Strategy):
                 other values are rebalanced accordingly so that
                 the sum of all allocation attributes is 1.
         """
-        if allocation.stocks > self.max_equity:
+        if allocation.bonds == 0 and allocation.other == 0:
+            # There are no other weights to be proportionate to, so move
+            # any weighting out of equity into bonds:
+            if allocation.stocks > self.max_equity:
+                allocation = AssetAllocation(
+                    self.max_equity, allocation.stocks - self.max_equity, 0)
+        elif allocation.stocks > self.max_equity:
             # Move the excess weighting of equity into bonds and other
             # proportionately to their current values:
             bonds = allocation.bonds + (
@@ -252,7 +258,7 @@ class AllocationStrategy(Strategy):
                 * allocation.bonds / (allocation.bonds + allocation.other)
             )
             other = allocation.other - (
-                (self.max_equity - allocation.stocks)
+                (self.min_equity - allocation.stocks)
                 * allocation.other / (allocation.bonds + allocation.other)
             )
             allocation = AssetAllocation(self.min_equity, bonds, other)
-- 
2.43.0


From 2b568afa5b0d2046748628e08aa257ebb7af0035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 23/51] fix: marrying a married person left their former spouse
 linked to them

---
 forecaster/person.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/forecaster/person.py b/forecaster/person.py
index 0903948..6c0d953 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -294,6 +294,10 @@ class Person(TaxSource):
         if val is not None:
             if not isinstance(val, Person):  # Spouse must be a Person
                 raise TypeError('Person: spouse must be of type Person')
+            # If the new spouse was married to someone else, unlink them:
+            # pylint: disable=protected-access
+            if val.spouse is not None and val.spouse is not self:
+                val.spouse._spouse = None
             # Assign to _spouse to avoid recursing on this method.
             # pylint: disable=protected-access
             # spouse is a Person, so this isn't accessing a protected
-- 
2.43.0


From e86318028e42982f14d9e08591acfa5b70d5379f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 24/51] fix: Person.age was wrong or failed where February 29
 is involved

---
 forecaster/person.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index 6c0d953..b97ed13 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -386,7 +386,8 @@ class Person(TaxSource):
 
         # Remember to check whether the month/day are earlier in `date`
         age = date.year - self.birth_date.year
-        if date.replace(self.birth_date.year) < self.birth_date:
+        # (relativedelta deals with people or dates on February 29)
+        if date < self.birth_date + relativedelta(years=age):
             age -= 1
 
         # We allow age to be negative, if that's what the caller wants.
-- 
2.43.0


From 25f1d2e3b028d5bf08c8d6635f62f0c4513486b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 25/51] fix: resetting a raise rate to None stored a function
 returning None

---
 forecaster/person.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index b97ed13..6303380 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -254,7 +254,7 @@ class Person(TaxSource):
         # Treat setting the method to None as reverting to the default
         # rate parameter, which is Money(0).
         if val is None:
-            self.raise_rate_callable = 0
+            val = 0
         # Is raise_rate isn't callable, convert it to a suitable method:
         if not callable(val):  # Make callable if dict or scalar
             if isinstance(val, dict):
-- 
2.43.0


From bf3f0c57736ad18ecc28830eab01d82417160c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 26/51] fix: a person's deductions and credits went stale when
 read before the year's last transaction

---
 forecaster/person.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index 6303380..9aa3cd0 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -398,13 +398,13 @@ class Person(TaxSource):
 
     # NOTE: Test overloading of recorded property by subclass
 
-    @recorded_property_cached
+    @recorded_property
     def tax_deduction(self):
         """ The `Person`'s tax deductions for the year. """
         return sum(
             (account.tax_deduction for account in self.accounts))
 
-    @recorded_property_cached
+    @recorded_property
     def tax_credit(self):
         """ The `Person`'s tax credits for the year. """
         return sum(
-- 
2.43.0


From bf819693de5352a246d3261dbeb4e4093b02fc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:16 +0000
Subject: [PATCH 27/51] fix: later children of an ordered node could be filled
 before earlier ones

The edge weight of a child only exceeded the larger of the previous
child's own weight and the weights below it, not their sum, so a path
through a nested ordered node could cost as much as, or more than, a
lower-priority sibling of that node.
---
 forecaster/strategy/transaction/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 46ae4e2..e720bd6 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -1058,8 +1058,8 @@ class TransactionTraversal(HighPrecisionOptional):
             self._add_successors(child, **kwargs)
             # Ensure that assigning flows to the next child in sequence
             # has a penalty larger than any path through the current
-            # child's successors:
-            weight = max(weight, _sum_weight(self.graph, child)) + 1
+            # child and its successors:
+            weight += _sum_weight(self.graph, child) + 1
 
     def _add_node_leaf(
             self, node, child, *, capacity=None, **kwargs):
-- 
2.43.0


From b94b7b1a0cd33c675eea538280a7f9847feb2ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 28/51] fix: minimum outflows were not assigned, and limits
 were not reduced by flows assigned before

Negative (outflow) limits grew by the flows already assigned instead of
shrinking, limits exceeded by earlier flows came back as positive
capacity, and the infinite total used for minimum outflows was treated
as zero capacity.
---
 forecaster/strategy/transaction/base.py  | 30 ++++++++++++++++--------
 forecaster/strategy/transaction/graph.py |  5 ++--
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index e720bd6..1bf1597 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -248,8 +248,13 @@ class TransactionTraversal(HighPrecisionOptional):
             min_limit = LIMIT_TUPLE_FIELDS.min_outflow
             max_limit = LIMIT_TUPLE_FIELDS.max_outflow
             # Limit min. outflows based on what's in the account, not
-            # the shortfall we're trying to fill:
-            min_total = float('-inf')
+            # the shortfall we're trying to fill. (This needs to be a
+            # finite amount so that it can be divided between children.)
+            min_total = -sum(
+                abs(sum(_get_transactions(
+                    account, min_limit, available,
+                    transaction_methods=self.transaction_methods).values()))
+                for account in _get_accounts(self._priority_tree))
         else:  # No transactions since total ~= 0
             return {}
 
@@ -604,11 +609,13 @@ class TransactionTraversal(HighPrecisionOptional):
                 limit_value = limit_value.amount
             if limit_value is not None:
                 # Scale up the limit value by `precision` to avoid
-                # rounding issues:
-                limit_value /= self.precision
+                # rounding issues. (Outflow limits are negative, but
+                # capacities and flows are not.)
+                limit_value = abs(limit_value) / self.precision
                 # Reduce `limit_value` based on any memoized flows
-                # through `node`:
-                limit_value -= _flows_through(node, flows=self.memo)
+                # through `node`, which may exceed it:
+                limit_value = max(
+                    limit_value - _flows_through(node, flows=self.memo), 0)
                 # Use the lesser of `capacity` and `limit_value`;
                 # successors use this to determine their edge capacities
                 capacity = min(capacity, limit_value)
@@ -1159,8 +1166,9 @@ class TransactionTraversal(HighPrecisionOptional):
                 isinstance(transaction_limit,float)):
             transaction_limit = self.high_precision(transaction_limit)
         # Scale up based on the precision (as we do with all edge
-        # capacities):
-        capacity = transaction_limit / self.precision
+        # capacities). Outflows are negative, but capacities and flows
+        # are not:
+        capacity = abs(transaction_limit) / self.precision
 
         # Most accounts add an edge straight to `sink`, but accounts
         # that have shared transaction limits have special treatment:
@@ -1171,7 +1179,8 @@ class TransactionTraversal(HighPrecisionOptional):
             # `group_node` (which accounts for all flows through all
             # of the linked nodes of the group)
             # This prevents inadvertent over-contribution/withdrawal:
-            capacity -= _flows_through(group_node, flows=self.memo)
+            capacity = max(
+                capacity - _flows_through(group_node, flows=self.memo), 0)
             _add_edge(
                 self.graph, node, group_node,
                 capacity=capacity, limit=capacity)
@@ -1180,7 +1189,8 @@ class TransactionTraversal(HighPrecisionOptional):
             node = group_node
         else:
             # Reduce capacity based on any memoized flows through `node`
-            capacity -= _flows_through(node, flows=self.memo)
+            capacity = max(
+                capacity - _flows_through(node, flows=self.memo), 0)
 
         # Send an edge from the node to the sink, if provided:
         if self.sink is not None:
diff --git a/forecaster/strategy/transaction/graph.py b/forecaster/strategy/transaction/graph.py
index 988c9e2..935062b 100644
--- a/forecaster/strategy/transaction/graph.py
+++ b/forecaster/strategy/transaction/graph.py
@@ -148,8 +148,9 @@ def _add_edge(
         capacity = abs(capacity)
 
         # Reduce capacity by any previously-allocated flows over this
-        # edge:
-        capacity -= _flows_through(from_node, to_node, flows=memo)
+        # edge (which can exceed its capacity):
+        capacity = max(
+            capacity - _flows_through(from_node, to_node, flows=memo), 0)
         # Only assign `capacity` as an edge value if it is finite.
         # (networkx doesn't deal well with float('inf'). The
         # "capacity" attr should be absent if capacity is unbounded.)
-- 
2.43.0


From 58acfd929a4a7f722f5800ec7948f8357cad7ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 29/51] fix: custom transaction_methods and group_methods were
 wrapped in another tuple

---
 forecaster/strategy/transaction/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 1bf1597..7857c9a 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -186,11 +186,11 @@ class TransactionTraversal(HighPrecisionOptional):
         if transaction_methods is None:
             self.transaction_methods = transaction_default_methods()
         else:
-            self.transaction_methods = LimitTuple(transaction_methods)
+            self.transaction_methods = LimitTuple(*transaction_methods)
         if group_methods is None:
             self.group_methods = group_default_methods()
         else:
-            self.group_methods = LimitTuple(group_methods)
+            self.group_methods = LimitTuple(*group_methods)
         # Convert `precision` to high-precision if it's the default
         # argument and a conversion method has been passed:
         if precision == EPSILON and self.high_precision is not None:
-- 
2.43.0


From 4c48639dfeaec91ae439f34e5e0867053bc135b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 30/51] fix: a TransactionNode built from another one had no
 children

---
 forecaster/strategy/transaction/node.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/forecaster/strategy/transaction/node.py b/forecaster/strategy/transaction/node.py
index a190bf9..0a95fa6 100644
--- a/forecaster/strategy/transaction/node.py
+++ b/forecaster/strategy/transaction/node.py
@@ -54,6 +54,7 @@ class TransactionNode:
             # Copy initialization:
             self.source = source.source
             self.limits = source.limits
+            self.children = source.children
             return
 
         # Hold on to the original list/dict/whatever.
-- 
2.43.0


From a8fdc7fdebf6a72ffa54d6d0a12c89e2958bd7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 31/51] fix: assign_min was ignored, and DebtPaymentStrategy
 passed it under another name

---
 forecaster/strategy/debt_payment/base.py | 2 +-
 forecaster/strategy/transaction/base.py  | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/forecaster/strategy/debt_payment/base.py b/forecaster/strategy/debt_payment/base.py
index 261c3b4..d784e0e 100644
--- a/forecaster/strategy/debt_payment/base.py
+++ b/forecaster/strategy/debt_payment/base.py
@@ -60,7 +60,7 @@ class DebtPaymentStrategy(Strategy, HighPrecisionOptional):
         """
         strategy = TransactionTraversal(
             priority=sorted_debts, high_precision=self.high_precision)
-        result = strategy(available, assign_min_first=assign_minimums)
+        result = strategy(available, assign_min=assign_minimums)
         return result
 
     @strategy_method(SNOWBALL_KEY)
diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 7857c9a..41b050f 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -266,9 +266,11 @@ class TransactionTraversal(HighPrecisionOptional):
         self.outbound_nodes = {}
         self.overflow_nodes = {}
         # Build and traverse a graph based on `priority`
-        # First traverse to assign min. flows:
-        min_transactions = self._traverse_priority(
-            min_total, available, min_limit)
+        # First traverse to assign min. flows (if requested):
+        min_transactions = {}
+        if assign_min:
+            min_transactions = self._traverse_priority(
+                min_total, available, min_limit)
         # Then traverse to assign max. flows. Pass in `memo` to ensure
         # that the flows assigned previously are respected
         max_transactions = self._traverse_priority(
-- 
2.43.0


From c78ceb996ef3095e0cdb5e412c7329db6fce5937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:42 +0000
Subject: [PATCH 32/51] fix: debts were repaid in equal shares instead of by
 debt strategy when another debt was paid off

The ordering of low-interest debts was only used for a weight group equal
to the set of all outstanding low-interest debts, so a paid-off debt, or
a subclass of Debt with its own weight, disabled it.
---
 forecaster/strategy/transaction/strategy.py | 23 ++++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/forecaster/strategy/transaction/strategy.py b/forecaster/strategy/transaction/strategy.py
index db0b13b..d8874bc 100644
--- a/forecaster/strategy/transaction/strategy.py
+++ b/forecaster/strategy/transaction/strategy.py
@@ -306,20 +306,27 @@ class TransactionStrategy(Strategy):
         """ Returns a dict of account: transaction pairs. """
         # Debts get special treatment, so separate them out here:
         low_interest_debts, high_interest_debts = self.divide_debts(accounts)
-        # Get priority trees for each debt. These will be inserted into
-        # the final priority tree differently (in-place replacement for
-        # low-interest, prepending for high-interest.)
-        low_interest_priority = self.debt_priority(low_interest_debts)
+        # Get a priority tree for high-interest debts. Debts will be
+        # inserted into the final priority tree differently (in-place
+        # replacement for low-interest, prepending for high-interest.)
         high_interest_priority = self.debt_priority(high_interest_debts)
 
         # Group together accounts that share weights (and map them to
-        # those weights for convenience):
+        # those weights for convenience). Leave out debts which have
+        # nothing outstanding; they can't receive payments, and would
+        # make the group differ from `low_interest_debts`:
+        paid_debts = {
+            account for account in accounts
+            if isinstance(account, Debt) and not account.balance < 0}
         groups = self._weight_account_groups(
-            set(accounts) - high_interest_debts)
+            set(accounts) - high_interest_debts - paid_debts)
 
         # Ensure that low-interest debts are properly ordered, rather
-        # than assigned some default order based on their common typing:
-        subtrees = {low_interest_debts: low_interest_priority}
+        # than assigned some default order based on their common typing.
+        # (They may be divided between groups, e.g. for subclasses.)
+        subtrees = {
+            group: self.debt_priority(group) for group in groups
+            if group <= low_interest_debts}
 
         # Get the basic priority tree based on this strategy:
         priority = super().__call__(
-- 
2.43.0


From d5d4b44dc77f3c32b7f8f245078e62aca24f61fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 33/51] fix: weighted accounts were not given their share when
 another account's minimum exceeded its own

The amount left after minimums is net of them already, but the excess was
deducted from it once more, leaving the other accounts without weights.
---
 forecaster/strategy/transaction/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 41b050f..0355ab0 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -789,11 +789,10 @@ class TransactionTraversal(HighPrecisionOptional):
             recurse_children = {
                 child: weight for child, weight in children.items()
                 if totals[child] > 0}
-            # Capacity should be restored to its original value...
+            # Capacity should be restored to its original value. (That's
+            # net of any flows allocated previously, so all of it is
+            # available to these children.)
             capacity -= flows
-            # ... and further reduced by the amount of excess flows
-            # previously allocated to some children:
-            capacity += sum(total for total in totals.values() if total < 0)
             self._add_weighted_children(
                 node, recurse_children, capacity, **kwargs)
             # As for the children that have been over-allocated flow,
-- 
2.43.0


From 8578d5f07deaddd657a312ee0c426cff693b617a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:07 +0000
Subject: [PATCH 34/51] fix: a rejected spouse or owner left the former one
 half unlinked

---
 forecaster/accounts/base.py | 10 +++++-----
 forecaster/person.py        |  6 ++++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 6a0c721..5a9ac8b 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -182,16 +182,16 @@ class Account(TaxSource):
     @owner.setter
     def owner(self, val):
         """ Sets the account's owner. """
+        # Do basic type-checks on new owners before changing anything:
+        if val is not None and not isinstance(val, Person):
+            raise TypeError('Account: owner must be of type Person.')
+
         # Unregister this account from any former owner:
         if self.owner is not None:
             self.owner.accounts.remove(self)
 
-        # For new owners, do basic type-checks and then
-        # bind the account to the owner:
+        # For new owners, bind the account to the owner:
         if val is not None:
-            if not isinstance(val, Person):
-                raise TypeError('Account: owner must be of type Person.')
-            # Register with new owner:
             val.accounts.add(self)
 
         self._owner = val
diff --git a/forecaster/person.py b/forecaster/person.py
index 9aa3cd0..7e122cd 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -282,6 +282,10 @@ class Person(TaxSource):
     @spouse.setter
     def spouse(self, val):
         """ Sets the Person's spouse. """
+        # Reject invalid values before changing anything:
+        if val is not None and not isinstance(val, Person):
+            raise TypeError('Person: spouse must be of type Person')
+
         # If this Person already has a spouse, unlink them:
         if hasattr(self, 'spouse') and self.spouse is not None:
             # Assign to _spouse to avoid recursing on this method.
@@ -292,8 +296,6 @@ class Person(TaxSource):
 
         # If we're adding a new spouse, make sure that it links back:
         if val is not None:
-            if not isinstance(val, Person):  # Spouse must be a Person
-                raise TypeError('Person: spouse must be of type Person')
             # If the new spouse was married to someone else, unlink them:
             # pylint: disable=protected-access
             if val.spouse is not None and val.spouse is not self:
-- 
2.43.0


From ceeea7eecfe13e76bbdfaceb2363f142b7e28a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:11 +0000
Subject: [PATCH 35/51] fix: time_to_balance failed for balances that cannot
 grow to the value

---
 forecaster/accounts/base.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 5a9ac8b..ddcf139 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -953,9 +953,15 @@ class Account(TaxSource):
 
         # Determine when we'll reach the desired amount, assuming
         # no further transactions:
-        time = when + time_to_value(
-            self.rate, balance, value, nper=self.nper,
-            high_precision=self.high_precision)
+        if balance * value > 0:
+            time = when + time_to_value(
+                self.rate, balance, value, nper=self.nper,
+                high_precision=self.high_precision)
+        elif balance == value:
+            time = when
+        else:
+            # No balance can grow from (or to) 0 or change its sign:
+            time = self.precision_convert(float('inf'))
 
         # Now look ahead to the next transaction and, if it happens
         # before `time`, recurse onto that transaction's timing:
-- 
2.43.0


From 3b0a2afa3d8575c88cc9c327d1bee921eb98155f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:11 +0000
Subject: [PATCH 36/51] fix: money available from an account was given with the
 wrong sign

---
 forecaster/forecast/subforecast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index bb4e904..8235e0f 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -196,7 +196,8 @@ class SubForecast(Ledger):
             # Consider whether we should instead sum over transactions
             # (for dicts and Accounts) and then add the account opening
             # balance (only for Accounts).
-            self.total_available = available.max_outflow(1)
+            # (Outflows are negative.)
+            self.total_available = -available.max_outflow(1)
         else:
             self.total_available = sum(available.values())
 
-- 
2.43.0


From 4bdab3b0790adeb1ad4555b25c318c0b9850c09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:11 +0000
Subject: [PATCH 37/51] fix: transactions of a subforecast were undone more
 than once

---
 forecaster/forecast/subforecast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index 8235e0f..edd96f3 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -208,6 +208,9 @@ class SubForecast(Ledger):
             if account is not None:
                 for when, value in self.transactions[account].items():
                     account[when] -= value
+        # Having been reversed, these transactions are not to be reversed
+        # (or recorded) again:
+        self._transactions.clear()
         # This undoes the effect of __call__, so treat that
         # method as if it was never called:
         self._call_invoked = False
-- 
2.43.0


From d1e9e2e5e64fdf250e1b3f429268c09c2740a1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:11 +0000
Subject: [PATCH 38/51] fix: a subforecast's transaction history lost its
 transactions

---
 forecaster/forecast/subforecast.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index edd96f3..dc9b7e9 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -170,7 +170,9 @@ class SubForecast(Ledger):
         # are recorded with their current state:
         super().next_year()
         # There are no existing transactions at the start of the year:
-        self.transactions.clear()
+        # (Use a new dict; last year's is in `transactions_history`.)
+        self._transactions = TransactionDict(
+            lambda: defaultdict(lambda: 0)) # Money value
         self._call_invoked = False
 
     def __call__(self, available):
-- 
2.43.0


From 5ad0aa1011b20fa1f775a0436a8624a9c508617e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:21 +0000
Subject: [PATCH 39/51] fix: a withdrawal's effect on later balances
 disregarded growth, so accounts were overdrawn

---
 forecaster/forecast/subforecast.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index dc9b7e9..9920e25 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -4,7 +4,7 @@ from collections import defaultdict
 from collections.abc import Hashable
 from forecaster.ledger import Ledger, recorded_property
 from forecaster.accounts import Account
-from forecaster.utility import Timing
+from forecaster.utility import EPSILON, Timing
 
 class TransactionDict(defaultdict):
     """ A defaultdict that accepts unhashable keys.
@@ -401,9 +401,19 @@ class SubForecast(Ledger):
         # Find the points in time where subtracting `value`
         # would not put any future point in time into negative
         # balance.
-        eligible_times = (
-            t for t in accum if all(
-                accum[r] >= value for r in accum if r >= t))
+        if isinstance(account, Account):
+            # Money withdrawn from an account doesn't grow there, so
+            # what's left later on needs to be determined by the account.
+            # (Ignore rounding errors arising from that growth.)
+            eligible_times = (
+                t for t in accum if accum[t] - value >= -EPSILON and all(
+                    account.balance_at_time(
+                        r, transactions={t: -value}) >= -EPSILON
+                    for r in accum if r > t))
+        else:
+            eligible_times = (
+                t for t in accum if all(
+                    accum[r] >= value for r in accum if r >= t))
 
         # Find the earliest valid time (or, if none exists,
         # use `when`)
@@ -476,5 +486,5 @@ class SubForecast(Ledger):
                     # If that time falls within the period
                     # (earlier, later), then add it!
                     if time > earlier and time < later:
-                        accum[time] = -sum(account.max_outflows(time).values())
+                        accum[time] = -account.max_outflow(time)
         return accum
-- 
2.43.0


From 4b8697ed6467d40d8fc3d6e038d6943ca0e52e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:21 +0000
Subject: [PATCH 40/51] fix: time_to_balance returned times in the past

---
 forecaster/accounts/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index ddcf139..721a3cd 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -962,6 +962,10 @@ class Account(TaxSource):
         else:
             # No balance can grow from (or to) 0 or change its sign:
             time = self.precision_convert(float('inf'))
+        # If the desired amount would've been reached in the past then it
+        # won't be reached again (without further transactions):
+        if time < when:
+            time = self.precision_convert(float('inf'))
 
         # Now look ahead to the next transaction and, if it happens
         # before `time`, recurse onto that transaction's timing:
-- 
2.43.0


From d5f0688a3a43c996cf2a74896531fbd7bd07cb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:01 +0000
Subject: [PATCH 41/51] fix: living expenses failed when nobody has any income

---
 forecaster/forecast/living_expenses.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/forecaster/forecast/living_expenses.py b/forecaster/forecast/living_expenses.py
index e7d3a48..4cb9a96 100644
--- a/forecaster/forecast/living_expenses.py
+++ b/forecaster/forecast/living_expenses.py
@@ -49,8 +49,16 @@ class LivingExpensesForecast(SubForecast):
         # living expenses every time each of them gets paid
         # proportionately to their share of net income.
         total_income = sum(person.net_income for person in self.people)
-        income_weights = {
-            person: person.net_income / total_income for person in self.people}
+        if total_income != 0:
+            income_weights = {
+                person: person.net_income / total_income
+                for person in self.people}
+        else:
+            # Nobody has any income (e.g. because everyone is retired), so
+            # treat everyone alike:
+            income_weights = {
+                person: self.precision_convert(1) / len(self.people)
+                for person in self.people}
         for person in self.people:
             self.add_transaction(
                 self.living_expenses * income_weights[person],
-- 
2.43.0


From 86dd2dab46ea1d8653f1b568e55d8ac96554118d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:03 +0000
Subject: [PATCH 42/51] fix: debt_repayment gave the amount saved for
 retirement

---
 forecaster/forecast/saving.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/forecast/saving.py b/forecaster/forecast/saving.py
index 9c24e79..101e0db 100644
--- a/forecaster/forecast/saving.py
+++ b/forecaster/forecast/saving.py
@@ -75,7 +75,7 @@ class SavingForecast(SubForecast):
         # class is all about.
         return sum(
             sum(self.account_transactions[account].values())
-            for account in self.retirement_accounts
+            for account in self.debt_accounts
             if account in self.account_transactions)
 
     @recorded_property_cached
-- 
2.43.0


From ba3c6525c7a60d63fb386aa36ed26f48d50260b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 43/51] fix: tax withheld on withdrawals was carried over into
 following years

---
 forecaster/forecast/withdrawal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/forecaster/forecast/withdrawal.py b/forecaster/forecast/withdrawal.py
index fbdc27e..133344c 100644
--- a/forecaster/forecast/withdrawal.py
+++ b/forecaster/forecast/withdrawal.py
@@ -129,6 +129,12 @@ class WithdrawalForecast(SubForecast):
         # Reset tax_withheld:
         self.tax_withheld = self.precision_convert(0) # Money value
 
+    def next_year(self):
+        """ Adds a year to the forecast. """
+        super().next_year()
+        # Nothing has been withheld yet:
+        self.tax_withheld = self.precision_convert(0) # Money value
+
     @recorded_property_cached
     def gross_withdrawals(self):
         """ Total gross withdrawals for the year. """
-- 
2.43.0


From 096f7d6a207a571731257d60afcc52c5d7bd4e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:22 +0000
Subject: [PATCH 44/51] fix: gross withdrawals included money the accounts
 didn't have

---
 forecaster/forecast/withdrawal.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/forecaster/forecast/withdrawal.py b/forecaster/forecast/withdrawal.py
index 133344c..77e3fab 100644
--- a/forecaster/forecast/withdrawal.py
+++ b/forecaster/forecast/withdrawal.py
@@ -3,7 +3,7 @@
 from forecaster.ledger import (
     recorded_property, recorded_property_cached)
 from forecaster.forecast.subforecast import SubForecast
-from forecaster.utility import transactions_from_timing
+from forecaster.utility import EPSILON, transactions_from_timing
 
 class WithdrawalForecast(SubForecast):
     """ A forecast of withdrawals from a portfolio over time.
@@ -138,11 +138,18 @@ class WithdrawalForecast(SubForecast):
     @recorded_property_cached
     def gross_withdrawals(self):
         """ Total gross withdrawals for the year. """
-        # The amount withdrawn is simply the shortfall in cashflow
-        # over the course of the year.
         # TODO: Increase gross withdrawals based on tax liability #34
         # Aim is for `net_withdrawals` to approximate `total_available`.
-        return -self.total_available
+        withdrawals = -sum(
+            sum(transactions.values())
+            for transactions in self.account_transactions.values())
+        # This is simply the shortfall in cashflow over the course of the
+        # year, unless the accounts don't hold enough to cover it. (Prefer
+        # the shortfall where we can; it's free of rounding errors.)
+        shortfall = -self.total_available
+        if abs(withdrawals - shortfall) < EPSILON:
+            return shortfall
+        return withdrawals
 
     @recorded_property
     def net_withdrawals(self):
-- 
2.43.0


From d4a989c24f496f213ca3f4a7063c2d8b1e3631ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:45 +0000
Subject: [PATCH 45/51] fix: strategies failed when there are no accounts they
 apply to

---
 forecaster/strategy/transaction/base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 0355ab0..e502c60 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -230,6 +230,10 @@ class TransactionTraversal(HighPrecisionOptional):
         # We provide a kwargs argument so that this class can be used
         # wherever `TransactionStrategy` or similar classes are used.
 
+        # There's nothing to transact with if there aren't any accounts:
+        if not _get_accounts(self._priority_tree):
+            return {}
+
         # By default, use up all money in `available`, unless we're
         # specifically told to use less:
         if total is None:
@@ -711,8 +715,9 @@ class TransactionTraversal(HighPrecisionOptional):
             # `overflow_node`.
             # It should be preferable to shift flow between _any_
             # successor path before routing it through `overflow_node`.
-            weight = 1 + max(_sum_weight(
-                self.graph, child) for child in children)
+            weight = 1 + max(
+                (_sum_weight(self.graph, child) for child in children),
+                default=0)
             _add_edge(self.graph, node, overflow_node, weight=weight)
 
         # This deals with overflows, but not underflows - which are
-- 
2.43.0


From e7ade92f354e06a577f449b83c60c007185cf5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:45 +0000
Subject: [PATCH 46/51] fix: the pension income credit failed for accounts that
 aren't part of the forecast

---
 forecaster/canada/tax.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index 773abed..9ad0aa7 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -74,9 +74,11 @@ class TaxCanadaJurisdiction(Tax):
         Returns:
             Money: The amount of the credit claimable by person in year.
         """
-        # (The taxable income of an RRSP is the amount withdrawn from it.)
+        # (The taxable income of an RRSP is the amount withdrawn from it.
+        # An account which isn't used in `year` has none.)
         pension_income = abs(sum(
-            account.taxable_income_history[year] for account in person.accounts
+            account.taxable_income_history.get(year, 0)
+            for account in person.accounts
             if isinstance(account, RRSP)))
             # NOTE: Other qualified pension income sources can be
             # added here
-- 
2.43.0


From 6308dbff2bf9501cdeaeda0c84fe1656ce34cce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:45 +0000
Subject: [PATCH 47/51] fix: default withdrawal weights named a type of account
 that doesn't exist

---
 forecaster/canada/settings.py        | 4 ++--
 forecaster/data/canada.settings.json | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/forecaster/canada/settings.py b/forecaster/canada/settings.py
index aa4d6b8..40f39e7 100644
--- a/forecaster/canada/settings.py
+++ b/forecaster/canada/settings.py
@@ -20,7 +20,7 @@ class SettingsCanada(Settings):
             `{'RRSP': 2, 'TFSA': 1, 'TaxableAccount': 3}`.
         withdrawal_weights (dict[str, float]): Defaults for this attribute
             are overridden to
-            `{'RRSP': 1, 'TFSA': 2, 'SavingsAccount': 3}`.
+            `{'RRSP': 1, 'TFSA': 2, 'TaxableAccount': 3}`.
         tax_province (str): A default value for building `TaxCanada`
             objects. Defaults to "BC".
         resp_child_other_income (float): A default value for building
@@ -51,7 +51,7 @@ class SettingsCanada(Settings):
     withdrawal_weights = Attr({
         'RRSP': 1,
         'TFSA': 2,
-        'SavingsAccount': 3})
+        'TaxableAccount': 3})
 
     # TaxCanada defaults
     tax_province = Attr("BC")
diff --git a/forecaster/data/canada.settings.json b/forecaster/data/canada.settings.json
index 5317640..0811744 100644
--- a/forecaster/data/canada.settings.json
+++ b/forecaster/data/canada.settings.json
@@ -22,7 +22,7 @@
     "withdrawal_weights": {
         "RRSP": 1,
         "TFSA": 2,
-        "SavingsAccount": 3},
+        "TaxableAccount": 3},
     "allocation_strategy": "n-age",
     "allocation_min_equity": 0.3,
     "allocation_max_equity": 0.3,
-- 
2.43.0


From e008724cf335868e767c867a90045848f62f60a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:02 +0000
Subject: [PATCH 48/51] fix: allocation strategies couldn't be built, nor
 parameters with positional arguments

---
 forecaster/forecaster.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/forecaster/forecaster.py b/forecaster/forecaster.py
index 41a3f29..f0deffd 100644
--- a/forecaster/forecaster.py
+++ b/forecaster/forecaster.py
@@ -3,6 +3,7 @@
 from copy import copy, deepcopy
 from functools import reduce
 from enum import Enum
+from inspect import signature
 from forecaster.forecast import (
     Forecast, IncomeForecast, LivingExpensesForecast,
     SavingForecast, WithdrawalForecast, TaxForecast)
@@ -338,12 +339,17 @@ class Forecaster(HighPrecisionOptional):
         if _special_builder and param_name in self.default_builders:
             return getattr(
                 self, self.default_builders[param_name])(*args, **kwargs)
+        if param_type is None:
+            param_type = self.default_types[param_name]
         # For everything else, use the user-provided defaults and fill
         # in the gaps with the settings-provided defaults:
         if param_name in self.default_values:
             # Get the default mapping for this parameter:
             # (We copy it to avoid mutating it)
             default_values = copy(self.default_values[param_name])
+            # Values provided explicitly by position have no default:
+            for key in list(signature(param_type).parameters)[:len(args)]:
+                default_values.pop(key, None)
             # Replace each value with the value of the same-named
             # attribute of the `Forecaster` object:
             for key, value in default_values.items():
@@ -355,8 +361,6 @@ class Forecaster(HighPrecisionOptional):
         # Build a new object (note that we don't set the corresponding
         # attribute of Forecaster; if this is called again, we'll build
         # a new object)
-        if param_type is None:
-            param_type = self.default_types[param_name]
         # Pass `high_precision` as a kwarg if the type supports it:
         is_high_precision_type = any(
             issubclass(param_type, high_precision_type)
@@ -491,5 +495,5 @@ class Forecaster(HighPrecisionOptional):
         other parameters.
         """
         return self.build_param(
-            Parameter.ALLOCATION_STRATEGY, AllocationStrategy, *args,
-            _special_builder=False, **kwargs)
+            Parameter.ALLOCATION_STRATEGY, *args,
+            param_type=AllocationStrategy, _special_builder=False, **kwargs)
-- 
2.43.0


From 15b6cf90171fbd11a5cfc2b78d3710d59d26e845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:36 +0000
Subject: [PATCH 49/51] fix: settings could not be deleted

---
 forecaster/value_reader.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index 1096c03..670ad43 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -58,8 +58,6 @@ class ValueReaderAttribute(object):
     def __delete__(self, obj):
         # Remove the value from the `values` dict:
         del obj.values[self.name]
-        # Also remove this descriptor:
-        del obj.__dict__[self.name]
 
 class HighPrecisionJSONEncoder(json.JSONEncoder):
     """ Extends JSONEncoder to support high-precision numeric types.
-- 
2.43.0


From ab72907443b9e7713e5f66749e7524fe5c9134a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:39 +0000
Subject: [PATCH 50/51] fix: numbers written as text lost precision when read

---
 forecaster/value_reader.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index 670ad43..f64d48a 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -334,17 +334,21 @@ class ValueReader(HighPrecisionOptional):
             return vals
 
         # Now we know `vals` is a numeric-convertible str. Convert it:
+        # Whole numbers are converted directly, since large ones would
+        # lose precision if converted to float first:
+        try:
+            return int(vals) #@IgnoreException
+        except ValueError:
+            pass
+        # Use high-precision numeric type if supported (otherwise float):
+        val = self._parse_float(vals)
         # Prefer int representation if possible:
-        if float_val % 1 == 0:
-            # `float_val % 1` is `NaN` for infinite or NaN values,
-            # and is a non-zero number for any floating-point value.
-            # Thus, if this test passes, we have an integer value.
-            return int(float_val)
-        # Use high-precision numeric type if supported:
-        if self.high_precision is not None:
-            return self.high_precision(vals)
-        # Otherwise, use float:
-        return float_val
+        # (`float_val % 1` is `NaN` for infinite or NaN values, and can
+        # be 0 for high-precision values that are merely close to an
+        # integer, so check that no precision is lost.)
+        if float_val % 1 == 0 and val == int(val):
+            return int(val)
+        return val
 
     def write(self, filename, vals=None):
         """ Writes values to a UTF-8 encoded JSON file.
-- 
2.43.0


From 0635c91abb4eab00a47b004cddfbe3d95a6649ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:42 +0000
Subject: [PATCH 51/51] fix: values with high-precision keys could not be
 written

---
 forecaster/value_reader.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index f64d48a..6aa37fe 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -121,6 +121,30 @@ class HighPrecisionJSONEncoder(json.JSONEncoder):
                 # pylint: enable=function-redefined
             self.high_precision_serialize = high_precision_serialize
 
+    def iterencode(self, o, *args, **kwargs):
+        """ Encodes `o`, including dicts with high-precision keys. """
+        # `default` is called only for values, not for keys:
+        if self.high_precision_type is not None:
+            o = self._serialize_keys(o)
+        return super().iterencode(o, *args, **kwargs)
+
+    def _serialize_keys(self, o):
+        """ Serializes the high-precision keys of a tree of dicts. """
+        if isinstance(o, (list, tuple)):
+            return [self._serialize_keys(val) for val in o]
+        if not isinstance(o, dict):
+            return o
+        o = {key: self._serialize_keys(val) for (key, val) in o.items()}
+        if not any(isinstance(key, self.high_precision_type) for key in o):
+            return o
+        # Convert integer keys as well, since all keys need to be of the
+        # same type to be sorted:
+        return {
+            self.high_precision_serialize(key)
+            if isinstance(key, self.high_precision_type)
+            else (str(key) if isinstance(key, int) else key): val
+            for (key, val) in o.items()}
+
     def default(self, o):
         """ Attempts to serialize high-precision numeric types. """
         # Serialize high-precision numbers using the custom method:
-- 
2.43.0

