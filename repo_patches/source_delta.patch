From 830bd3c625ac89f623b696e9a3fa15cd1bc0ce2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 1/8] fix: let the manager fund an inactive converter

tokenFallback compared the sender with the bound method getManager instead of
its result, so connector tokens sent by the manager were always rejected.
---
 contracts/converter/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/converter/converter.py b/contracts/converter/converter.py
index 197ff2d..ebaca2c 100644
--- a/contracts/converter/converter.py
+++ b/contracts/converter/converter.py
@@ -228,7 +228,7 @@ class Converter(ABCConverter, FlexibleTokenController, Managed):
         require_positive_value(_value)
         from_token = self.msg.sender
 
-        if (_from == self.getOwner() or _from == self.getManager) \
+        if (_from == self.getOwner() or _from == self.getManager()) \
                 and self._connectors[from_token].is_set.get() \
                 and not self._is_active():
             # If the token sender is the owner and sent token is a connector token, receives tokens
-- 
2.43.0


From 0100de08762ba0df6a2506428bbba24cbef3a7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 2/8] fix: set the deployer as manager when a converter is
 installed

Converter.on_install did not run Managed.on_install, so a converter had no
manager at all (getManager returned null) until a management transfer.
---
 contracts/converter/converter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contracts/converter/converter.py b/contracts/converter/converter.py
index ebaca2c..d355130 100644
--- a/contracts/converter/converter.py
+++ b/contracts/converter/converter.py
@@ -194,6 +194,7 @@ class Converter(ABCConverter, FlexibleTokenController, Managed):
         require_valid_address(_registry)
         self._require_valid_max_conversion_fee(_maxConversionFee)
         FlexibleTokenController.on_install(self, _token)
+        Managed.on_install(self)
 
         self._allow_registry_update.set(True)
         self._registry.set(_registry)
-- 
2.43.0


From 8b9824434fce38378f3eb1d3300e4d2b6a3b5383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 3/8] fix: price conversions from a virtual-balance connector
 at its full balance

The received amount was subtracted from the virtual balance, which does not
include it, so a conversion paid out more than getReturn quoted.
---
 contracts/converter/converter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/converter/converter.py b/contracts/converter/converter.py
index d355130..d2cc50b 100644
--- a/contracts/converter/converter.py
+++ b/contracts/converter/converter.py
@@ -449,7 +449,8 @@ class Converter(ABCConverter, FlexibleTokenController, Managed):
 
         token_supply = flexible_token.totalSupply()
         connector_balance = self.getConnectorBalance(connector_token)
-        if from_conversion:
+        # a virtual balance does not contain the received amount yet
+        if from_conversion and not connector.is_virtual_balance_enabled.get():
             connector_balance -= amount
 
         calculated_amount = formula.calculate_purchase_return(
@@ -503,7 +504,8 @@ class Converter(ABCConverter, FlexibleTokenController, Managed):
         require(to_connector.is_purchase_enabled.get(), 'required purchase enabled')
 
         from_connector_balance = self.getConnectorBalance(from_token)
-        if from_conversion:
+        # a virtual balance does not contain the received amount yet
+        if from_conversion and not from_connector.is_virtual_balance_enabled.get():
             from_connector_balance -= amount
         to_connector_balance = self.getConnectorBalance(to_token)
 
-- 
2.43.0


From 003d7f9a829e6b5ab063c9dc4b99f21e34c7a8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 4/8] fix: compare a cross-connector return with the balance it
 is taken from

The depletion check ran after the return had been deducted from the virtual
balance, so trades for half of a virtual balance or more were rejected
although getReturn quoted them.
---
 contracts/converter/converter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/contracts/converter/converter.py b/contracts/converter/converter.py
index d2cc50b..29e828e 100644
--- a/contracts/converter/converter.py
+++ b/contracts/converter/converter.py
@@ -402,15 +402,15 @@ class Converter(ABCConverter, FlexibleTokenController, Managed):
         from_connector = self._connectors[from_token]
         if from_connector.is_virtual_balance_enabled.get():
             from_connector.virtual_balance.set(from_connector.virtual_balance.get() + amount)
+        # ensure that the trade won't deplete the connector balance
+        to_connector_balance = self.getConnectorBalance(to_token)
+        require(return_amount < to_connector_balance,
+                'returning amount does not meet connector balance condition')
         # update the target token virtual balance if relevant
         to_connector = self._connectors[to_token]
         if to_connector.is_virtual_balance_enabled.get():
             to_connector.virtual_balance.set(
                 safe_sub(to_connector.virtual_balance.get(), return_amount))
-        # ensure that the trade won't deplete the connector balance
-        to_connector_balance = self.getConnectorBalance(to_token)
-        require(return_amount < to_connector_balance,
-                'returning amount does not meet connector balance condition')
         # transfer funds to the caller in the to connector token
         # the transfer might fail if the actual connector balance is smaller than
         # the virtual balance
-- 
2.43.0


From a13a5bdfd9dfe2bcca99c2bc35d58d66701a58c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 5/8] fix: take the NOTICE file from the project root, not the
 working directory

---
 contract_generator/builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contract_generator/builder.py b/contract_generator/builder.py
index bfa65df..12184d2 100644
--- a/contract_generator/builder.py
+++ b/contract_generator/builder.py
@@ -99,5 +99,6 @@ class Builder:
         :param contract: contact in namedtuple
         :return: None
         """
-        notice_path_tuple = 'NOTICE', path.join(contract.name, 'NOTICE')
+        root_dir = path.dirname(path.dirname(path.abspath(__file__)))
+        notice_path_tuple = path.join(root_dir, 'NOTICE'), path.join(contract.name, 'NOTICE')
         contract.path_list.append(notice_path_tuple)
-- 
2.43.0


From 91db2e3997250dca1617df5fc75c14c0cf44d61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 6/8] fix: leave the directories below a contract's tests out
 of its package

---
 contract_generator/builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contract_generator/builder.py b/contract_generator/builder.py
index 12184d2..d8b9ca4 100644
--- a/contract_generator/builder.py
+++ b/contract_generator/builder.py
@@ -63,8 +63,9 @@ class Builder:
         cur_contract_dir = path.join(self._contracts_path, contract.name)
 
         for file_path, dirs, files in walk(cur_contract_dir):
-            # Skips for tests dir because of only for testing
+            # Skips for tests dir and all below it because of only for testing
             if path.basename(file_path) == 'tests':
+                dirs.clear()
                 continue
 
             for filename in files:
-- 
2.43.0


From 526416232f7c9f857860d0d7dfeb64cb44ede41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 7/8] fix: derive package paths from the path below the
 contracts directory

---
 contract_generator/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contract_generator/builder.py b/contract_generator/builder.py
index d8b9ca4..3375ad4 100644
--- a/contract_generator/builder.py
+++ b/contract_generator/builder.py
@@ -76,7 +76,7 @@ class Builder:
                 if filename == 'package.json':
                     new_file_path = path.join(contract.name, filename)
                 else:
-                    new_file_path = cur_file_path.replace(self._contracts_path, str(contract.name))
+                    new_file_path = path.join(contract.name, path.relpath(cur_file_path, self._contracts_path))
                 path_tuple = (cur_file_path, new_file_path)
                 contract.path_list.append(path_tuple)
 
-- 
2.43.0


From c4bd0c054e5e373ceef3dfc2c68ab97591f4cd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:38 +0000
Subject: [PATCH 8/8] fix: hand out a copy of the registry's list of score ids

getScoreIds returned the list that the class keeps, so a contract calling it
could change the names that every registry accepts.
---
 contracts/score_registry/score_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/score_registry/score_registry.py b/contracts/score_registry/score_registry.py
index b4880d3..33a0854 100644
--- a/contracts/score_registry/score_registry.py
+++ b/contracts/score_registry/score_registry.py
@@ -48,7 +48,7 @@ class ScoreRegistry(Owned, ABCScoreRegistry):
 
     @external(readonly=True)
     def getScoreIds(self) -> list:
-        return self.SCORE_KEYS
+        return list(self.SCORE_KEYS)
 
     @external
     def registerAddress(self, _scoreName: str, _scoreAddress: Address):
-- 
2.43.0

