"""Rewrites the list of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
TEXT = '''## 4. Planted bugs

Each directory of `seeded/` holds one change (`patch.diff`), its demonstration and what it needs to manifest
(`meta.json`). They were written in thirteen batches from the properties' texts and the code; a change is kept only if
it applies, passes the stable tests and its demonstration tells it from the unchanged tree (`tools/plant/plant.py`
verifies this; `tools/plant/run_seeded.sh ID...` runs the check of its property in a scratch copy). After each batch
the checks that missed one were widened; what was added for it is what the scenario names in §2 show, e.g.

| missed at first | added |
|---|---|
| C02-binary-data | data of every kind of first byte, not valid as text, and sizes around powers of two |
| C07-nominee-withdraws | `Held`: roles held by contracts or all by one person, hand-overs pending everywhere |
| C09-owner-manager | `Alone`: the owner is still the manager; small maxima |
| C13-coin-dust, C13-circular-coins | `Dust`: a few units lying in the network; `Rounds`: paths that end where they began |
| C17-contract-owner | `Held`: converter owned (and managed) by a contract that sends everything to it |
| C18-pending-handover | offers of token, converter and management nobody has accepted yet |
| C22-duplicate-selection | selections naming a contract more than once |
| C23-drained-flag | `Whole`: one holder sells the entire supply into virtual and real connectors |
| C24/C28-unset-connector | `Phase`: tokens asked about before and after they become connectors |
| C27-empty-name | tokens with an empty name and a symbol, and the other way round |

Every bug listed here was caught by the check of its property (`VIOLATION property=<that id>`) when it was planted or after
that check was widened; each vcheck re-runs a random dozen.

| property | planted bugs |
|---|---|
'''
by = {}
for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    m = json.load(open(os.path.join(ROOT, 'seeded', d, 'meta.json')))
    by.setdefault(m['property'], []).append(d.split('-', 1)[1])
out = TEXT + ''.join('| %s (%d) | %s |\n' % (k, len(v), ', '.join(v)) for k, v in sorted(by.items()))
out += '''
### Other trials of the machinery

* *Mutation testing*: 1,700 syntactic mutants of the contracts and the generator were made; 576 survive the stable tests.
  A random part of these was run against reduced lists of checks; the survivors looked at were equivalent or in
  functions nothing uses (`require_manager_only`, `_require_valid_token`), beyond the claimed range (C16 past e^16) or
  guarded twice.
* *Refactorings*: two trees with behaviour-preserving rewrites of nearly every contract function (helpers extracted,
  statements reordered, loops rewritten, private names and storage keys changed) are run against all checks; all stay
  quiet.
'''
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p).read()
open(p, 'w').write(s[:s.index('## 4. Planted bugs')] + out)
