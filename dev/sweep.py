"""Development only: all findings of the record pass (all tags)."""
import sys, time
sys.path.insert(0, '/verif')
from checks import catalog, drive
from checks.core import Broken
prop = sys.argv[1] if len(sys.argv) > 1 else 'C02'
try:
  passes, tasks = catalog.plan(prop, 'quick')
except Broken as e:
  print('F broken', e); sys.exit()
tasks = [t for t in tasks if t[0] != 'len' or t[1] in (0, 131, 133)]
tasks.sort(key=lambda t: -catalog.weight(t))
outs = drive.run_all(passes, tasks, time.time() + 500, drive.jobs(), 200)
seen = set()
und = 0
why = set()
for o in outs:
  for f in o.findings:
    if (f.rule, str(f.key)) not in seen:
      seen.add((f.rule, str(f.key)))
      print('F', sorted(f.tags), f.rule, f.site, f.what, repr(f.line))
  und += o.stats.get('undecided', 0) + o.stats.get('undecided_cmp', 0)
  why |= {str(u) for u in o.undecided}
  if o.error:
    print('U error', o.task, o.error.replace('\n', ' '))
if und:
  print('U', und, sorted(why)[:4])
