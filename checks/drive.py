"""Runs the passes a property needs, in parallel, and reports.

exit 0  no disagreement on anything analysed
exit 1  VIOLATION lines, each with a replay file
exit 2  the analysis has nothing to stand on (the public names are gone, nothing
        could be analysed)
"""
import hashlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

from .core import HERE, REPO, PKG, Broken, Stats, shards
from . import catalog

EVIDENCE = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'KNOWN_FINDINGS.txt')


class Late(BaseException):
  pass


def _late(*_):
  raise Late()


class Out:
  """what one task delivers"""

  def __init__(self, task):
    self.task = task
    self.findings = []
    self.stats = {}
    self.undecided = []
    self.error = None
    self.notes = {}
    self.wall = 0.0


def run_task(passes, task, limit):
  kind = task[0]
  p = passes[kind]
  out = Out(task)
  t = time.time()
  signal.signal(signal.SIGALRM, _late)
  signal.setitimer(signal.ITIMER_REAL, max(1.0, limit))
  try:
    p.reset()
    p.task(*task[1:])
    signal.setitimer(signal.ITIMER_REAL, 0)
  except Late:
    out.error = 'not finished within %.0f s' % limit
    slices(p, task)
  except RecursionError:
    out.error = 'recursion limit'
    slices(p, task)
  except Exception as e:  # noqa: BLE001  an unforeseen construct: this part stays undecided
    out.error = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-6))
    slices(p, task)
  finally:
    signal.setitimer(signal.ITIMER_REAL, 0)
  try:
    p.abandon()
    out.findings = list(p.findings.values())
    out.stats = p.stats.dict()
    out.undecided = list(p.I.undecided[:20])
    out.n_undecided = len(p.I.undecided)
    out.notes = p.notes()
  except Exception as e:  # noqa: BLE001
    out.error = (out.error or '') + ' / ' + repr(e)
  out.wall = time.time() - t
  return out


def slices(p, task):
  """a task that took too long: its input in slices"""
  if not hasattr(p, 'late'):
    return
  signal.setitimer(signal.ITIMER_REAL, 90)
  try:
    p.abandon()
    p.late(*task[1:])
  except (Late, RecursionError, Exception):  # noqa: BLE001
    pass
  finally:
    signal.setitimer(signal.ITIMER_REAL, 0)


def run_all(passes, tasks, deadline, jobs, per_task, enough=None):
  """tasks over forked processes; the passes are built before the fork"""
  if jobs <= 1:
    outs = []
    for t in tasks:
      left = deadline - time.time()
      if left <= 1:
        o = Out(t)
        o.error = 'not started: out of time'
        outs.append(o)
        continue
      outs.append(run_task(passes, t, min(per_task, left)))
    return outs
  ctx = multiprocessing.get_context('fork')
  inq, outq = ctx.SimpleQueue(), ctx.SimpleQueue()

  def work():
    while True:
      i = inq.get()
      if i is None:
        return
      left = deadline - time.time()
      if left <= 1:
        o = Out(tasks[i])
        o.error = 'not started: out of time'
      else:
        o = run_task(passes, tasks[i], min(per_task, left))
      outq.put((i, o))
  for i in range(len(tasks)):
    inq.put(i)
  procs = []
  for _ in range(min(jobs, len(tasks))):
    inq.put(None)
    p = ctx.Process(target=work, daemon=True)
    p.start()
    procs.append(p)
  outs = {}
  import threading
  done = threading.Event()

  def collect():
    while len(outs) < len(tasks):
      i, o = outq.get()
      outs[i] = o
    done.set()
  th = threading.Thread(target=collect, daemon=True)
  th.start()
  settled = None
  while not done.wait(0.05):
    if enough is not None:
      if settled is None and any(enough(o) for o in list(outs.values())):
        settled = time.time()
      # the verdict stands: what is still running would only add to the list
      if settled is not None and time.time() > settled + 20:
        break
    if not any(p.is_alive() for p in procs):
      if done.wait(3):
        break
      break
    if time.time() > deadline + 30:
      break
  for p in procs:
    if p.is_alive():
      p.terminate()
  for i, t in enumerate(tasks):
    if i not in outs:
      o = Out(t)
      o.error = 'not needed: a violation was found before' if settled else 'the process analysing it ended'
      outs[i] = o
  return [outs[i] for i in range(len(tasks))]


def jobs():
  try:
    n = len(os.sched_getaffinity(0))
  except AttributeError:
    n = os.cpu_count() or 1
  return max(1, min(8, n))


# ------------------------------------------------------------------ known findings

def known():
  """[(property, key text)] listed as known, from the committed file"""
  out = []
  try:
    with open(KNOWN) as f:
      for line in f:
        line = line.strip()
        if not line.startswith('known:'):
          continue
        # known: property=C07 key=<rule>|<key> what
        parts = line.split(None, 3)
        prop = parts[1].split('=', 1)[1]
        key = parts[2].split('=', 1)[1]
        out.append((prop, key, parts[3] if len(parts) > 3 else ''))
  except FileNotFoundError:
    pass
  return out


def key_text(f):
  k = f.key
  if isinstance(k, tuple):
    k = '/'.join(str(x) for x in k)
  return ('%s|%s' % (f.rule, k)).replace(' ', '_')


# ------------------------------------------------------------------ one property

def check(prop, tier, seed, only=None):
  t0 = time.time()
  spec = catalog.PROPERTIES[prop]
  budget = 600 if tier == 'quick' else 3000
  deadline = t0 + budget
  try:
    passes, tasks = catalog.plan(prop, tier)
  except Broken as e:
    print('analysis broken: %s' % e)
    return 2
  if only:
    tasks = [t for t in tasks if t[0] == only or (len(t) > 1 and t[1] == only)]
  order = sorted(range(len(tasks)), key=lambda i: -catalog.weight(tasks[i]))
  tasks = [tasks[i] for i in order]
  listed = {(p, k) for p, k, _ in known()}

  def enough(o):
    if o.task[0] == 'warm' and o.task[1] != 'probes':
      return False             # compared with a run without history first
    return any(prop in f.tags and (prop, key_text(f)) not in listed for f in o.findings)
  outs = run_all(passes, tasks, deadline, jobs(), 200 if tier == 'quick' else 900,
                 None if tier == 'thorough' else enough)
  for _ in range(3):
    more = catalog.followup(prop, outs)
    if not more or time.time() > deadline:
      break
    outs = outs + run_all(more[0], more[1], deadline + 200, jobs(), 200 if tier == 'quick' else 900)
  catalog.settle(prop, outs)
  total = Stats()
  merged = {}
  undecided = []
  errors = []
  notes = {}
  by_pass = {}
  for o in outs:
    if o.stats:
      total.add(o.stats)
    d = by_pass.setdefault(o.task[0], {'tasks': 0, 'wall_s': 0.0, 'leaves': 0, 'comparisons': 0, 'undecided': 0})
    d['tasks'] += 1
    d['wall_s'] = round(d['wall_s'] + o.wall, 2)
    if o.stats:
      d['leaves'] += o.stats['leaves']
      d['comparisons'] += o.stats['compared']
      d['undecided'] += o.stats['undecided']
    for f in o.findings:
      k = (f.rule, str(f.key))
      if k in merged:
        merged[k].tags |= f.tags
      else:
        merged[k] = f
    undecided.extend(o.undecided)
    if o.error:
      errors.append({'task': list(map(str, o.task)), 'error': o.error})
    catalog.merge_notes(notes, o.notes)
  mine = [f for f in merged.values() if prop in f.tags]
  mine.sort(key=lambda f: (f.rule, str(f.key)))
  lst = [(p, k, w) for p, k, w in known() if p == prop]
  hits, fresh = [], []
  for f in mine:
    kt = key_text(f)
    m = next((x for x in lst if x[1] == kt), None)
    if m:
      hits.append((m, f))
    else:
      fresh.append(f)
  for m, f in hits:
    print('KNOWN-FINDING: property=%s %s' % (prop, f.what))
  # vacuity: what a reading of the current tree has to reach
  vac = catalog.vacuous(prop, total, notes, outs)
  wall = time.time() - t0
  funcs = sorted(notes.get('functions', ()))
  cov = {
      'explanation': spec['rule'],
      'rule': spec['rule'],
      'passes': by_pass,
      'parts_of_the_input': total.leaves,
      'paths_followed': total.paths,
      'branch_tests': total.tests,
      'records_accepted_parts': total.accepted,
      'records_rejected_parts': total.rejected,
      'raising_parts': total.raising,
      'comparisons': total.compared,
      'comparisons_closed_symbolically': total.proved,
      'comparisons_closed_by_enumeration': total.enumerated,
      'comparisons_only_sampled': total.sampled,
      'field_rows_compared': total.rows,
      'undecided_parts': total.undecided,
      'undecided_comparisons': total.undecided_cmp,
      'slices_of_undecided_parts': total.slices,
      'unconfirmed_candidates': total.unconfirmed,
      'functions_analysed': len(funcs),
      'functions': funcs[:400],
      'files_analysed': sorted(notes.get('files', ())),
      'layouts_reached': len(notes.get('layouts', ())),
      'obligations_by_rule': {k: v for k, v in sorted(notes.get('rules', {}).items())},
      'undecided_reasons': sorted({'%s (%s)' % (a, b.replace(REPO + '/', '')) for a, b in undecided})[:20],
      'errors': errors[:10],
      'known_findings': [w[1] for w, _ in hits],
      'vacuity': vac or 'none',
  }
  os.makedirs(EVIDENCE, exist_ok=True)
  rc = 0
  for i, f in enumerate(fresh):
    path = os.path.join(EVIDENCE, '%s-%d.replay.json' % (prop, i + 1))
    with open(path, 'w') as fh:
      json.dump({'property': prop, 'rule': f.rule, 'site': f.site, 'what': f.what, 'input': f.line, 'key': key_text(f),
                 'tags': sorted(f.tags)}, fh, indent=1, default=str)
    if i < 12:
      print('%s: %s [%s]' % (f.site, f.what, f.rule))
      if f.line is not None:
        print('   on %r' % (f.line,))
    if i < 5:
      print('VIOLATION property=%s replay=%s' % (prop, path))
    rc = 1
  ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
        'assumptions': catalog.ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': len(fresh)}
  with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as fh:
    json.dump(ev, fh, indent=1, default=str)
  if rc == 0 and vac:
    print('analysis broken: %s' % vac)
    for e in errors[:3]:
      print(e['task'], e['error'])
    return 2
  print('%s: %d parts, %d comparisons, %d findings, %d undecided, %d errors, %.1f s' % (
      prop, total.leaves, total.compared, len(fresh), total.undecided + total.undecided_cmp, len(errors), wall))
  if errors and os.environ.get('VERIF_DEBUG'):
    for e in errors:
      print(e['task'], e['error'])
  return rc


def main(argv):
  import argparse
  ap = argparse.ArgumentParser()
  ap.add_argument('property')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--only')
  a = ap.parse_args(argv)
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  return check(a.property, 'thorough' if a.tier == 'thorough' else 'quick', seed, a.only)
