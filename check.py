#!/usr/bin/env python3
"""check.py ID | check.py setup | check.py replay FILE

Rebuilds the instrumented copy of /repo, runs the monitored workloads of one
property and reports.  Exit 0: the property held on everything observed;
exit 1: VIOLATION; exit 2: the check could not run."""
import array, fcntl, glob, json, os, re, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
sys.path.insert(0, os.path.join(HERE, 'tools'))
import instrument
from plan import PLAN, ASSUME

ENV = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, 'target'),
           CARGO_NET_OFFLINE='true')
ENV.pop('RUSTFLAGS', None)
BIN = os.path.join(BUILD, 'target', 'release', 'harness')


def say(*a):
  print(*a, flush=True)


def build():
  t0 = time.time()
  out = os.path.join(BUILD, 'inst')
  log = ''
  n = len(instrument.ACC['subjects/subject.rs'][2])
  for variant in range(n):
    instrument.build(REPO, out, os.path.join(HERE, 'vrt'),
                     {'subjects/subject.rs': variant})
    p = subprocess.run(['cargo', 'build', '--release', '--offline', '-q'],
                       cwd=os.path.join(HERE, 'harness'), env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    log = p.stdout.decode('utf-8', 'replace')
    if p.returncode == 0:
      return variant, time.time() - t0
  say(log[-6000:])
  say('check: the instrumented copy does not build')
  sys.exit(2)


def replay(prop, seed, idx, limit=120):
  """a fresh process; -> (failed, output)"""
  try:
    p = subprocess.run([BIN, 'replay', prop, str(seed), str(idx)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=limit, env=ENV)
    out = p.stdout.decode('utf-8', 'replace')
    if p.returncode == 1:
      return True, out
    if p.returncode < 0 and p.returncode != -signal.SIGKILL:
      return True, 'the process died of signal %d\n%s' % (-p.returncode,
                                                          out[-2000:])
    return False, out
  except subprocess.TimeoutExpired:
    return True, 'no progress within %d s of a single execution' % limit


class Worker:
  def __init__(self, job, seed, n, k, secs, out):
    self.job, self.seed, self.n, self.k, self.out = job, seed, n, k, out
    self.begin = time.time()
    self.end = self.begin + secs
    self.start = 0
    self.restarts = 0
    self.parts = []
    self.crash = None
    self.note = []
    self.launch()

  def launch(self):
    self.file = '%s.%d' % (self.out, self.restarts)
    secs = max(1, int(self.end - time.time()))
    self.log = open(self.file + '.log', 'wb')
    self.p = subprocess.Popen(
        [BIN, 'run', self.job['run'], str(self.seed), str(self.start),
         str(self.job['n']), str(self.n), str(self.k), str(secs), '4',
         self.file], stdout=self.log, stderr=subprocess.STDOUT, env=ENV)

  def cur(self):
    try:
      b = open(self.file + '.cur', 'rb').read()
      return int.from_bytes(b[:8], 'little') if len(b) >= 8 else None
    except OSError:
      return None

  def poll(self):
    """True when finished"""
    rc = self.p.poll()
    if rc is None:
      if time.time() > self.end + 150:
        self.p.kill()
        self.p.wait()
        self.note.append('worker overran its time')
        return True
      return False
    self.log.close()
    if rc == 0:
      self.parts.append(self.file)
      return True
    cur = self.cur()
    tail = open(self.file + '.log', 'rb').read()[-1500:].decode('utf-8',
                                                                'replace')
    if rc == 4 or (rc < 0 and rc != -signal.SIGKILL):
      if cur is not None:
        self.crash = (cur, 'worker ended with %d: %s' % (rc, tail))
        return True
    self.note.append('worker ended with %d at case %s: %s' % (rc, cur, tail))
    if self.restarts < 20 and cur is not None and time.time() < self.end:
      self.restarts += 1
      self.start = cur - self.k + self.n if rc == 3 else cur - self.k
      self.launch()
      return False
    return True


def known():
  """lines: known: property=<id> run=<workload> match=<regex> <text>"""
  res = []
  try:
    for l in open(os.path.join(HERE, 'KNOWN_FINDINGS')):
      m = re.match(r'known: property=(\S+) match=/(.*)/ (.*)', l.strip())
      if m:
        res.append((m.group(1), re.compile(m.group(2), re.S), m.group(3)))
  except OSError:
    pass
  return res


def main(prop):
  t0 = time.time()
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  tier = (sys.argv + ['', ''])[2] or os.environ.get('VERIF_TIER', 'quick')
  tier = tier if tier in ('quick', 'thorough') else 'quick'
  variant, tb = build()
  plan = PLAN[prop]
  cpus = max(2, min(16, os.cpu_count() or 8))
  work = os.path.join(BUILD, 'run', prop)
  os.makedirs(work, exist_ok=True)
  for f in glob.glob(os.path.join(work, '*')):
    os.remove(f)
  violations, notes, jobs_cov, samples = [], [], [], []
  tot = dict(evals=0, events=0, steps=0, skipped=0, switches=0, cases=0)
  distinct = 0
  findings = set()
  kn = [k for k in known() if k[0] == prop]
  for ji, spec in enumerate(plan):
    q = spec[tier]
    job = dict(run=spec['run'], n=q[0])
    tj = time.time()
    ws = [Worker(job, seed, cpus, k, q[1], os.path.join(work, 'j%d.w%d' % (ji, k)))
          for k in range(cpus)]
    pending = list(ws)
    while pending:
      pending = [w for w in pending if not w.poll()]
      if pending:
        time.sleep(0.02)
    cov = dict(workload=spec['run'], what=spec['what'], cases=0, executions=0,
               events_observed=0, scheduling_points=0, context_switches=0,
               skipped=0, completed=True, kinds={})
    seen = set()
    fails = []
    for w in ws:
      notes += w.note
      if w.note:
        cov['completed'] = False
      if w.crash:
        fails.append(w.crash)
        cov['completed'] = False
      for f in w.parts:
        try:
          r = json.load(open(f), strict=False)
        except Exception as e:
          notes.append('unreadable result %s: %s' % (f, e))
          continue
        cov['cases'] += r['cases']
        cov['executions'] += r['evals']
        cov['events_observed'] += r['events']
        cov['scheduling_points'] += r['steps']
        cov['context_switches'] += r['switches']
        cov['skipped'] += r['skipped']
        cov['completed'] &= r['complete']
        for k, v in r['kinds'].items():
          cov['kinds'][k] = cov['kinds'].get(k, 0) + v
        if len(samples) < 8:
          samples += r['samples'][:1]
        fails += [(i, m) for i, m in r['fails']]
        a = array.array('Q')
        try:
          with open(f + '.seen', 'rb') as h:
            a.frombytes(h.read())
          seen.update(a)
        except OSError:
          pass
    cov['distinct'] = len(seen)
    cov['wall_s'] = round(time.time() - tj, 1)
    distinct += len(seen)
    jobs_cov.append(cov)
    for a, b in (('evals', 'executions'), ('events', 'events_observed'),
                 ('steps', 'scheduling_points'), ('skipped', 'skipped'),
                 ('switches', 'context_switches'), ('cases', 'cases')):
      tot[a] += cov[b]
    # a failure counts once a fresh process shows it again
    fails.sort(key=lambda x: (len(x[1]), x[0]))
    confirmed = 0
    for i, m in fails:
      ok, out = replay(job['run'], seed, i)
      if not ok:
        notes.append('case %d of %s failed once but not when replayed: %s' %
                     (i, job['run'], m[:500]))
        continue
      hit = next((k for k in kn if k[1].search(out)), None)
      if hit:
        findings.add(hit[2])
        continue
      violations.append((job['run'], i, out))
      confirmed += 1
      if confirmed >= 3:
        break
    if violations:
      break
  for f in sorted(findings):
    say('KNOWN-FINDING: property=%s %s' % (prop, f))
  os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
  ev = dict(
      property=prop, tier=tier, seed=seed, level='exploration',
      coverage=dict(
          evaluations=tot['evals'],
          distinct_nontrivial=distinct,
          rule='; '.join('%s: %s' % (s['run'], s['rule']) for s in plan),
          samples=samples or ['(no execution delivered an event)'],
          events_observed=tot['events'],
          scheduling_points=tot['steps'],
          context_switches=tot['switches'],
          skipped=tot['skipped'],
          workloads=jobs_cov,
          build_s=round(tb, 1),
          accessor_variant=variant,
          notes=notes[:20]),
      assumptions=ASSUME,
      wall_s=round(time.time() - t0, 1),
      violations=len(violations))
  with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
    json.dump(ev, f, indent=1)
  for f in glob.glob(os.path.join(work, '*.seen')):
    os.remove(f)
  say('%s %s seed=%d: %d executions, %d distinct, %d events, %d skipped, %.1fs'
      % (prop, tier, seed, tot['evals'], distinct, tot['events'],
         tot['skipped'], time.time() - t0))
  if violations:
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    run, i, out = violations[0]
    path = os.path.join(HERE, 'replay', '%s-%s-%d.json' % (prop, run, i))
    with open(path, 'w') as f:
      json.dump(dict(property=prop, run=run, seed=seed, case=i, report=out,
                     command='python3 check.py replay ' + path), f, indent=1)
    for run, i, out in violations:
      say(out[:3000])
    say('VIOLATION property=%s replay=%s' % (prop, path))
    sys.exit(1)
  for n in notes[:5]:
    say('note:', n[:400])
  if tot['evals'] == 0:
    say('check: nothing was executed')
    sys.exit(2)
  sys.exit(0)


if __name__ == '__main__':
  os.makedirs(BUILD, exist_ok=True)
  with open(os.path.join(BUILD, 'lock'), 'w') as lk:
    fcntl.flock(lk, fcntl.LOCK_EX)
    a = sys.argv[1]
    if a == 'setup':
      say('built, accessor variant %d, %.1fs' % build())
    elif a == 'replay':
      build()
      r = json.load(open(sys.argv[2]))
      failed, out = replay(r['run'], r['seed'], r['case'])
      say(out)
      sys.exit(1 if failed else 0)
    else:
      main(a)
