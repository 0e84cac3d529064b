//! C08: programs over the schedulers.
use crate::conc::*;
use another_rxrust::prelude::*;
use scheduler::IScheduler;
use std::sync::{Arc, Mutex};
use vrt::rng::Rng;
use vrt::rt::{self, Cfg};

#[derive(Clone, Debug)]
enum Act {
  Post(Arc<Task>),
  Abort,
  Nap(u64),
  Yield,
}
#[derive(Clone, Debug)]
struct Task {
  id: usize,
  sched: usize,
  body: Vec<Act>,
  /// done by the destructor of the posted closure
  last: Vec<Act>,
}
struct Last(Arc<Env>, Arc<Task>);
impl Drop for Last {
  fn drop(&mut self) {
    if rt::active() && !self.1.last.is_empty() {
      perform(&self.0, &self.1.last, self.1.sched, true);
    }
  }
}

#[derive(Clone, Debug, Default)]
struct TaskRec {
  posts: Vec<(u64, u64, usize)>,
  runs: Vec<(u64, u64, usize)>,
}
#[derive(Default)]
struct Log {
  tasks: Vec<TaskRec>,
  /// (scheduler, begin, end, tid)
  aborts: Vec<(usize, u64, u64, usize)>,
  /// scheduler -> tid of the poster threads is everything not in workers
  alive_after: Vec<(usize, String)>,
}
struct Env {
  m: M,
  log: Mutex<Log>,
  sched: Vec<schedulers::NewThreadScheduler<'static>>,
}

fn gen_acts(
  r: &mut Rng,
  n: usize,
  depth: usize,
  ids: &mut usize,
  nsched: usize,
  abort: u32,
  cur: usize,
) -> Vec<Act> {
  (0..n)
    .map(|_| {
      if r.chance(abort) {
        return Act::Abort;
      }
      match r.below(8) {
        0 => Act::Yield,
        1 if depth < 2 => Act::Nap(1 + r.below(3) as u64),
        _ => {
          let id = *ids;
          *ids += 1;
          let sched = if r.chance(150) { r.below(nsched) } else { cur };
          let body = if depth < 2 && r.chance(300) {
            let n = 1 + r.below(2);
            gen_acts(r, n, depth + 1, ids, nsched, abort / 2, sched)
          } else if r.chance(200) {
            vec![Act::Yield]
          } else {
            vec![]
          };
          let last = if depth < 2 && r.chance(120) {
            match r.below(4) {
              0 => vec![Act::Yield],
              1 if abort > 0 => vec![Act::Abort],
              _ => {
                let n = 1 + r.below(2);
                gen_acts(r, n, 2, ids, nsched, 0, sched)
              }
            }
          } else {
            vec![]
          };
          Act::Post(Arc::new(Task { id, sched, body, last }))
        }
      }
    })
    .collect()
}

fn perform(e: &Arc<Env>, acts: &[Act], cur: usize, dropping: bool) {
  for a in acts {
    match a {
      Act::Yield => rt::point("yield", 0),
      Act::Nap(x) => nap(*x),
      Act::Abort => {
        let b = e.m.tick();
        e.sched[cur].abort();
        let en = e.m.tick();
        e.log.lock().unwrap().aborts.push((cur, b, en, rt::tid()));
      }
      Act::Post(t) => {
        let (e2, t2) = (e.clone(), t.clone());
        let b = e.m.tick();
        let me = if dropping { usize::MAX } else { rt::tid() };
        let last = Arc::new(Last(e.clone(), t.clone()));
        let k = {
          let mut l = e.log.lock().unwrap();
          l.tasks[t.id].posts.push((b, u64::MAX, me));
          l.tasks[t.id].posts.len() - 1
        };
        e.sched[t.sched].post(move || {
          let _ = &last;
          run_task(&e2, &t2)
        });
        let en = e.m.tick();
        e.log.lock().unwrap().tasks[t.id].posts[k].1 = en;
      }
    }
  }
}
fn run_task(e: &Arc<Env>, t: &Arc<Task>) {
  let b = e.m.tick();
  let k = {
    let mut l = e.log.lock().unwrap();
    l.tasks[t.id].runs.push((b, u64::MAX, rt::tid()));
    l.tasks[t.id].runs.len() - 1
  };
  rt::point("task", t.id as u64);
  perform(e, &t.body, t.sched, false);
  let en = e.m.tick();
  e.log.lock().unwrap().tasks[t.id].runs[k].1 = en;
}

fn flat(acts: &[Act], out: &mut Vec<Arc<Task>>) {
  for a in acts {
    if let Act::Post(t) = a {
      out.push(t.clone());
      flat(&t.body, out);
      flat(&t.last, out);
    }
  }
}

pub fn scenario(r: &mut Rng) -> Scen {
  if r.chance(60) {
    return default_sched(r);
  }
  let mut ids = 0;
  let nsched = if r.chance(150) { 2 } else { 1 };
  let aborting = r.chance(650);
  let ab = if aborting { 60 } else { 0 };
  let np = r.below(4);
  let big = large(r);
  let n = if !big {
    1 + r.below(4)
  } else if r.chance(100) {
    250 + r.below(20)
  } else {
    10 + r.below(40)
  };
  let mut scripts: Vec<(usize, Vec<Act>)> = Vec::new();
  let s0 = r.below(nsched);
  scripts.push((s0, gen_acts(r, n, 0, &mut ids, nsched, ab, s0)));
  for _ in 0..np {
    let n = 1 + r.below(if big { 20 } else { 4 });
    let s = r.below(nsched);
    scripts.push((s, gen_acts(r, n, 0, &mut ids, nsched, ab, s)));
  }
  if aborting {
    // someone is bound to abort each scheduler
    for s in 0..nsched {
      match r.below(3) {
        0 => scripts.push((s, vec![Act::Abort])),
        1 => scripts[0].1.push(Act::Abort),
        _ => scripts.push((s, vec![Act::Nap(1), Act::Abort, Act::Abort])),
      }
    }
  }
  let desc = format!("scheduler programs {:?}", scripts);
  let mut all = Vec::new();
  for s in &scripts {
    flat(&s.1, &mut all);
  }
  let kinds = vec![
    if aborting { "abort" } else { "no-abort" },
    if np == 0 { "one-poster" } else { "several-posters" },
    if nsched > 1 { "two-schedulers" } else { "one-scheduler" },
  ];
  let mut sc = Scen::new(
    desc,
    kinds,
    Box::new(move |cfg: Cfg| {
      let m = Mon::new();
      let slot: Arc<Mutex<Option<Arc<Env>>>> = Arc::new(Mutex::new(None));
      let scripts = scripts.clone();
      let (m2, total) = (m.clone(), ids);
      let (rep, slot) = run(cfg, slot, move |slot| {
        let e = Arc::new(Env {
          m: m2,
          log: Mutex::new(Log {
            tasks: vec![TaskRec::default(); total],
            ..Log::default()
          }),
          sched: (0..nsched)
            .map(|_| schedulers::new_thread_scheduler()())
            .collect(),
        });
        *slot.lock().unwrap() = Some(e.clone());
        let mut h = Vec::new();
        for (s, acts) in scripts[1..].iter().cloned() {
          let e = e.clone();
          h.push(go(move || perform(&e, &acts, s, false)));
        }
        perform(&e, &scripts[0].1, scripts[0].0, false);
        join_all(h);
        settle(5000);
        let a = rt::others_alive();
        e.log.lock().unwrap().alive_after = a;
      });
      let e = slot.lock().unwrap().take();
      let Some(e) = e else {
        return Exec { rep, verdict: None, events: 0, sample: String::new() };
      };
      let l = e.log.lock().unwrap();
      let verdict = judge(&l, &all, nsched);
      let events = l.tasks.iter().map(|t| t.runs.len()).sum();
      let sample = format!(
        "tasks (posts, runs) {:?} aborts {:?}",
        l.tasks.iter().map(|t| (&t.posts, &t.runs)).collect::<Vec<_>>(),
        l.aborts
      );
      drop(l);
      Exec { rep, verdict, events, sample }
    }),
  );
  sc.budget.spurious = true;
  sc.budget.lazy = true;
  if big {
    sc.large();
  }
  sc
}

fn judge(l: &Log, all: &[Arc<Task>], nsched: usize) -> Option<String> {
  for s in 0..nsched {
    let ts: Vec<usize> =
      all.iter().filter(|t| t.sched == s).map(|t| t.id).collect();
    if let Some(v) = judge_one(l, &ts, s) {
      return Some(v);
    }
  }
  // workers of aborted schedulers are gone
  let aborted =
    (0..nsched).filter(|s| l.aborts.iter().any(|a| a.0 == *s)).count();
  if l.alive_after.len() > nsched - aborted {
    return Some(format!(
      "{} worker threads alive after {} of {} schedulers were aborted: {:?}",
      l.alive_after.len(), aborted, nsched, l.alive_after
    ));
  }
  None
}

fn judge_one(l: &Log, ts: &[usize], s: usize) -> Option<String> {
  let t = |i: usize| &l.tasks[i];
  let ab: Vec<_> = l.aborts.iter().filter(|a| a.0 == s).collect();
  let first_begin = ab.iter().map(|a| a.1).min().unwrap_or(u64::MAX);
  let first_end = ab.iter().map(|a| a.2).min().unwrap_or(u64::MAX);
  let mut runs: Vec<(u64, u64, usize, usize)> = Vec::new();
  for &i in ts {
    if t(i).runs.len() > t(i).posts.len() {
      return Some(format!("task {} ran {} times", i, t(i).runs.len()));
    }
    for x in &t(i).runs {
      runs.push((x.0, x.1, x.2, i));
    }
  }
  runs.sort();
  for w in runs.windows(2) {
    if w[1].0 < w[0].1 {
      return Some(format!(
        "tasks {} and {} of one scheduler overlap",
        w[0].3, w[1].3
      ));
    }
    if w[1].2 != w[0].2 {
      return Some(format!(
        "tasks {} and {} ran on different threads {} and {}",
        w[0].3, w[1].3, w[0].2, w[1].2
      ));
    }
  }
  if let Some(w) = runs.first().map(|r| r.2) {
    for &i in ts {
      for p in &t(i).posts {
        // a task may post to its own scheduler from the worker itself
        let nested = ts.iter().any(|&j| {
          t(j).runs.iter().any(|r| r.2 == p.2 && r.0 < p.0 && p.0 < r.1)
        });
        if p.2 == w && !nested {
          return Some(format!(
            "task {} was posted from the thread that runs the tasks ({})",
            i, w
          ));
        }
      }
    }
  }
  for &a in ts {
    for &b in ts {
      let (Some(pa), Some(pb)) = (t(a).posts.first(), t(b).posts.first())
      else {
        continue;
      };
      if pa.1 >= pb.0 {
        continue;
      }
      match (t(a).runs.first(), t(b).runs.first()) {
        (Some(x), Some(y)) if x.0 > y.0 => {
          return Some(format!(
            "task {} was posted before task {} but ran after it",
            a, b
          ))
        }
        (None, Some(y)) if first_begin > y.0 => {
          return Some(format!(
            "task {} was posted before task {} and never ran, though nothing was aborted",
            a, b
          ))
        }
        _ => {}
      }
    }
  }
  // run or discarded
  for &i in ts {
    if !t(i).posts.is_empty() && t(i).runs.is_empty() && ab.is_empty() {
      return Some(format!(
        "task {} was posted, nothing was aborted, and it never ran",
        i
      ));
    }
    if let Some(x) = t(i).runs.first() {
      if x.1 == u64::MAX {
        return Some(format!("task {} never returned", i));
      }
    }
  }
  // after abort returned
  if first_end < u64::MAX {
    let later: Vec<_> = runs.iter().filter(|r| r.0 > first_end).collect();
    let busy = runs.iter().any(|r| r.0 < first_end && r.1 > first_end);
    if later.len() > if busy { 0 } else { 1 } {
      return Some(format!(
        "{} tasks started after abort had returned at {} ({}): {:?}",
        later.len(),
        first_end,
        if busy { "a task was in progress" } else { "the worker was between tasks" },
        later
      ));
    }
    for r in later {
      if t(r.3).posts[0].0 > first_end {
        return Some(format!(
          "task {} was posted after abort had returned and still ran",
          r.3
        ));
      }
    }
  }
  None
}

fn default_sched(r: &mut Rng) -> Scen {
  let n = 1 + r.below(4);
  let th = 1 + r.below(3);
  Scen::new(
    format!("default scheduler, {} threads posting {} tasks", th, n),
    vec!["default"],
    Box::new(move |cfg| {
      let m = Mon::new();
      let log: Arc<Mutex<(Vec<String>, usize)>> = Arc::default();
      let (rep, log) = run(cfg, log, move |log| {
        let s = schedulers::default_scheduler()();
        let h = (0..th)
          .map(|_| {
            let (s, m, log) = (s.clone(), m.clone(), log.clone());
            go(move || {
              for k in 0..n {
                let hit = Arc::new(Mutex::new(Vec::new()));
                let (h2, m2) = (hit.clone(), m.clone());
                s.post(move || {
                  let b = m2.tick();
                  rt::point("task", 0);
                  h2.lock().unwrap().push((b, rt::tid()));
                });
                let v = hit.lock().unwrap().clone();
                let mut l = log.lock().unwrap();
                l.1 += v.len();
                if v.len() != 1 || v[0].1 != rt::tid() {
                  l.0.push(format!(
                    "post of task {} returned with runs {:?} (poster {})",
                    k, v, rt::tid()
                  ));
                }
                drop(l);
                if k == 1 {
                  s.abort();
                }
              }
            })
          })
          .collect();
        join_all(h);
      });
      let l = log.lock().unwrap();
      Exec {
        rep,
        verdict: l.0.first().cloned(),
        events: l.1,
        sample: format!("{} tasks", l.1),
      }
    }),
  )
}
