//! C12: producers, joiners and leavers on one subject.
use crate::c10::{Kind, Subj, INIT};
use crate::conc::*;
use crate::lab::*;
use crate::val::*;
use another_rxrust::prelude::*;
use std::sync::{Arc, Mutex};
use vrt::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Join {
  /// before the producers start
  First,
  /// while they are at it
  Late(u64),
  /// while they are at it, through ready_set_go whose action pushes an item
  Ready(u64),
  /// after the producers are done, before the terminal
  After,
  /// after the terminal
  Past,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Leave {
  No,
  /// from its own thread
  At(u64),
  /// inside its n-th callback
  In(usize),
}
#[derive(Clone, Debug)]
struct Who {
  join: Join,
  leave: Leave,
  /// virtual time its callbacks take
  slow: u64,
}

#[derive(Clone, Default, Debug)]
struct Span {
  sub: Option<(u64, u64)>,
  unsub: Option<(u64, u64)>,
}
#[derive(Default)]
struct Out {
  span: Vec<Span>,
  end: Option<(u64, u64)>,
  /// observers held after everything but the terminal, and after it
  held: [Option<usize>; 2],
  open: usize,
}

pub fn scenario(prop: &str, r: &mut Rng) -> Scen {
  let kind = *r.pick(&[
    Kind::Plain,
    Kind::Plain,
    Kind::Behavior,
    Kind::Behavior,
    Kind::Replay,
    Kind::Replay,
    Kind::Async,
  ]);
  let big = large(r);
  let np = 1 + r.below(if big { 5 } else { 3 });
  let timed = r.chance(300);
  let naps = if timed { 300 } else { 0 };
  let plays: Vec<Play> = (0..np)
    .map(|p| {
      let n = 1 + r.below(if big { 30 } else { 4 });
      Play::gen(r, p, n, naps, End::Open)
    })
    .collect();
  let nw = 1 + r.below(if big { 9 } else { 4 });
  let whos: Vec<Who> = (0..nw)
    .map(|_| {
      let d = if timed { r.below(4) as u64 } else { 0 };
      let join = match r.below(10) {
        0..=3 => Join::First,
        4..=7 => Join::Late(d),
        8 if kind != Kind::Async => Join::Ready(d),
        8 => Join::Late(d),
        _ => {
          if r.chance(500) {
            Join::After
          } else {
            Join::Past
          }
        }
      };
      let leave = match r.below(10) {
        0..=1 => Leave::At(if timed { r.below(3) as u64 } else { 0 }),
        2 => Leave::In(1 + r.below(if big { 20 } else { 3 })),
        _ => Leave::No,
      };
      let slow = if timed && r.chance(150) { 1 } else { 0 };
      Who { join, leave, slow }
    })
    .collect();
  let end = match r.below(6) {
    0 => End::Open,
    1 => End::E,
    _ => End::C,
  };
  // the terminal may overtake a joiner
  let hasty = r.chance(250);
  let fresh = r.chance(500);
  let desc = format!(
    "{:?} subject, producers {:?}, observers {:?}, end {:?}{}{}",
    kind,
    plays.iter().map(|p| &p.items).collect::<Vec<_>>(),
    whos,
    end,
    if hasty { " (not waiting for joiners)" } else { "" },
    if fresh { "" } else { ", one observable" },
  );
  let kinds = vec![
    match kind {
      Kind::Plain => "Subject",
      Kind::Behavior => "BehaviorSubject",
      Kind::Replay => "ReplaySubject",
      Kind::Async => "AsyncSubject",
    },
    if np > 1 { "several-producers" } else { "one-producer" },
  ];
  let prop = prop.to_string();
  let mut sc = Scen::new(
    desc,
    kinds,
    Box::new(move |cfg| {
      let m = Mon::new();
      let out = Arc::new(Mutex::new(Out::default()));
      let (m2, p2, w2) = (m.clone(), plays.clone(), whos.clone());
      let (rep, out) = run(cfg, out, move |out| {
        out.lock().unwrap().span = vec![Span::default(); w2.len()];
        let s = Subj::new(kind);
        let e = Arc::new(Env {
          m: m2,
          o: if fresh { None } else { Some(s.observable()) },
          s,
          subs: Mutex::new(vec![None; w2.len()]),
          whos: w2,
          out,
        });
        drive(e, p2, end, hasty)
      });
      finish(rep, &m, || {
        let o = out.lock().unwrap();
        if prop == "C10mt" {
          return judge_held(&m, kind, &whos, end, &o);
        }
        (0..whos.len())
          .find_map(|k| judge(&m, kind, &plays, &whos, k, end, &o))
          .or_else(|| agree(&m, kind, &whos, end))
      })
    }),
  );
  sc.budget.spurious = true;
  sc.budget.lazy = true;
  if big {
    sc.large();
  }
  sc
}

struct Env {
  m: M,
  s: Subj,
  o: Option<Ob<i64>>,
  whos: Vec<Who>,
  subs: Mutex<Vec<Option<Sub>>>,
  out: Arc<Mutex<Out>>,
}
fn subscribe(e: &Arc<Env>, k: usize) {
  let w = e.whos[k].clone();
  let mut o = e.o.clone().unwrap_or_else(|| e.s.observable());
  if let Join::Ready(_) = w.join {
    let e = e.clone();
    o = utils::ready_set_go(
      move || {
        let x = uid(9 + k, 0);
        e.m.put(9 + k, Te::N(Tv::I(x)), || e.s.next(x));
      },
      o,
    )
  }
  let b = e.m.tick();
  let e2 = e.clone();
  let sub = watch(&e.m, &o, k, itv, move |n, _| {
    if w.slow > 0 {
      nap(w.slow);
    }
    if w.leave == Leave::In(n) {
      leave(&e2, k);
    }
  });
  e.out.lock().unwrap().span[k].sub = Some((b, e.m.tick()));
  e.subs.lock().unwrap()[k] = Some(sub);
}
fn leave(e: &Arc<Env>, k: usize) {
  let s = e.subs.lock().unwrap()[k].clone();
  if let Some(s) = s {
    let b = e.m.tick();
    s.unsubscribe();
    let en = e.m.tick();
    e.out.lock().unwrap().span[k].unsub.get_or_insert((b, en));
  }
}

fn drive(e: Arc<Env>, plays: Vec<Play>, end: End, hasty: bool) {
  let m = &e.m;
  let mut joiners = Vec::new();
  let mut prods = Vec::new();
  for (k, w) in e.whos.iter().enumerate() {
    if w.join == Join::First {
      subscribe(&e, k);
    }
  }
  for (p, play) in plays.into_iter().enumerate() {
    let e = e.clone();
    prods.push(go(move || {
      for (d, x) in &play.items {
        if *d > 0 {
          nap(*d);
        }
        e.m.put(p, Te::N(Tv::I(*x)), || e.s.next(*x));
      }
    }));
  }
  for (k, w) in e.whos.iter().cloned().enumerate() {
    let joins = match w.join {
      Join::Late(d) | Join::Ready(d) => Some(d),
      _ => None,
    };
    let d = match w.leave {
      Leave::At(d) => Some(d),
      _ => None,
    };
    if joins.is_none() && (d.is_none() || w.join != Join::First) {
      continue;
    }
    let e = e.clone();
    joiners.push(go(move || {
      if let Some(d) = joins {
        if d > 0 {
          nap(d);
        }
        subscribe(&e, k);
      }
      if let Some(d) = d {
        if d > 0 {
          nap(d);
        }
        leave(&e, k);
      }
    }));
  }
  join_all(prods);
  if !hasty {
    join_all(std::mem::take(&mut joiners));
  }
  for (k, w) in e.whos.iter().enumerate() {
    if w.join == Join::After {
      subscribe(&e, k);
    }
  }
  if !hasty {
    let subs = e.subs.lock().unwrap().clone();
    let open =
      subs.iter().flatten().filter(|s| s.is_subscribed()).count();
    let held = e.s.count();
    let mut o = e.out.lock().unwrap();
    o.open = open;
    o.held[0] = held;
  }
  let b = m.tick();
  match end {
    End::C => m.put(99, Te::C, || e.s.complete()),
    End::E => m.put(99, Te::E(ERR), || e.s.error(ERR)),
    End::Open => {}
  }
  if end != End::Open {
    e.out.lock().unwrap().end = Some((b, m.tick()));
  }
  join_all(joiners);
  if end != End::Open && !hasty {
    let held = e.s.count();
    e.out.lock().unwrap().held[1] = held;
  }
  for (k, w) in e.whos.iter().enumerate() {
    if w.join == Join::Past {
      subscribe(&e, k);
    }
  }
  settle(20);
  let subs = std::mem::take(&mut *e.subs.lock().unwrap());
  drop(subs);
}

fn judge_held(
  m: &M,
  kind: Kind,
  whos: &[Who],
  end: End,
  o: &Out,
) -> Option<String> {
  if let Some(h) = o.held[0] {
    if h != o.open {
      return Some(format!(
        "every call has returned: the subject holds {} observers, {} are subscribed",
        h, o.open
      ));
    }
  }
  if let Some(h) = o.held[1] {
    if h != 0 {
      return Some(format!(
        "the subject holds {} observers after its terminal",
        h
      ));
    }
  }
  let (tb, _) = o.end.unwrap_or((u64::MAX, 0));
  for (k, w) in whos.iter().enumerate() {
    let s = &o.span[k];
    let v = m.of(k);
    let t = ends(&v);
    if t.len() > 1 {
      return Some(format!("observer {} observed {} terminals", k, t.len()));
    }
    if let Some(t) = t.first() {
      if Some(&t.te) != end.te().as_ref() {
        return Some(format!("observer {} observed {:?}", k, t.te));
      }
    }
    let Some((_, se)) = s.sub else { continue };
    let there = match kind {
      // whoever subscribes to a terminated plain subject is left open
      Kind::Plain => se < tb,
      _ => true,
    };
    if there
      && w.leave == Leave::No
      && end != End::Open
      && t.is_empty()
    {
      return Some(format!("observer {} did not receive the terminal", k));
    }
  }
  None
}

fn judge(
  m: &M,
  kind: Kind,
  plays: &[Play],
  whos: &[Who],
  k: usize,
  end: End,
  o: &Out,
) -> Option<String> {
  let (sb, se) = o.span[k].sub?;
  let left = whos[k].leave != Leave::No;
  let (ub, ue) = o.span[k].unsub.unwrap_or((u64::MAX, u64::MAX));
  let (tb, te) = o.end.unwrap_or((u64::MAX, u64::MAX));
  let v = m.of(k);
  let got = items(&v);
  let ems: Vec<Em> =
    m.emissions().into_iter().filter(|e| !e.te.terminal()).collect();
  let em = |x: i64| {
    ems.iter().find(|e| matches!(&e.te, Te::N(t) if t.key() == x))
  };
  if let Some(t) = ends(&v).first() {
    if v.last().map(|c| c.te.clone()) != Some(t.te.clone()) {
      return Some(format!("observer {} received items after {:?}", k, t.te));
    }
  }
  let mut d = got.clone();
  d.sort();
  if let Some(x) = d.windows(2).find(|x| x[0] == x[1]) {
    return Some(format!("observer {} received item {} twice", k, x[0]));
  }
  for x in &got {
    if *x == INIT && kind == Kind::Behavior && got[0] == INIT {
      continue;
    }
    let Some(e) = em(*x) else {
      return Some(format!("observer {} received {} out of nowhere", k, x));
    };
    if e.b > ue {
      return Some(format!(
        "observer {} received {}, pushed at {}, after its unsubscribe had returned ({})",
        k, x, e.b, ue
      ));
    }
    if kind == Kind::Plain && e.e < sb {
      return Some(format!(
        "observer {} (subscribing at {}) received {}, whose call was over at {}",
        k, sb, x, e.e
      ));
    }
  }
  if kind == Kind::Async {
    return judge_async(m, &ems, k, &v, &got, left, end, sb, (tb, te));
  }
  // each producer's items: in order and without a gap
  let at: Vec<(i64, usize)> =
    got.iter().copied().enumerate().map(|(i, x)| (x, i)).collect();
  let mut parts: Vec<Vec<i64>> = plays.iter().map(|p| p.keys()).collect();
  for (j, w) in whos.iter().enumerate() {
    if let Join::Ready(_) = w.join {
      parts.push(vec![uid(9 + j, 0)]);
    }
  }
  // the terminal cuts off joiners' own pushes
  for (p, want) in parts.iter().enumerate() {
    let mine: Vec<i64> =
      got.iter().filter(|x| want.contains(x)).copied().collect();
    let made: Vec<i64> = want
      .iter()
      .copied()
      .filter(|x| em(*x).map(|e| e.b < tb).unwrap_or(false))
      .collect();
    let run = mine.is_empty()
      || want.windows(mine.len()).any(|w| w == &mine[..]);
    if !run {
      return Some(format!(
        "of producer {} observer {} received {:?}; it pushed {:?}",
        p, k, mine, want
      ));
    }
    let cut = end != End::Open && p >= plays.len();
    if !left && !mine.is_empty() && !cut && !made.ends_with(&mine) {
      return Some(format!(
        "of producer {} observer {} received {:?} and missed what follows; it pushed {:?}",
        p, k, mine, want
      ));
    }
    if (kind == Kind::Replay || whos[k].join == Join::First)
      && !mine.is_empty()
      && !want.starts_with(&mine)
    {
      return Some(format!(
        "of producer {} observer {} received {:?} and missed what precedes; it pushed {:?}",
        p, k, mine, want
      ));
    }
  }
  // what was pushed entirely while it was subscribed
  for e in &ems {
    let x = if let Te::N(t) = &e.te { t.key() } else { continue };
    let has = got.contains(&x);
    if has || e.e > tb {
      continue;
    }
    // (a replay or behavior subject may still have it queued)
    if e.b > se && e.e < ub && !(left && kind != Kind::Plain) {
      return Some(format!(
        "observer {} (subscribed {}..{}, left {}..{}) missed {} pushed {}..{}",
        k, sb, se, ub, ue, x, e.b, e.e
      ));
    }
    if kind == Kind::Replay && !left {
      return Some(format!(
        "observer {} of a replay subject never received {} (pushed {}..{}, subscribed {}..{})",
        k, x, e.b, e.e, sb, se
      ));
    }
  }
  // its own ready_set_go push
  if let (Join::Ready(_), false) = (whos[k].join, left) {
    let x = uid(9 + k, 0);
    if em(x).map(|e| e.e < tb).unwrap_or(false) && !got.contains(&x) {
      return Some(format!(
        "observer {} missed {}, pushed by the ready_set_go action of its own subscription",
        k, x
      ));
    }
  }
  match kind {
    Kind::Behavior => {
      // handed the latest value, or the stored terminal
      let past = sb > te;
      if past {
        let t: Vec<Te> = tes(&v);
        // an error may be preceded by the last value or not; not items
        if t.first().map(|t| t.terminal()) != Some(true) {
          return Some(format!(
            "observer {} subscribed after the terminal and received {:?}",
            k, t
          ));
        }
        return None;
      }
      if got.is_empty() {
        if se < tb && ub > se {
          return Some(format!(
            "observer {} of a behavior subject was handed nothing",
            k
          ));
        }
        return None;
      }
      let h = got[0];
      let (hb, he) =
        if h == INIT { (0, 0) } else { em(h).map(|e| (e.b, e.e))? };
      if let Some(y) = ems.iter().find(|y| y.b > he && y.e < sb) {
        return Some(format!(
          "observer {} (subscribing at {}) was handed {}; {:?} ({}..{}) had superseded it",
          k, sb, h, y.te, y.b, y.e
        ));
      }
      if hb > se {
        return Some(format!(
          "observer {} was subscribed at {} without a value",
          k, se
        ));
      }
      if !left {
        for y in &ems {
          let x = if let Te::N(t) = &y.te { t.key() } else { continue };
          if y.b > he && y.e < tb && !got.contains(&x) {
            return Some(format!(
              "observer {} was handed {} (pushed {}..{}) and missed {}, pushed later ({}..{})",
              k, h, hb, he, x, y.b, y.e
            ));
          }
        }
      }
    }
    Kind::Replay => {
      for i in 1..at.len() {
        let (a, b) = (em(at[i].0)?, em(at[i - 1].0)?);
        if a.e < b.b {
          return Some(format!(
            "observer {} received {} before {}; pushed {}..{} and {}..{}",
            k, at[i - 1].0, at[i].0, b.b, b.e, a.b, a.e
          ));
        }
      }
      if sb > te && !left && end != End::Open {
        let t = ends(&v);
        if t.first().map(|c| c.te.clone()) != end.te() {
          return Some(format!(
            "observer {} of a terminated replay subject observed {:?}",
            k,
            t.first().map(|c| &c.te)
          ));
        }
      }
    }
    _ => {}
  }
  None
}

fn judge_async(
  m: &M,
  ems: &[Em],
  k: usize,
  v: &[Call],
  got: &[i64],
  left: bool,
  end: End,
  sb: u64,
  t: (u64, u64),
) -> Option<String> {
  let _ = (m, sb);
  if let Some(c) = v.iter().find(|c| c.b < t.0) {
    return Some(format!(
      "observer {} of an async subject received {:?} before the terminal",
      k, c.te
    ));
  }
  if got.len() > 1 || end != End::C && !got.is_empty() {
    return Some(format!(
      "observer {} of an async subject received {:?}",
      k, got
    ));
  }
  if end == End::C && !left && got.is_empty() && !ems.is_empty() {
    return Some(format!(
      "observer {} of an async subject did not receive the last item",
      k
    ));
  }
  if let Some(x) = got.first() {
    let e = ems
      .iter()
      .find(|e| matches!(&e.te, Te::N(t) if t.key() == *x))?;
    if let Some(y) = ems.iter().find(|y| y.b > e.e && y.e < t.0) {
      return Some(format!(
        "observer {} of an async subject received {}, {:?} was pushed later",
        k, x, y.te
      ));
    }
  }
  None
}

/// late subscribers see one and the same record
fn agree(m: &M, kind: Kind, whos: &[Who], _end: End) -> Option<String> {
  if kind != Kind::Replay && kind != Kind::Async {
    return None;
  }
  let mut first: Option<(usize, Vec<i64>)> = None;
  for (k, w) in whos.iter().enumerate() {
    if w.leave != Leave::No
      || kind == Kind::Replay && !matches!(w.join, Join::After | Join::Past)
    {
      continue;
    }
    let g = items(&m.of(k));
    match &first {
      None => first = Some((k, g)),
      Some((j, f)) if *f != g => {
        return Some(format!(
          "observers {} and {} were handed different histories: {:?} and {:?}",
          j, k, f, g
        ))
      }
      _ => {}
    }
  }
  None
}
