//! Reference interpreter: an independent, single-threaded, deliberately plain
//! reading of the operators' ReactiveX definitions (with the conventions the
//! crate's own asserted tests pin down).  Latitude the definitions leave is a
//! field of `Var`; a run is accepted when some variant explains it.
use crate::prog::*;
use crate::val::*;
use std::collections::VecDeque;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Var {
  pub zip_early: bool,
  pub comb_early: bool,
  pub tu_complete: bool,
  pub trig_err: bool,
  pub sw_err_ignored: bool,
  /// 0 rows + eager length, 1 rows + length at the end, 2 pairwise eager
  pub seq_mode: u8,
}
impl Var {
  /// the variants that can matter for this pipeline
  pub fn all(n: &Node) -> Vec<Var> {
    let mut v = vec![Var::default()];
    let mut dup = |on: bool, f: &dyn Fn(&mut Var)| {
      if on {
        let mut w = v.clone();
        w.iter_mut().for_each(|x| f(x));
        v.extend(w);
      }
    };
    dup(n.has_comb(Comb::Zip), &|x| x.zip_early = true);
    dup(n.has_comb(Comb::CombineLatest), &|x| x.comb_early = true);
    dup(n.has_comb(Comb::TakeUntil), &|x| x.tu_complete = true);
    dup(
      n.has_comb(Comb::TakeUntil)
        || n.has_comb(Comb::SkipUntil)
        || n.has_comb(Comb::Sample),
      &|x| x.trig_err = true,
    );
    dup(n.has_comb(Comb::SwitchOnNext), &|x| x.sw_err_ignored = true);
    if n.has_comb(Comb::SequenceEqual) {
      let mut w = v.clone();
      w.iter_mut().for_each(|x| x.seq_mode = 1);
      let mut u = v.clone();
      u.iter_mut().for_each(|x| x.seq_mode = 2);
      v.extend(w);
      v.extend(u);
    }
    v
  }
}

#[derive(Clone, Debug)]
enum Mv {
  T(Tv),
  Obs(usize),
}
#[derive(Clone, Debug)]
enum Me {
  N(Mv),
  E(i64),
  C,
}
#[derive(Clone, Copy, Debug)]
enum Par {
  Sink(usize),
  Inner(usize, usize),
  Up(usize, usize),
}
#[derive(Clone, Copy)]
enum What<'a> {
  Node(&'a Node),
  Subj(usize),
}
struct Inst<'a> {
  what: What<'a>,
  par: Par,
  closed: bool,
  kids: Vec<usize>,
  n: usize,
  flag: bool,
  acc: Option<Tv>,
  q: VecDeque<Tv>,
  qs: Vec<VecDeque<Tv>>,
  done: Vec<bool>,
  latest: Vec<Option<Tv>>,
  groups: Vec<(i64, usize)>,
  winner: Option<usize>,
  lenient: bool,
}

/// what one execution looked like
#[derive(Clone, Debug, Default)]
pub struct Obs {
  /// (step, subscriber tag, event); tag = [sub] or [sub, inner index]
  pub ev: Vec<(usize, Vec<usize>, Te)>,
  pub taps: Vec<(usize, usize, Te)>,
  /// after each step: is each source subscription live (in order of creation)
  pub live: Vec<Vec<Live>>,
  /// after each step: is_subscribed of each Subscription (None = not yet)
  pub open: Vec<Vec<Option<bool>>>,
  /// after each step: number of observers of each Subject-kind hot source
  pub counts: Vec<Vec<Option<usize>>>,
  pub stuck: Option<String>,
  pub notes: Vec<String>,
  /// model only: the program diverges / exceeds caps
  pub diverged: bool,
  /// a cold source or the retry predicate hit its cap
  pub capped: bool,
  pub steps_used: u64,
  /// per source subscription: still wanted before each scripted event?
  pub pre: Vec<(usize, Vec<bool>)>,
  pub all_ended: bool,
  pub panics: Vec<String>,
  pub live_toks: i64,
  pub kept_toks: i64,
  /// real only: what a terminal callback finds still subscribed
  pub at_end: Vec<(usize, Vec<(usize, bool)>)>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Live {
  /// hot i = i, cold i = 100 + i
  pub src: usize,
  pub sub: bool,
  pub lenient: bool,
}

pub const COLD_CAP: usize = 12;
pub const PRED_CAP: usize = 8;

pub struct Model<'a> {
  case: &'a Case,
  var: Var,
  inst: Vec<Inst<'a>>,
  hot: Vec<Vec<usize>>,
  srcs: Vec<(usize, usize)>,
  subj: Vec<Vec<usize>>,
  cold_n: Vec<usize>,
  pred_n: usize,
  inner_n: Vec<usize>,
  roots: Vec<Option<usize>>,
  seen: Vec<usize>,
  step: usize,
  obs: Obs,
  fuel: usize,
  emits: usize,
  depth: usize,
}

impl<'a> Model<'a> {
  pub fn run(case: &'a Case, var: &Var, nsubs: usize) -> Obs {
    let mut m = Model {
      case,
      var: var.clone(),
      inst: Vec::new(),
      hot: vec![Vec::new(); case.hot.len()],
      srcs: Vec::new(),
      subj: Vec::new(),
      cold_n: vec![0; case.cold.len()],
      pred_n: 0,
      inner_n: vec![0; nsubs],
      roots: vec![None; nsubs],
      seen: vec![0; nsubs],
      step: 0,
      obs: Obs::default(),
      fuel: 4000,
      emits: 0,
      depth: 0,
    };
    for (i, s) in case.steps.iter().enumerate() {
      m.step = i;
      m.act(s);
      let live = m
        .srcs
        .iter()
        .map(|(s, i)| Live {
          src: *s,
          sub: !m.inst[*i].closed,
          lenient: m.inst[*i].lenient,
        })
        .collect();
      m.obs.live.push(live);
      m.obs.open.push(
        m.roots
          .iter()
          .map(|r| r.map(|r| !m.inst[r].closed))
          .collect(),
      );
      let counts = (0..m.hot.len())
        .map(|h| {
          Some(
            m.hot[h]
              .iter()
              .filter(|i| !m.inst[**i].closed)
              .count(),
          )
        })
        .collect();
      m.obs.counts.push(counts);
    }
    m.obs
  }

  fn act(&mut self, s: &'a Step) {
    match s {
      Step::Subscribe(k) => {
        let r = self.sub(What::Node(&self.case.node), Par::Sink(*k));
        self.roots[*k] = Some(r);
      }
      Step::Unsub(k) | Step::Using(k) => {
        if let Some(r) = self.roots[*k] {
          self.close(r);
        }
      }
      Step::Emit(h, e) => self.hot_emit(*h, e),
    }
  }
  fn seen(&mut self, s: usize, tag: Vec<usize>, te: Te) {
    let end = te.terminal() && tag.len() == 1;
    self.obs.ev.push((self.step, tag, te));
    self.seen[s] += 1;
    let n = self.seen[s];
    let case = self.case;
    for r in &case.react {
      if r.fits(s, n, end) {
        self.act(&r.act);
      }
    }
  }

  fn hot_emit(&mut self, h: usize, e: &Ev) {
    let l = self.hot[h].clone();
    for i in l {
      self.emit(i, Self::me(e));
    }
  }
  fn me(e: &Ev) -> Me {
    match e {
      Ev::N(x) => Me::N(Mv::T(Tv::I(*x))),
      Ev::E(c) => Me::E(*c),
      Ev::C => Me::C,
    }
  }

  fn sub(&mut self, what: What<'a>, par: Par) -> usize {
    let id = self.inst.len();
    self.inst.push(Inst {
      what,
      par,
      closed: false,
      kids: Vec::new(),
      n: 0,
      flag: false,
      acc: None,
      q: VecDeque::new(),
      qs: Vec::new(),
      done: Vec::new(),
      latest: Vec::new(),
      groups: Vec::new(),
      winner: None,
      lenient: false,
    });
    if let Par::Up(p, _) = par {
      self.inst[p].kids.push(id);
      if self.inst[p].lenient {
        self.inst[id].lenient = true;
      }
    }
    if self.fuel == 0 || self.depth > 300 {
      self.obs.diverged = true;
      return id;
    }
    self.fuel -= 1;
    self.depth += 1;
    self.start(id);
    self.depth -= 1;
    id
  }

  fn plays(&mut self, id: usize, evs: &[Ev]) {
    for e in evs {
      self.emit(id, Self::me(e));
    }
  }

  fn start(&mut self, id: usize) {
    let node = match self.inst[id].what {
      What::Subj(s) => {
        self.subj[s].push(id);
        return;
      }
      What::Node(n) => n,
    };
    match node {
      Node::Hot(h) => {
        self.hot[*h].push(id);
        self.srcs.push((*h, id));
        self.obs.pre.push((*h, Vec::new()));
      }
      Node::Cold(c) => {
        self.srcs.push((100 + c, id));
        self.obs.pre.push((100 + c, Vec::new()));
        let si = self.obs.pre.len() - 1;
        let k = self.cold_n[*c];
        self.cold_n[*c] += 1;
        if k >= COLD_CAP {
          self.obs.capped = true;
        }
        if k < COLD_CAP {
          let sc = &self.case.cold[*c].scripts;
          let s = &sc[k.min(sc.len() - 1)];
          for e in s {
            let open = !self.inst[id].closed;
            self.obs.pre[si].1.push(open);
            self.emit(id, Self::me(e));
          }
        }
      }
      Node::Just(x) => {
        self.plays(id, &[Ev::N(*x), Ev::C]);
      }
      Node::FromIter(v) => {
        let mut e: Vec<Ev> = v.iter().map(|x| Ev::N(*x)).collect();
        e.push(Ev::C);
        self.plays(id, &e);
      }
      Node::Range(a, n) => {
        let mut e: Vec<Ev> = (*a..*a + *n).map(Ev::N).collect();
        e.push(Ev::C);
        self.plays(id, &e);
      }
      Node::Empty => self.emit(id, Me::C),
      Node::Never | Node::Timer(_) | Node::Interval(_) => {}
      Node::Error(c) => self.emit(id, Me::E(*c)),
      Node::Start(x) => self.plays(id, &[Ev::N(*x), Ev::C]),
      Node::FromResult(r) => match r {
        Ok(x) => self.plays(id, &[Ev::N(*x), Ev::C]),
        Err(c) => self.emit(id, Me::E(*c)),
      },
      Node::Repeat(_) | Node::Endless => {
        let mut n = 0;
        while !self.inst[id].closed {
          let x = match node {
            Node::Repeat(x) => *x,
            _ => n,
          };
          self.emit(id, Me::N(Mv::T(Tv::I(x))));
          n += 1;
          if n > 700 {
            self.obs.diverged = true;
            break;
          }
        }
      }
      Node::Defer(n) => {
        self.sub(What::Node(n), Par::Up(id, 0));
      }
      Node::Rsg(h, evs, n) => {
        self.sub(What::Node(n), Par::Up(id, 0));
        for e in evs {
          self.hot_emit(*h, e);
        }
      }
      Node::Op(Op::StartEndless, _) => {
        let mut n = 0;
        while !self.inst[id].closed {
          self.emit(id, Me::N(Mv::T(Tv::I(n))));
          n += 1;
          if n > 700 {
            self.obs.diverged = true;
            break;
          }
        }
      }
      Node::Op(op, n) => {
        match op {
          Op::Take(0) => {
            self.finish(id, Me::C);
            return;
          }
          Op::StartWith(v) => {
            for x in v {
              self.emit(id, Me::N(Mv::T(Tv::I(*x))));
            }
          }
          Op::Window(_) => {}
          _ => {}
        }
        if !self.inst[id].closed {
          self.inst[id].n = match op {
            Op::Retry(_) | Op::FlatMap(_) | Op::Flatten => 1,
            _ => self.inst[id].n,
          };
          self.sub(What::Node(n), Par::Up(id, 0));
        }
      }
      Node::Comb(c, v) => {
        let n = v.len();
        {
          let i = &mut self.inst[id];
          i.qs = vec![VecDeque::new(); n];
          i.done = vec![false; n];
          i.latest = vec![None; n];
        }
        let order: Vec<usize> = match c {
          Comb::TakeUntil | Comb::SkipUntil | Comb::Sample => vec![1, 0],
          Comb::Concat => vec![0],
          _ => (0..n).collect(),
        };
        for p in order {
          if self.inst[id].closed {
            break;
          }
          self.sub(What::Node(&v[p]), Par::Up(id, p));
        }
      }
    }
  }

  fn close(&mut self, id: usize) {
    if self.inst[id].closed {
      // still close what hangs below
    }
    self.inst[id].closed = true;
    let k = std::mem::take(&mut self.inst[id].kids);
    for c in k {
      self.close(c);
    }
  }
  fn set_lenient(&mut self, id: usize) {
    self.inst[id].lenient = true;
    for c in self.inst[id].kids.clone() {
      self.set_lenient(c);
    }
  }

  fn emit(&mut self, id: usize, e: Me) {
    if self.inst[id].closed {
      return;
    }
    match e {
      Me::N(_) => self.deliver(id, e),
      _ => self.finish(id, e),
    }
  }
  fn finish(&mut self, id: usize, e: Me) {
    if self.inst[id].closed {
      return;
    }
    self.close(id);
    self.deliver(id, e);
  }
  fn deliver(&mut self, id: usize, e: Me) {
    self.emits += 1;
    if self.emits > 8000 {
      self.obs.diverged = true;
      return;
    }
    match self.inst[id].par {
      Par::Sink(s) => {
        let te = match e {
          Me::N(Mv::T(t)) => Te::N(t),
          Me::N(Mv::Obs(o)) => {
            let k = self.inner_n[s];
            self.inner_n[s] += 1;
            self.seen(s, vec![s], Te::N(Tv::O(k)));
            self.sub(What::Subj(o), Par::Inner(s, k));
            return;
          }
          Me::E(c) => Te::E(c),
          Me::C => Te::C,
        };
        self.seen(s, vec![s], te);
      }
      Par::Inner(s, k) => {
        let te = match e {
          Me::N(Mv::T(t)) => Te::N(t),
          Me::N(Mv::Obs(_)) => Te::N(Tv::O(usize::MAX)),
          Me::E(c) => Te::E(c),
          Me::C => Te::C,
        };
        self.seen(s, vec![s, k], te);
      }
      Par::Up(p, port) => self.on(p, port, e),
    }
  }

  fn val(&mut self, id: usize, t: Tv) {
    self.emit(id, Me::N(Mv::T(t)));
  }
  fn last(&mut self, id: usize, t: Tv) {
    self.emit(id, Me::N(Mv::T(t)));
    self.finish(id, Me::C);
  }
  fn subj_emit(&mut self, s: usize, e: Me) {
    for i in self.subj[s].clone() {
      self.emit(i, e.clone());
    }
  }

  fn on(&mut self, p: usize, port: usize, e: Me) {
    if self.inst[p].closed {
      return;
    }
    let node = match self.inst[p].what {
      What::Node(n) => n,
      What::Subj(_) => unreachable!(),
    };
    match node {
      Node::Defer(_) | Node::Rsg(..) => self.emit(p, e),
      Node::Op(op, src) => self.on_op(p, port, op, src, e),
      Node::Comb(c, v) => self.on_comb(p, port, *c, v, e),
      _ => unreachable!(),
    }
  }

  fn on_op(
    &mut self,
    p: usize,
    port: usize,
    op: &'a Op,
    src: &'a Node,
    e: Me,
  ) {
    // items first
    if let Me::N(v) = &e {
      let t = match v {
        Mv::T(t) => t.clone(),
        Mv::Obs(o) => {
          match op {
            Op::Flatten => {
              self.inst[p].n += 1;
              self.sub(What::Subj(*o), Par::Up(p, 1));
            }
            _ => self.emit(p, e.clone()),
          }
          return;
        }
      };
      let k = t.key();
      match op {
        Op::Map(f) => self.val(p, Tv::I(map_key(*f, k))),
        Op::Filter(f) => {
          if pred_key(*f, k) {
            self.val(p, t)
          }
        }
        Op::Take(n) => {
          self.inst[p].n += 1;
          let c = self.inst[p].n;
          self.val(p, t);
          if c == *n {
            self.finish(p, Me::C);
          }
        }
        Op::First => self.last(p, t),
        Op::TakeLast(n) => {
          let q = &mut self.inst[p].q;
          q.push_back(t);
          if q.len() > *n {
            q.pop_front();
          }
        }
        Op::Last => self.inst[p].acc = Some(t),
        Op::TakeWhile(f) => {
          if pred_key(*f, k) {
            self.val(p, t)
          } else {
            self.finish(p, Me::C)
          }
        }
        Op::Skip(n) => {
          self.inst[p].n += 1;
          if self.inst[p].n > *n {
            self.val(p, t)
          }
        }
        Op::SkipLast(n) => {
          self.inst[p].q.push_back(t);
          if self.inst[p].q.len() > *n {
            let x = self.inst[p].q.pop_front().unwrap();
            self.val(p, x)
          }
        }
        Op::SkipWhile(f) => {
          if self.inst[p].flag || !pred_key(*f, k) {
            self.inst[p].flag = true;
            self.val(p, t)
          }
        }
        Op::ElementAt(n) => {
          self.inst[p].n += 1;
          if self.inst[p].n == *n {
            self.last(p, t)
          }
        }
        Op::Distinct => {
          if self.inst[p].acc.as_ref() != Some(&t) {
            self.inst[p].acc = Some(t.clone());
            self.val(p, t)
          }
        }
        Op::Scan(f) => {
          let a = match &self.inst[p].acc {
            Some(a) => Tv::I(red_key(*f, a.key(), k)),
            None => t,
          };
          self.inst[p].acc = Some(a.clone());
          self.val(p, a)
        }
        Op::Reduce(f) => {
          let a = match &self.inst[p].acc {
            Some(a) => Tv::I(red_key(*f, a.key(), k)),
            None => t,
          };
          self.inst[p].acc = Some(a);
        }
        Op::Spans => {
          self.inst[p].n += 1;
          if self.inst[p].n > 1 {
            self.val(p, Tv::I(9))
          }
        }
        Op::Count => self.inst[p].n += 1,
        Op::Sum | Op::SumCount => {
          let a = match &self.inst[p].acc {
            Some(a) => Tv::I(add_keys(a.key(), k)),
            None => t,
          };
          self.inst[p].acc = Some(a);
          self.inst[p].n += 1;
        }
        Op::Min => {
          let better = match &self.inst[p].acc {
            Some(a) => k < a.key(),
            None => true,
          };
          if better {
            self.inst[p].acc = Some(t)
          }
        }
        Op::Max => {
          let better = match &self.inst[p].acc {
            Some(a) => k > a.key(),
            None => true,
          };
          if better {
            self.inst[p].acc = Some(t)
          }
        }
        Op::All(f) => {
          if !pred_key(*f, k) {
            self.last(p, Tv::B(false))
          }
        }
        Op::Contains(x) => {
          if t == Tv::I(*x) {
            self.last(p, Tv::B(true))
          }
        }
        Op::DefaultIfEmpty(_) => {
          self.inst[p].flag = true;
          self.val(p, t)
        }
        Op::IgnoreElements => {}
        Op::StartWith(_)
        | Op::StartEndless
        | Op::MapToAny
        | Op::Timestamp
        | Op::ObserveOnDefault
        | Op::SubscribeOnDefault
        | Op::Share
        | Op::ShareReplay
        | Op::ObserveOnNew
        | Op::SubscribeOnNew
        | Op::Delay(_)
        | Op::Debounce(_)
        | Op::Timeout(_)
        | Op::Retry(_)
        | Op::RetryWhen(_)
        | Op::Resume(_)
        | Op::Flatten => self.val(p, t),
        Op::Buffer(n) => {
          self.inst[p].q.push_back(t);
          if self.inst[p].q.len() == *n {
            let v = self.inst[p].q.drain(..).collect();
            self.val(p, Tv::L(v))
          }
        }
        Op::Window(n) => {
          let first = self.inst[p].winner.is_none();
          if first {
            self.subj.push(Vec::new());
            self.inst[p].winner = Some(self.subj.len() - 1);
          }
          let s = self.inst[p].winner.unwrap();
          self.inst[p].n += 1;
          let last = self.inst[p].n == *n;
          if last {
            self.inst[p].n = 0;
            self.inst[p].winner = None;
          }
          if first {
            self.emit(p, Me::N(Mv::Obs(s)));
          }
          self.subj_emit(s, Me::N(Mv::T(t)));
          if last {
            self.subj_emit(s, Me::C);
          }
        }
        Op::GroupBy(f) => {
          let g = group_key(*f, k);
          let f = self.inst[p].groups.iter().find(|x| x.0 == g).map(|x| x.1);
          let s = match f {
            Some(s) => s,
            None => {
              self.subj.push(Vec::new());
              let s = self.subj.len() - 1;
              self.inst[p].groups.push((g, s));
              self.emit(p, Me::N(Mv::Obs(s)));
              s
            }
          };
          self.subj_emit(s, Me::N(Mv::T(t)));
        }
        Op::Materialize => self.val(p, Tv::MN(Box::new(t))),
        Op::Dematerialize => match t {
          Tv::MN(x) => self.val(p, *x),
          Tv::ME(c) => self.finish(p, Me::E(c)),
          Tv::MC => self.finish(p, Me::C),
          o => self.val(p, o),
        },
        Op::Tap(i) => {
          self.obs.taps.push((self.step, *i, Te::N(t.clone())));
          self.val(p, t)
        }
        Op::FlatMap(v) => {
          if port == 0 {
            self.inst[p].n += 1;
            let x = &v[(k.rem_euclid(v.len() as i64)) as usize];
            self.sub(What::Node(x), Par::Up(p, 1));
          } else {
            self.val(p, t)
          }
        }
      }
      return;
    }
    // terminals
    let err = match &e {
      Me::E(c) => Some(*c),
      _ => None,
    };
    match op {
      Op::Retry(max) if err.is_some() => {
        let n = self.inst[p].n;
        if *max == 0 || n < *max {
          self.inst[p].n += 1;
          self.sub(What::Node(src), Par::Up(p, 0));
        } else {
          self.finish(p, e)
        }
      }
      Op::RetryWhen(f) if err.is_some() => {
        let go = self.pred_n < PRED_CAP && retry_pred(*f, err.unwrap());
        self.pred_n += 1;
        if self.pred_n >= PRED_CAP {
          self.obs.capped = true;
        }
        if go {
          self.sub(What::Node(src), Par::Up(p, 0));
        } else {
          self.finish(p, e)
        }
      }
      Op::Resume(v) if err.is_some() && port == 0 => {
        let x = &v[(err.unwrap().rem_euclid(v.len() as i64)) as usize];
        self.sub(What::Node(x), Par::Up(p, 1));
      }
      Op::FlatMap(_) | Op::Flatten => {
        if err.is_some() {
          self.finish(p, e)
        } else {
          self.inst[p].n -= 1;
          if self.inst[p].n == 0 {
            self.finish(p, Me::C)
          }
        }
      }
      Op::Contains(_) => self.last(p, Tv::B(false)),
      Op::Materialize => self.last(
        p,
        match err {
          Some(c) => Tv::ME(c),
          None => Tv::MC,
        },
      ),
      Op::Tap(i) => {
        self.obs.taps.push((
          self.step,
          *i,
          match err {
            Some(c) => Te::E(c),
            None => Te::C,
          },
        ));
        self.finish(p, e)
      }
      Op::Window(_) => {
        if let Some(s) = self.inst[p].winner {
          self.subj_emit(s, e.clone());
        }
        self.finish(p, e)
      }
      Op::GroupBy(_) => {
        for (_, s) in self.inst[p].groups.clone() {
          self.subj_emit(s, e.clone());
        }
        self.finish(p, e)
      }
      _ if err.is_some() => self.finish(p, e),
      Op::TakeLast(_) => {
        let v: Vec<Tv> = self.inst[p].q.drain(..).collect();
        for x in v {
          self.val(p, x)
        }
        self.finish(p, Me::C)
      }
      Op::Last | Op::Reduce(_) | Op::Sum | Op::Min | Op::Max => {
        if let Some(a) = self.inst[p].acc.clone() {
          self.val(p, a)
        }
        self.finish(p, Me::C)
      }
      Op::Count => {
        let n = self.inst[p].n;
        self.last(p, Tv::U(n))
      }
      Op::SumCount => {
        if let Some(a) = self.inst[p].acc.clone() {
          let n = self.inst[p].n;
          self.val(p, Tv::P(Box::new(a), n))
        }
        self.finish(p, Me::C)
      }
      Op::Spans => {
        if self.inst[p].n > 0 {
          self.val(p, Tv::I(9))
        }
        self.finish(p, Me::C)
      }
      Op::All(_) => self.last(p, Tv::B(true)),
      Op::DefaultIfEmpty(x) => {
        if !self.inst[p].flag {
          self.val(p, Tv::I(*x))
        }
        self.finish(p, Me::C)
      }
      Op::Buffer(_) => {
        let v: Vec<Tv> = self.inst[p].q.drain(..).collect();
        if !v.is_empty() {
          self.val(p, Tv::L(v))
        }
        self.finish(p, Me::C)
      }
      _ => self.finish(p, e),
    }
  }

  fn on_comb(
    &mut self,
    p: usize,
    port: usize,
    c: Comb,
    v: &'a [Node],
    e: Me,
  ) {
    let n = v.len();
    let item = match &e {
      Me::N(Mv::T(t)) => Some(t.clone()),
      Me::N(Mv::Obs(_)) => Some(Tv::O(usize::MAX)),
      _ => None,
    };
    let is_err = matches!(e, Me::E(_));
    match c {
      Comb::Merge => match item {
        Some(t) => self.val(p, t),
        None if is_err => self.finish(p, e),
        None => {
          self.inst[p].n += 1;
          if self.inst[p].n == n {
            self.finish(p, Me::C)
          }
        }
      },
      Comb::Concat => match item {
        Some(t) => self.val(p, t),
        None if is_err => self.finish(p, e),
        None => {
          self.inst[p].n += 1;
          let k = self.inst[p].n;
          if k == n {
            self.finish(p, Me::C)
          } else {
            self.sub(What::Node(&v[k]), Par::Up(p, k));
          }
        }
      },
      Comb::Amb => {
        if self.inst[p].winner.is_none() {
          self.inst[p].winner = Some(port);
          for k in self.inst[p].kids.clone() {
            if let Par::Up(_, q) = self.inst[k].par {
              if q != port {
                self.set_lenient(k);
              }
            }
          }
        }
        if self.inst[p].winner == Some(port) {
          self.emit(p, e)
        } else {
          for k in self.inst[p].kids.clone() {
            if let Par::Up(_, q) = self.inst[k].par {
              if q == port {
                self.close(k);
              }
            }
          }
        }
      }
      Comb::Zip => match item {
        Some(t) => {
          self.inst[p].qs[port].push_back(t);
          loop {
            if self.inst[p].closed
              || self.inst[p].qs.iter().any(|q| q.is_empty())
            {
              break;
            }
            let row = self.inst[p]
              .qs
              .iter_mut()
              .map(|q| q.pop_front().unwrap())
              .collect();
            self.val(p, Tv::L(row));
          }
          self.zip_end(p);
        }
        None if is_err => self.finish(p, e),
        None => {
          self.inst[p].done[port] = true;
          self.zip_end(p);
        }
      },
      Comb::CombineLatest => match item {
        Some(t) => {
          self.inst[p].latest[port] = Some(t);
          if self.inst[p].latest.iter().all(|x| x.is_some()) {
            let row: Vec<Tv> = self.inst[p]
              .latest
              .iter()
              .map(|x| x.clone().unwrap())
              .collect();
            self.val(p, Tv::L(row));
          }
        }
        None if is_err => self.finish(p, e),
        None => {
          self.inst[p].done[port] = true;
          let i = &self.inst[p];
          if i.done.iter().all(|d| *d)
            || (self.var.comb_early && i.latest[port].is_none())
          {
            self.finish(p, Me::C)
          }
        }
      },
      Comb::SequenceEqual => {
        if is_err {
          self.finish(p, e);
          return;
        }
        match item {
          Some(t) => self.inst[p].qs[port].push_back(t),
          None => self.inst[p].done[port] = true,
        }
        let mode = self.var.seq_mode;
        let i = &mut self.inst[p];
        let mut bad = false;
        if mode == 2 {
          // pairwise prefixes: never drop, compare everything
          for a in 0..n {
            for b in 0..a {
              let m = i.qs[a].len().min(i.qs[b].len());
              if (0..m).any(|x| i.qs[a][x] != i.qs[b][x]) {
                bad = true;
              }
              if (i.done[a] && i.qs[b].len() > i.qs[a].len())
                || (i.done[b] && i.qs[a].len() > i.qs[b].len())
              {
                bad = true;
              }
            }
          }
        } else {
          while !bad && i.qs.iter().all(|q| !q.is_empty()) {
            let row: Vec<Tv> =
              i.qs.iter_mut().map(|q| q.pop_front().unwrap()).collect();
            if row.iter().any(|x| *x != row[0]) {
              bad = true;
            }
          }
          let some_done_empty =
            (0..n).any(|x| i.done[x] && i.qs[x].is_empty());
          let some_left = (0..n).any(|x| !i.qs[x].is_empty());
          let all_done = i.done.iter().all(|d| *d);
          if some_done_empty && some_left && (mode == 0 || all_done) {
            bad = true;
          }
        }
        if bad {
          self.last(p, Tv::B(false))
        } else if self.inst[p].done.iter().all(|d| *d) {
          self.last(p, Tv::B(true))
        }
      }
      Comb::TakeUntil => {
        if port == 0 {
          self.emit(p, e)
        } else {
          match item {
            Some(_) => self.finish(p, Me::C),
            None if is_err => {
              if self.var.trig_err {
                self.finish(p, e)
              }
            }
            None => {
              if self.var.tu_complete {
                self.finish(p, Me::C)
              }
            }
          }
        }
      }
      Comb::SkipUntil => {
        if port == 0 {
          match item {
            Some(t) => {
              if self.inst[p].flag {
                self.val(p, t)
              }
            }
            None => self.finish(p, e),
          }
        } else {
          match item {
            Some(_) => {
              self.inst[p].flag = true;
              for k in self.inst[p].kids.clone() {
                if let Par::Up(_, 1) = self.inst[k].par {
                  self.close(k);
                }
              }
            }
            None if is_err && self.var.trig_err => self.finish(p, e),
            None => {}
          }
        }
      }
      Comb::Sample => {
        if port == 0 {
          match item {
            Some(t) => self.inst[p].acc = Some(t),
            None => self.finish(p, e),
          }
        } else {
          match item {
            Some(_) => {
              if let Some(t) = self.inst[p].acc.take() {
                self.val(p, t)
              }
            }
            None if is_err && self.var.trig_err => self.finish(p, e),
            None => {}
          }
        }
      }
      Comb::SwitchOnNext => {
        if port == 0 {
          match item {
            Some(t) => {
              if !self.inst[p].flag {
                self.val(p, t)
              } else {
                for k in self.inst[p].kids.clone() {
                  if let Par::Up(_, 0) = self.inst[k].par {
                    self.close(k);
                  }
                }
              }
            }
            None if is_err => {
              if !self.inst[p].flag || !self.var.sw_err_ignored {
                self.finish(p, e)
              }
            }
            None => {}
          }
        } else {
          match item {
            Some(t) => {
              if !self.inst[p].flag {
                self.inst[p].flag = true;
                for k in self.inst[p].kids.clone() {
                  if let Par::Up(_, 0) = self.inst[k].par {
                    self.set_lenient(k);
                  }
                }
              }
              self.val(p, t)
            }
            None => self.finish(p, e),
          }
        }
      }
    }
  }
  fn zip_end(&mut self, p: usize) {
    let i = &self.inst[p];
    let end = i.done.iter().all(|d| *d)
      || (self.var.zip_early
        && (0..i.done.len()).any(|x| i.done[x] && i.qs[x].is_empty()));
    if end {
      self.finish(p, Me::C)
    }
  }
}

pub fn retry_pred(f: u8, code: i64) -> bool {
  match f % 4 {
    0 => code % 2 == 0,
    1 => code < 102,
    2 => true,
    _ => false,
  }
}
