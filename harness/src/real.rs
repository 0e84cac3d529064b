//! Builds the pipelines out of the real crate and records what they do.
use crate::model::{retry_pred, Live, Obs, COLD_CAP, PRED_CAP};
use crate::prog::*;
use crate::val::*;
use another_rxrust::prelude::*;
use std::any::Any;
use std::collections::{HashMap, VecDeque};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use vrt::rt;

pub type Ob<T> = Observable<'static, T>;
pub type AnyItem = Arc<Box<dyn Any + Send + Sync + 'static>>;

/// An observable of whatever type the last operator produces.
#[derive(Clone)]
pub enum AO {
  V(Ob<Val>),
  B(Ob<bool>),
  U(Ob<usize>),
  R(Ob<i64>),
  L(Ob<Vec<Val>>),
  P(Ob<(Val, usize)>),
  M(Ob<Material<Val>>),
  A(Ob<AnyItem>),
  O(Ob<Ob<Val>>),
}

pub fn v(x: V) -> Val {
  Val { v: x, tok: None }
}
pub fn mat_val(m: Material<Val>) -> Val {
  match m {
    Material::Next(x) => {
      let t = x.tok.clone();
      Val { v: V::MN(Box::new(x)), tok: t }
    }
    Material::Error(e) => v(V::ME(e)),
    Material::Complete => v(V::MC),
  }
}
pub fn any_val(a: AnyItem) -> Val {
  match a.downcast_ref::<Val>() {
    Some(x) => x.clone(),
    None => v(V::Unit),
  }
}

impl AO {
  /// as a stream of `Val`
  pub fn v(&self) -> Ob<Val> {
    match self {
      AO::V(o) => o.clone(),
      AO::B(o) => o.map(|x| v(V::B(x))),
      AO::U(o) => o.map(|x| v(V::U(x))),
      AO::R(o) => o.map(Val::i),
      AO::L(o) => o.map(|x| v(V::L(x))),
      AO::P(o) => o.map(|(a, n)| v(V::P(Box::new(a), n))),
      AO::M(o) => o.map(mat_val),
      AO::A(o) => o.map(any_val),
      AO::O(o) => o.map(|x| v(V::Obs(x))),
    }
  }
}

pub struct SrcRec {
  pub src: usize,
  pub obs: Option<Observer<'static, Val>>,
  /// is_subscribed() seen before each scripted event (cold sources)
  pub pre: Vec<bool>,
}

#[derive(Default)]
pub struct Log {
  pub ev: Vec<(usize, Vec<usize>, Te)>,
  pub taps: Vec<(usize, usize, Te)>,
  pub notes: Vec<String>,
  pub step: usize,
  pub srcs: Vec<SrcRec>,
  pub inner_n: HashMap<usize, usize>,
  pub seen: HashMap<usize, usize>,
  /// payload id -> code of every error a source raised
  pub errs: HashMap<u64, i64>,
  /// per terminal of an outer subscriber: step and, for each source
  /// subscription made so far, whether it is still live
  pub at_end: Vec<(usize, Vec<(usize, bool)>)>,
}

pub enum HotSrc {
  Probe,
  Subject(subjects::Subject<'static, Val>),
  Behavior(subjects::BehaviorSubject<'static, Val>),
  Replay(subjects::ReplaySubject<'static, Val>),
  Async(subjects::AsyncSubject<'static, Val>),
}
macro_rules! put {
  ($c:expr, $s:expr, $e:expr) => {
    match $e {
      Ev::N(x) => $s.next($c.item(*x)),
      Ev::E(x) => $s.error($c.err(*x)),
      Ev::C => $s.complete(),
    }
  };
}

pub struct Ctx {
  pub case: Case,
  pub hot: Vec<HotSrc>,
  pub log: Mutex<Log>,
  pub live: Arc<AtomicI64>,
  pub cold_n: Vec<AtomicUsize>,
  pub pred_n: AtomicUsize,
  pub pipe: Mutex<Option<AO>>,
  pub subs: Mutex<Vec<Option<Subscription<'static>>>>,
  /// present in the concurrent family
  pub mt: Option<crate::conc::M>,
  /// steps still to be taken by whoever comes first (see Case::nest)
  pub feed: Mutex<Option<VecDeque<Step>>>,
  /// (subscriber, begin, end) of every unsubscribe call
  pub unsubs: Mutex<Vec<(usize, u64, u64)>>,
  /// nothing is recorded, items and errors carry no tokens
  pub quiet: bool,
  pub calls: AtomicUsize,
}
pub type C = Arc<Ctx>;

impl Ctx {
  pub fn new(case: &Case) -> C {
    Ctx::with(case, None)
  }
  pub fn with(case: &Case, mt: Option<crate::conc::M>) -> C {
    Ctx::full(case, mt, false)
  }
  pub fn full(case: &Case, mt: Option<crate::conc::M>, quiet: bool) -> C {
    Arc::new(Ctx {
      mt,
      quiet,
      calls: AtomicUsize::new(0),
      unsubs: Mutex::new(Vec::new()),
      feed: Mutex::new(None),
      case: case.clone(),
      hot: case
        .hot
        .iter()
        .map(|h| match h {
          HotKind::Probe => HotSrc::Probe,
          HotKind::Subject => HotSrc::Subject(subjects::Subject::new()),
          HotKind::Behavior => HotSrc::Behavior(
            subjects::BehaviorSubject::new(Val::i(0)),
          ),
          HotKind::Replay => HotSrc::Replay(subjects::ReplaySubject::new()),
          HotKind::Async => HotSrc::Async(subjects::AsyncSubject::new()),
        })
        .collect(),
      log: Mutex::new(Log::default()),
      live: Arc::new(AtomicI64::new(0)),
      cold_n: case.cold.iter().map(|_| AtomicUsize::new(0)).collect(),
      pred_n: AtomicUsize::new(0),
      pipe: Mutex::new(None),
      subs: Mutex::new(Vec::new()),
    })
  }
  pub fn l(&self) -> std::sync::MutexGuard<'_, Log> {
    self.log.lock().unwrap()
  }
  pub fn tok(&self) -> Option<Arc<Tok>> {
    if self.case.track {
      Some(Tok::new(&self.live))
    } else {
      None
    }
  }
  pub fn item(&self, x: i64) -> Val {
    let tok = if self.quiet { None } else { self.tok() };
    Val { v: V::I(x), tok }
  }
  pub fn err(&self, code: i64) -> RxError {
    if self.quiet {
      return RxError::from_error(mk_pay(code, None));
    }
    let p = mk_pay(code, self.tok());
    self.l().errs.insert(p.id, code);
    if code % 3 == 0 {
      RxError::from_result(Err::<(), Pay>(p))
    } else {
      RxError::from_error(p)
    }
  }
  pub fn play(&self, s: &Observer<'static, Val>, e: &Ev) {
    match e {
      Ev::N(x) => s.next(self.item(*x)),
      Ev::E(c) => s.error(self.err(*c)),
      Ev::C => s.complete(),
    }
  }
  pub fn emit_hot(&self, h: usize, e: &Ev) {
    match &self.mt {
      Some(m) => {
        m.emit(|| self.emit_hot_(h, e));
      }
      None => self.emit_hot_(h, e),
    }
  }
  fn emit_hot_(&self, h: usize, e: &Ev) {
    match &self.hot[h] {
      HotSrc::Probe => {
        let obs: Vec<_> = self
          .l()
          .srcs
          .iter()
          .filter(|r| r.src == h)
          .filter_map(|r| r.obs.clone())
          .collect();
        for o in obs {
          self.play(&o, e);
        }
      }
      HotSrc::Subject(s) => put!(self, s, e),
      HotSrc::Behavior(s) => put!(self, s, e),
      HotSrc::Replay(s) => put!(self, s, e),
      HotSrc::Async(s) => put!(self, s, e),
    }
  }
  pub fn act(self: &Arc<Self>, s: &Step) {
    match s {
      Step::Subscribe(k) => {
        let p = self.pipe.lock().unwrap().clone();
        if let Some(p) = p {
          let s = subscribe(self, &p, vec![*k]);
          self.subs.lock().unwrap()[*k] = Some(s);
        }
      }
      Step::Unsub(k) | Step::Using(k) => {
        let sub = self.subs.lock().unwrap()[*k].clone();
        let Some(sub) = sub else { return };
        let at = self.mt.as_ref().map(|m| {
          let mut u = self.unsubs.lock().unwrap();
          u.push((*k, m.tick(), u64::MAX));
          u.len() - 1
        });
        if matches!(s, Step::Using(_)) {
          drop(utils::Using::new(sub));
        } else {
          sub.unsubscribe();
        }
        if let (Some(m), Some(i)) = (&self.mt, at) {
          self.unsubs.lock().unwrap()[i].2 = m.tick();
        }
      }
      Step::Emit(h, e) => self.emit_hot(*h, e),
    }
  }
  /// the next step of the feed, if any is left
  pub fn take_step(self: &Arc<Self>) -> bool {
    let s = self.feed.lock().unwrap().as_mut().and_then(|f| f.pop_front());
    if let Some(s) = &s {
      self.act(s);
    }
    s.is_some()
  }
  pub fn rec(self: &Arc<Self>, tag: &[usize], te: Te) {
    if self.quiet {
      self.calls.fetch_add(1, Relaxed);
      return;
    }
    if let Some(m) = &self.mt {
      let n = {
        let mut l = self.l();
        let n = l.seen.entry(tag[0]).or_insert(0);
        *n += 1;
        *n
      };
      let end = te.terminal();
      m.call(tag[0], te, || {
        for r in &self.case.react {
          if r.fits(tag[0], n, end && tag.len() == 1) {
            self.act(&r.act);
          }
        }
      });
      return;
    }
    let item = !te.terminal();
    let n = {
      let mut l = self.l();
      let st = l.step;
      l.ev.push((st, tag.to_vec(), te));
      let n = l.seen.entry(tag[0]).or_insert(0);
      *n += 1;
      *n
    };
    if !item && tag.len() == 1 {
      let recs: Vec<_> =
        self.l().srcs.iter().map(|r| (r.src, r.obs.clone())).collect();
      let live = recs
        .iter()
        .map(|(s, o)| {
          (*s, o.as_ref().map(|o| o.is_subscribed()).unwrap_or(false))
        })
        .collect();
      let mut l = self.l();
      let st = l.step;
      l.at_end.push((st, live));
    }
    rt::point("callback", tag[0] as u64);
    let nest = &self.case.nest;
    if item && !nest.is_empty() && nest[n % nest.len()] {
      self.take_step();
    }
    for r in &self.case.react {
      if r.fits(tag[0], n, !item && tag.len() == 1) {
        self.act(&r.act);
      }
    }
  }
  pub fn rec_err(self: &Arc<Self>, tag: &[usize], e: &RxError) {
    if self.quiet {
      return self.rec(tag, Te::C);
    }
    let c = code_of(e);
    {
      let mut l = self.l();
      let id = pay_id(e);
      if id != 0 && l.errs.get(&id) != Some(&c) {
        l.notes.push(format!(
          "error delivered to {:?} has a payload no source raised",
          tag
        ));
      }
      if c == -99 || (id != 0 && !e.is::<Pay>()) {
        l.notes.push(format!(
          "error delivered to {:?} lost its payload type",
          tag
        ));
      }
    }
    self.rec(tag, Te::E(c));
  }
}

/// numbers of an observable built from the case
pub fn build(c: &C, n: &Node) -> AO {
  match n {
    Node::Hot(h) => {
      let h = *h;
      match &c.hot[h] {
        HotSrc::Subject(s) => AO::V(s.observable()),
        HotSrc::Behavior(s) => AO::V(s.observable()),
        HotSrc::Replay(s) => AO::V(s.observable()),
        HotSrc::Async(s) => AO::V(s.observable()),
        HotSrc::Probe => {
          let c = c.clone();
          AO::V(Observable::create(move |s| {
            if !s.is_subscribed() {
              return;
            }
            c.l().srcs.push(SrcRec { src: h, obs: Some(s), pre: Vec::new() });
          }))
        }
      }
    }
    Node::Cold(k) => {
      let k = *k;
      let c = c.clone();
      AO::V(Observable::create(move |s| {
        if !s.is_subscribed() {
          return;
        }
        let n = c.cold_n[k].fetch_add(1, Relaxed);
        let idx = if c.quiet {
          usize::MAX
        } else {
          let mut l = c.l();
          l.srcs.push(SrcRec {
            src: 100 + k,
            obs: Some(s.clone()),
            pre: Vec::new(),
          });
          l.srcs.len() - 1
        };
        if n >= COLD_CAP {
          return;
        }
        let spec = &c.case.cold[k];
        let script = &spec.scripts[n.min(spec.scripts.len() - 1)];
        for e in script {
          let sub = s.is_subscribed();
          if let Some(r) = c.l().srcs.get_mut(idx) {
            r.pre.push(sub);
          }
          if spec.polite && !sub {
            break;
          }
          match &c.mt {
            Some(m) => {
              m.emit(|| c.play(&s, e));
            }
            None => c.play(&s, e),
          }
        }
      }))
    }
    Node::Just(x) if *x == 1 => {
      AO::V(utils::Something::success(c.item(*x)).proceed())
    }
    Node::Just(x) => AO::V(observables::just(c.item(*x))),
    Node::FromIter(x) => AO::V(observables::from_iter(
      x.iter().map(|x| c.item(*x)).collect::<Vec<_>>().into_iter(),
    )),
    Node::Range(a, n) => AO::R(observables::range(*a, *n)),
    Node::Empty => AO::V(observables::empty()),
    Node::Never => AO::V(observables::never()),
    Node::Error(x) if *x % 2 == 1 => {
      AO::V(utils::Something::<Val>::error(c.err(*x)).proceed())
    }
    Node::Error(x) => AO::V(observables::error(c.err(*x))),
    Node::Start(x) => {
      let (c, x) = (c.clone(), *x);
      AO::V(observables::start(move || c.item(x)))
    }
    Node::FromResult(r) => AO::V(match r {
      Ok(x) => observables::from_result(Ok::<Val, Pay>(c.item(*x))),
      Err(x) => {
        let t = if c.quiet { None } else { c.tok() };
        let p = mk_pay(*x, t);
        if !c.quiet {
          c.l().errs.insert(p.id, *x);
        }
        observables::from_result(Err::<Val, Pay>(p))
      }
    }),
    Node::Repeat(x) => AO::V(observables::repeat(c.item(*x))),
    Node::Timer(d) => {
      let c = c.clone();
      AO::V(
        observables::timer(
          crate::conc::ms(*d),
          schedulers::new_thread_scheduler(),
        )
        .map(move |_| c.item(5)),
      )
    }
    Node::Interval(d) => {
      let c = c.clone();
      AO::V(
        observables::interval(
          crate::conc::ms(*d),
          schedulers::new_thread_scheduler(),
        )
        .map(move |x| c.item(x as i64)),
      )
    }
    Node::Endless => {
      let c = c.clone();
      AO::V(observables::from_iter((0..).map(move |x| c.item(x))))
    }
    Node::Defer(n) => {
      let (c, n) = (c.clone(), (**n).clone());
      AO::V(observables::defer(move || build(&c, &n).v()))
    }
    Node::Rsg(h, evs, n) => {
      let o = build(c, n).v();
      let (c, h, evs) = (c.clone(), *h, evs.clone());
      AO::V(utils::ready_set_go(
        move || {
          for e in &evs {
            c.emit_hot(h, e);
          }
        },
        o,
      ))
    }
    Node::Op(op, n) => build_op(c, op, n),
    Node::Comb(k, v) => build_comb(c, *k, v),
  }
}

fn build_op(c: &C, op: &Op, n: &Node) -> AO {
  let src = build(c, n);
  let t = c.tok();
  let o = match (op, &src) {
    (Op::Flatten, AO::O(_)) | (Op::Dematerialize, AO::M(_)) => None,
    _ => Some(src.v()),
  };
  let o = move || o.clone().unwrap();
  match op {
    Op::Map(f) => {
      let f = *f;
      AO::V(o().map(move |x: Val| {
        let _t = &t;
        x.with(V::I(map_key(f, x.key())))
      }))
    }
    Op::Filter(f) => {
      let f = *f;
      AO::V(o().filter(move |x: Val| {
        let _t = &t;
        pred_key(f, x.key())
      }))
    }
    Op::Take(n) => AO::V(o().take(*n)),
    Op::TakeLast(n) => AO::V(o().take_last(*n)),
    Op::TakeWhile(f) => {
      let f = *f;
      AO::V(o().take_while(move |x: Val| {
        let _t = &t;
        pred_key(f, x.key())
      }))
    }
    Op::Skip(n) => AO::V(o().skip(*n)),
    Op::SkipLast(n) => AO::V(o().skip_last(*n)),
    Op::SkipWhile(f) => {
      let f = *f;
      AO::V(o().skip_while(move |x: Val| {
        let _t = &t;
        pred_key(f, x.key())
      }))
    }
    Op::First => AO::V(o().first()),
    Op::Last => AO::V(o().last()),
    Op::ElementAt(n) => AO::V(o().element_at(*n)),
    Op::Distinct => AO::V(o().distinct_until_changed()),
    Op::Scan(f) => {
      let f = *f;
      AO::V(o().scan(move |(a, b): (Val, Val)| {
        let _t = &t;
        b.with(V::I(red_key(f, a.key(), b.key())))
      }))
    }
    Op::Reduce(f) => {
      let f = *f;
      AO::V(o().reduce(move |(a, b): (Val, Val)| {
        let _t = &t;
        b.with(V::I(red_key(f, a.key(), b.key())))
      }))
    }
    Op::Count => AO::U(o().count()),
    Op::Sum => AO::V(o().sum()),
    Op::SumCount => AO::P(o().sum_and_count()),
    Op::Min => AO::V(o().min()),
    Op::Max => AO::V(o().max()),
    Op::All(f) => {
      let f = *f;
      AO::B(o().all(move |x: Val| {
        let _t = &t;
        pred_key(f, x.key())
      }))
    }
    Op::Contains(x) => AO::B(o().contains(c.item(*x))),
    Op::DefaultIfEmpty(x) => AO::V(o().default_if_empty(c.item(*x))),
    Op::IgnoreElements => AO::V(o().ignore_elements()),
    Op::StartEndless => {
      let c = c.clone();
      AO::V(o().start_with((0..).map(move |x| c.item(x))))
    }
    Op::StartWith(v) => AO::V(o().start_with(
      v.iter().map(|x| c.item(*x)).collect::<Vec<_>>().into_iter(),
    )),
    Op::Buffer(n) => AO::L(o().buffer_with_count(*n)),
    Op::Window(n) => AO::O(o().window_with_count(*n)),
    Op::GroupBy(f) => {
      let f = *f;
      AO::O(o().group_by(move |x: Val| {
        let _t = &t;
        group_key(f, x.key())
      }))
    }
    Op::Materialize => AO::M(o().materialize()),
    Op::Dematerialize => match src {
      AO::M(m) => AO::V(m.dematerialize()),
      _ => AO::V(
        o()
          .map(|x: Val| match x.v {
            V::MN(b) => Material::Next(*b),
            V::ME(e) => Material::Error(e),
            V::MC => Material::Complete,
            _ => Material::Next(x),
          })
          .dematerialize(),
      ),
    },
    Op::Tap(i) => {
      let i = *i;
      let (t1, t2) = (t.clone(), t.clone());
      let (c0, c1, c2) = (c.clone(), c.clone(), c.clone());
      let rec = move |c: &C, e: Te| {
        if c.quiet {
          return;
        }
        let mut l = c.l();
        let s = l.step;
        l.taps.push((s, i, e));
      };
      AO::V(o().tap(
        move |x: Val| {
          let _t = &t;
          rec(&c0, Te::N(x.tv()))
        },
        move |e| {
          let _t = &t1;
          rec(&c1, Te::E(code_of(&e)))
        },
        move || {
          let _t = &t2;
          rec(&c2, Te::C)
        },
      ))
    }
    Op::MapToAny => AO::A(o().map_to_any()),
    Op::Timestamp => AO::V(o().timestamp().map(|(_, x)| x)),
    Op::Spans => AO::R(o().time_interval().map(|_| 9)),
    Op::Retry(n) => AO::V(o().retry(*n)),
    Op::RetryWhen(f) => {
      let (c, f) = (c.clone(), *f);
      AO::V(o().retry_when(move |e| {
        let _t = &t;
        let n = c.pred_n.fetch_add(1, Relaxed);
        n < PRED_CAP && retry_pred(f, code_of(&e))
      }))
    }
    Op::Resume(v) => {
      let (c, v) = (c.clone(), v.clone());
      AO::V(o().on_error_resume_next(move |e| {
        let _t = &t;
        let k = code_of(&e).rem_euclid(v.len() as i64) as usize;
        build(&c, &v[k]).v()
      }))
    }
    Op::FlatMap(v) => {
      let (c, v) = (c.clone(), v.clone());
      AO::V(o().flat_map(move |x: Val| {
        let _t = &t;
        let k = x.key().rem_euclid(v.len() as i64) as usize;
        build(&c, &v[k]).v()
      }))
    }
    Op::Flatten => match src {
      AO::O(x) => AO::V(x.flat_map(move |g| {
        let _t = &t;
        g
      })),
      _ => AO::V(o()),
    },
    Op::ObserveOnDefault => {
      AO::V(o().observe_on(schedulers::default_scheduler()))
    }
    Op::SubscribeOnDefault => {
      AO::V(o().subscribe_on(schedulers::default_scheduler()))
    }
    Op::Share => AO::V(o().ref_count().observable()),
    Op::ShareReplay => AO::V(o().replay().observable()),
    Op::ObserveOnNew => {
      AO::V(o().observe_on(schedulers::new_thread_scheduler()))
    }
    Op::SubscribeOnNew => {
      AO::V(o().subscribe_on(schedulers::new_thread_scheduler()))
    }
    Op::Delay(d) => AO::V(o().delay(crate::conc::ms(*d))),
    Op::Debounce(d) => AO::V(o().debounce(
      crate::conc::ms(*d),
      schedulers::new_thread_scheduler(),
    )),
    Op::Timeout(d) => AO::V(
      o().timeout(crate::conc::ms(*d), schedulers::new_thread_scheduler()),
    ),
  }
}

fn build_comb(c: &C, k: Comb, nodes: &[Node]) -> AO {
  let os: Vec<Ob<Val>> = nodes.iter().map(|n| build(c, n).v()).collect();
  let f = os[0].clone();
  let r = &os[1..];
  let t = c.tok();
  match k {
    Comb::Merge => AO::V(f.merge(r)),
    Comb::Zip => AO::L(f.zip(r)),
    Comb::Concat => AO::V(f.concat(r)),
    Comb::Amb => AO::V(f.amb(r)),
    Comb::CombineLatest => AO::L(f.combine_latest(r, move |x| {
      let _t = &t;
      x
    })),
    Comb::SequenceEqual => AO::B(f.sequence_equal(r)),
    Comb::TakeUntil => AO::V(f.take_until(os[1].clone())),
    Comb::SkipUntil => AO::V(f.skip_until(os[1].clone())),
    Comb::Sample => AO::V(f.sample(os[1].clone())),
    Comb::SwitchOnNext => AO::V(f.switch_on_next(os[1].clone())),
  }
}

fn sub_to<T: Clone + Send + Sync + 'static>(
  c: &C,
  o: &Ob<T>,
  tag: Vec<usize>,
  tv: impl Fn(T) -> Tv + Send + Sync + 'static,
) -> Subscription<'static> {
  let (t0, t1, t2) = (c.tok(), c.tok(), c.tok());
  let (c0, c1, c2) = (c.clone(), c.clone(), c.clone());
  let (g0, g1, g2) = (tag.clone(), tag.clone(), tag);
  o.subscribe(
    move |x| {
      let _t = &t0;
      c0.rec(&g0, Te::N(tv(x)));
    },
    move |e| {
      let _t = &t1;
      c1.rec_err(&g1, &e);
    },
    move || {
      let _t = &t2;
      c2.rec(&g2, Te::C);
    },
  )
}

pub fn subscribe(c: &C, o: &AO, tag: Vec<usize>) -> Subscription<'static> {
  match o {
    AO::V(o) => sub_to(c, o, tag, |x| x.tv()),
    AO::B(o) => sub_to(c, o, tag, Tv::B),
    AO::U(o) => sub_to(c, o, tag, Tv::U),
    AO::R(o) => sub_to(c, o, tag, Tv::I),
    AO::L(o) => {
      sub_to(c, o, tag, |x| Tv::L(x.iter().map(|x| x.tv()).collect()))
    }
    AO::P(o) => sub_to(c, o, tag, |(a, n)| Tv::P(Box::new(a.tv()), n)),
    AO::M(o) => sub_to(c, o, tag, |x| mat_val(x).tv()),
    AO::A(o) => sub_to(c, o, tag, |x| any_val(x).tv()),
    AO::O(o) => {
      let (t0, t1, t2) = (c.tok(), c.tok(), c.tok());
      let (c0, c1, c2) = (c.clone(), c.clone(), c.clone());
      let (g0, g1, g2) = (tag.clone(), tag.clone(), tag);
      o.subscribe(
        move |x| {
          let _t = &t0;
          if c0.quiet {
            return c0.rec(&g0, Te::C);
          }
          let k = {
            let mut l = c0.l();
            let e = l.inner_n.entry(g0[0]).or_insert(0);
            *e += 1;
            *e - 1
          };
          c0.rec(&g0, Te::N(Tv::O(k)));
          subscribe(&c0, &AO::V(x), vec![g0[0], k]);
        },
        move |e| {
          let _t = &t1;
          c1.rec_err(&g1, &e);
        },
        move || {
          let _t = &t2;
          c2.rec(&g2, Te::C);
        },
      )
    }
  }
}

/// Plays the whole history of `case` on the calling (logical) thread.
pub fn drive(c: &C, nsubs: usize, obs: &Mutex<Obs>) {
  let case = c.case.clone();
  let pipe = build(c, &case.node);
  *c.pipe.lock().unwrap() = Some(pipe);
  *c.subs.lock().unwrap() = vec![None; nsubs];
  for (i, s) in case.steps.iter().enumerate() {
    if case.nest.is_empty() {
      c.l().step = i;
      c.act(s);
    } else if i == 0 {
      c.act(s);
      *c.feed.lock().unwrap() =
        Some(case.steps.iter().skip(1).cloned().collect());
    } else {
      c.take_step();
    }
    let recs: Vec<(usize, Option<Observer<'static, Val>>)> = c
      .l()
      .srcs
      .iter()
      .map(|r| (r.src, r.obs.clone()))
      .collect();
    let live = recs
      .iter()
      .map(|(src, o)| Live {
        src: *src,
        sub: o.as_ref().map(|o| o.is_subscribed()).unwrap_or(false),
        lenient: false,
      })
      .collect();
    let subs = c.subs.lock().unwrap().clone();
    let open =
      subs.iter().map(|s| s.as_ref().map(|s| s.is_subscribed())).collect();
    let counts = c
      .hot
      .iter()
      .map(|h| match h {
        HotSrc::Subject(s) => another_rxrust::__vrt::subject_count(s),
        _ => None,
      })
      .collect();
    let mut o = obs.lock().unwrap();
    o.live.push(live);
    o.open.push(open);
    o.counts.push(counts);
  }
  let subs = std::mem::take(&mut *c.subs.lock().unwrap());
  let ended = subs
    .iter()
    .all(|s| s.as_ref().map(|s| !s.is_subscribed()).unwrap_or(true));
  drop(subs);
  let pipe = c.pipe.lock().unwrap().take();
  drop(pipe);
  // the sources still keep the observers they were handed
  let kept = c.live.load(Relaxed);
  let held: Vec<_> = c.l().srcs.iter_mut().map(|r| r.obs.take()).collect();
  drop(held);
  let mut o = obs.lock().unwrap();
  o.live_toks = c.live.load(Relaxed);
  o.kept_toks = kept;
  o.all_ended = ended;
}

pub fn harvest(c: &C, o: &mut Obs) {
  let mut l = c.l();
  o.ev = std::mem::take(&mut l.ev);
  o.taps = std::mem::take(&mut l.taps);
  o.at_end = std::mem::take(&mut l.at_end);
  o.notes.append(&mut l.notes);
  o.pre = l
    .srcs
    .iter_mut()
    .map(|r| (r.src, std::mem::take(&mut r.pre)))
    .collect();
}
