//! C11: combinators fed from several threads.
use crate::conc::*;
use crate::lab::*;
use crate::val::*;
use another_rxrust::prelude::*;
use std::sync::{Arc, Mutex};
use vrt::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
  Cold,
  Threaded,
  Hot,
  /// two threads drive the subject
  Hot2,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Wrap {
  None,
  Map,
  Observe,
  Subscribe,
}
#[derive(Clone, Debug)]
struct Leaf {
  /// what it emits; a second play for the second emitter of a hot input
  play: Play,
  extra: Vec<(u64, i64)>,
  kind: Kind,
  wrap: Wrap,
}
#[derive(Clone, Debug)]
enum Tree {
  Leaf(usize),
  Merge(Vec<Tree>),
  Concat(Vec<Tree>),
  /// each item of the (merged) leaves becomes its tree
  Flat(Vec<usize>, Vec<(i64, Tree)>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Root {
  Tree,
  Zip,
  Amb,
  Take(usize),
}

struct Gen<'a> {
  r: &'a mut Rng,
  leaves: Vec<Leaf>,
  naps: u32,
  ends: bool,
  big: bool,
}
impl<'a> Gen<'a> {
  fn len(&mut self, n: usize) -> usize {
    if self.big {
      8 + self.r.below(8 * n)
    } else {
      self.r.below(n)
    }
  }
  fn arms(&mut self) -> usize {
    2 + self.r.below(if self.big { 6 } else { 2 })
  }
  fn leaf(&mut self, hot: bool, n: usize) -> usize {
    let p = self.leaves.len();
    let kind = match self.r.below(10) {
      0 => Kind::Cold,
      1..=4 if hot => Kind::Hot,
      5 if hot => Kind::Hot2,
      _ => Kind::Threaded,
    };
    let end = match self.r.below(if self.ends { 8 } else { 1 }) {
      6 => End::Open,
      7 => End::E,
      _ => End::C,
    };
    let play = Play::gen(self.r, p, n, self.naps, end);
    let extra = if kind == Kind::Hot2 {
      (0..1 + self.r.below(2)).map(|k| (0, uid(p, 500 + k))).collect()
    } else {
      vec![]
    };
    let wrap = match self.r.below(12) {
      0 => Wrap::Map,
      1 => Wrap::Observe,
      2 if !matches!(kind, Kind::Hot | Kind::Hot2) => Wrap::Subscribe,
      _ => Wrap::None,
    };
    self.leaves.push(Leaf { play, extra, kind, wrap });
    p
  }
  fn tree(&mut self, depth: usize, hot: bool) -> Tree {
    let k = if depth == 0 { 3 } else { self.r.below(6) };
    match k {
      0 | 1 if depth > 0 => {
        let n = if self.big {
          self.arms()
        } else {
          2 + self.r.below(if depth > 1 { 2 } else { 1 })
        };
        Tree::Merge((0..n).map(|_| self.tree(depth - 1, hot)).collect())
      }
      2 if depth > 0 => {
        let n = self.arms();
        Tree::Concat(
          (0..n).map(|i| self.tree(depth - 1, hot && i == 0)).collect(),
        )
      }
      4 if depth > 0 => {
        let k = 1 + self.r.below(2);
        let mut ls = Vec::new();
        let mut keys = Vec::new();
        for _ in 0..k {
          let n = self.r.below(3);
          let l = self.leaf(hot, n);
          ls.push(l);
          keys.extend(self.leaves[l].play.keys());
          keys.extend(self.leaves[l].extra.iter().map(|x| x.1));
        }
        let inner =
          keys.into_iter().map(|x| (x, self.tree(depth - 1, false))).collect();
        Tree::Flat(ls, inner)
      }
      _ => {
        let n = self.len(4);
        Tree::Leaf(self.leaf(hot, n))
      }
    }
  }
}

struct World {
  m: M,
  pr: Probe,
  leaves: Vec<Leaf>,
  subj: Vec<subjects::Subject<'static, i64>>,
}
fn leaf(w: &Arc<World>, i: usize) -> Ob<i64> {
  let l = &w.leaves[i];
  let o = match l.kind {
    Kind::Cold => cold(&w.m, &w.pr, i, l.play.clone()),
    Kind::Threaded => threaded(&w.m, &w.pr, i, l.play.clone()),
    Kind::Hot | Kind::Hot2 => w.pr.hot(&w.m, i, &w.subj[i]),
  };
  match l.wrap {
    Wrap::None => o,
    Wrap::Map => o.map(|x| x),
    Wrap::Observe => o.observe_on(schedulers::new_thread_scheduler()),
    Wrap::Subscribe => o.subscribe_on(schedulers::new_thread_scheduler()),
  }
}
fn build(w: &Arc<World>, t: &Tree) -> Ob<i64> {
  match t {
    Tree::Leaf(i) => leaf(w, *i),
    Tree::Merge(v) => {
      let v: Vec<_> = v.iter().map(|t| build(w, t)).collect();
      v[0].merge(&v[1..])
    }
    Tree::Concat(v) => {
      let v: Vec<_> = v.iter().map(|t| build(w, t)).collect();
      v[0].concat(&v[1..])
    }
    Tree::Flat(ls, v) => {
      let (w2, v) = (w.clone(), v.clone());
      let outer: Vec<_> = ls.iter().map(|l| leaf(w, *l)).collect();
      let outer = match outer.len() {
        1 => outer[0].clone(),
        _ => outer[0].merge(&outer[1..]),
      };
      outer.flat_map(move |x| {
        let t = v.iter().find(|t| t.0 == x).unwrap();
        build(&w2, &t.1)
      })
    }
  }
}
/// leaves whose items reach the subscriber
fn reach(t: &Tree, out: &mut Vec<usize>) {
  match t {
    Tree::Leaf(i) => out.push(*i),
    Tree::Merge(v) | Tree::Concat(v) => v.iter().for_each(|t| reach(t, out)),
    Tree::Flat(_, v) => v.iter().for_each(|t| reach(&t.1, out)),
  }
}
fn hots(t: &Tree, ls: &[Leaf], out: &mut Vec<usize>) {
  match t {
    Tree::Leaf(i) => {
      if matches!(ls[*i].kind, Kind::Hot | Kind::Hot2) {
        out.push(*i)
      }
    }
    Tree::Merge(v) | Tree::Concat(v) => {
      v.iter().for_each(|t| hots(t, ls, out))
    }
    Tree::Flat(l, v) => {
      l.iter().for_each(|l| hots(&Tree::Leaf(*l), ls, out));
      v.iter().for_each(|t| hots(&t.1, ls, out))
    }
  }
}
/// items directly under a concat arrive input by input
fn flat_concat(t: &Tree) -> Option<Vec<usize>> {
  match t {
    Tree::Concat(v) => v
      .iter()
      .map(|t| match t {
        Tree::Leaf(i) => Some(*i),
        _ => None,
      })
      .collect(),
    _ => None,
  }
}

pub fn scenario(r: &mut Rng) -> Scen {
  let naps = if r.chance(350) { 250 } else { 0 };
  let ends = r.chance(300);
  let pick = r.below(10);
  let big = large(r);
  let mut g = Gen { r, leaves: Vec::new(), naps, ends, big };
  let (root, tree) = match pick {
    0..=4 => {
      let d = 1 + g.r.below(2);
      let t = loop {
        g.leaves.clear();
        let t = g.tree(d, true);
        if g.leaves.len() >= 2 && g.leaves.len() <= if big { 9 } else { 6 } {
          break t;
        }
      };
      (Root::Tree, t)
    }
    5..=6 => {
      let n = g.arms();
      let v = (0..n)
        .map(|_| {
          let n = g.len(4);
          let l = g.leaf(true, n);
          if g.leaves[l].kind == Kind::Hot2 {
            g.leaves[l].kind = Kind::Hot;
            g.leaves[l].extra.clear();
          }
          Tree::Leaf(l)
        })
        .collect();
      (Root::Zip, Tree::Merge(v))
    }
    7..=8 => {
      let n = g.arms();
      let v = (0..n)
        .map(|_| {
          let n = g.len(3);
          Tree::Leaf(g.leaf(true, n))
        })
        .collect();
      (Root::Amb, Tree::Merge(v))
    }
    _ => {
      let t = loop {
        g.leaves.clear();
        let t = g.tree(1, true);
        if g.leaves.len() >= 2 {
          break t;
        }
      };
      let k = 1 + g.r.below(if big { 12 } else { 3 });
      (Root::Take(k), t)
    }
  };
  let leaves = g.leaves;
  let mut hot = Vec::new();
  hots(&tree, &leaves, &mut hot);
  let early = root == Root::Tree && false;
  let _ = early;
  let desc = format!("{:?} of {:?} over {:?}", root, tree, leaves);
  let kinds = vec![match (&root, &tree) {
    (Root::Zip, _) => "zip",
    (Root::Amb, _) => "amb",
    (Root::Take(_), _) => "take",
    (_, Tree::Merge(_)) => "merge",
    (_, Tree::Concat(_)) => "concat",
    _ => "flat_map",
  }];
  let mut sc = Scen::new(
    desc,
    kinds,
    Box::new(move |cfg| {
      let m = Mon::new();
      let slot: Arc<Mutex<Option<Arc<World>>>> = Arc::default();
      let (m2, l2, t2, h2) =
        (m.clone(), leaves.clone(), tree.clone(), hot.clone());
      let (rep, slot) = run(cfg, slot, move |slot| {
        let w = Arc::new(World {
          m: m2,
          pr: Probe::default(),
          subj: l2.iter().map(|_| subjects::Subject::new()).collect(),
          leaves: l2,
        });
        *slot.lock().unwrap() = Some(w.clone());
        drive(&w, root, &t2, &h2)
      });
      let w = slot.lock().unwrap().take();
      finish(rep, &m, || judge(w.as_deref()?, root, &tree))
    }),
  );
  sc.budget.lazy = true;
  sc.budget.spurious = true;
  if big {
    sc.large();
  }
  sc
}

fn drive(w: &Arc<World>, root: Root, tree: &Tree, hot: &[usize]) {
  let o: Ob<Vec<i64>> = match (root, tree) {
    (Root::Zip, Tree::Merge(v)) => {
      let v: Vec<_> = v.iter().map(|t| build(w, t)).collect();
      v[0].zip(&v[1..])
    }
    (Root::Amb, Tree::Merge(v)) => {
      let v: Vec<_> = v.iter().map(|t| build(w, t)).collect();
      v[0].amb(&v[1..]).map(|x| vec![x])
    }
    (Root::Take(n), t) => build(w, t).take(n).map(|x| vec![x]),
    (_, t) => build(w, t).map(|x| vec![x]),
  };
  let s = watch(
    &w.m,
    &o,
    0,
    |v| Tv::L(v.into_iter().map(Tv::I).collect()),
    idle,
  );
  let mut h = Vec::new();
  for &i in hot {
    let l = w.leaves[i].clone();
    let w2 = w.clone();
    let extra = l.extra.clone();
    let w3 = w.clone();
    let x = (!extra.is_empty()).then(|| {
      go(move || {
        let p = Play { items: extra, end: End::Open };
        play_subject(&w3.m, i, &p, &w3.subj[i])
      })
    });
    h.push(go(move || {
      let p = Play { items: l.play.items.clone(), end: End::Open };
      play_subject(&w2.m, i, &p, &w2.subj[i]);
      // the terminal follows every item of this input
      if let Some(x) = x {
        let _ = x.join();
      }
      let p = Play { items: vec![], end: l.play.end };
      play_subject(&w2.m, i, &p, &w2.subj[i]);
    }));
  }
  join_all(h);
  let big = w.leaves.iter().any(|l| l.play.items.len() > 8);
  settle(if big { 1000 } else { 100 });
  s.unsubscribe();
  settle(20);
}

fn vals(c: &Call) -> Vec<i64> {
  match &c.te {
    Te::N(Tv::L(v)) => v.iter().map(|t| t.key()).collect(),
    _ => vec![],
  }
}

fn judge(w: &World, root: Root, tree: &Tree) -> Option<String> {
  let v = w.m.of(0);
  let t = ends(&v);
  if t.len() > 1 {
    return Some(format!(
      "{} terminals were observed: {:?}",
      t.len(), t.iter().map(|c| &c.te).collect::<Vec<_>>()
    ));
  }
  let mut ls = Vec::new();
  reach(tree, &mut ls);
  let its: Vec<Vec<i64>> = v
    .iter()
    .filter(|c| !c.te.terminal())
    .map(vals)
    .collect();
  let flat: Vec<i64> = its.iter().flatten().copied().collect();
  let mut dup = flat.clone();
  dup.sort();
  if let Some(d) = dup.windows(2).find(|d| d[0] == d[1]) {
    return Some(format!("item {} was delivered twice", d[0]));
  }
  let leaf_all = |i: usize| {
    let l = &w.leaves[i];
    let mut k = l.play.keys();
    k.extend(l.extra.iter().map(|x| x.1));
    k
  };
  for x in &flat {
    let p = producer(*x);
    if p >= w.leaves.len() || !leaf_all(p).contains(x) {
      return Some(format!("item {} was never emitted", x));
    }
  }
  let after = |what: &str| -> Option<String> {
    let t = t.first()?;
    let c = v.iter().find(|c| !c.te.terminal() && c.e > t.b)?;
    Some(format!(
      "{}: {:?} ({}..{}) was not over when the terminal was delivered ({})",
      what, c.te, c.b, c.e, t.b
    ))
  };
  let used: Vec<usize> = match root {
    Root::Tree | Root::Take(_) => (0..w.leaves.len()).collect(),
    _ => ls.clone(),
  };
  let all_end = used.iter().all(|&i| w.leaves[i].play.end == End::C);
  let failing = used.iter().any(|&i| w.leaves[i].play.end == End::E);
  let order = |need_all: bool| -> Option<String> {
    let parts = by_producer(&flat, w.leaves.len());
    for &i in &ls {
      let l = &w.leaves[i];
      let a: Vec<i64> =
        parts[i].iter().filter(|x| *x % 1000 < 500).copied().collect();
      let b: Vec<i64> =
        parts[i].iter().filter(|x| *x % 1000 >= 500).copied().collect();
      let (wa, wb) =
        (l.play.keys(), l.extra.iter().map(|x| x.1).collect::<Vec<_>>());
      for (g, x) in [(&a, &wa), (&b, &wb)] {
        let ok = if need_all { g == x } else { is_subseq(g, x) };
        if !ok {
          return Some(format!(
            "of input {} the subscriber received {:?}, it emitted {:?}",
            i, g, x
          ));
        }
      }
    }
    None
  };
  match root {
    Root::Tree => {
      if failing {
        return order(false);
      }
      // an input that stays silent keeps later concat inputs waiting
      if let Some(f) = order(all_end) {
        return Some(f);
      }
      if let Some(c) = flat_concat(tree) {
        let mut want = Vec::new();
        for &i in &c {
          let l = &w.leaves[i];
          if l.extra.is_empty() {
            want.extend(l.play.keys());
          } else {
            want.extend(parts_in_order(&flat, i));
          }
          if l.play.end != End::C {
            break;
          }
        }
        if flat != want {
          return Some(format!(
            "concat delivered {:?}, its inputs emit {:?}",
            flat, want
          ));
        }
        let held = w.pr.all();
        let ems = w.m.emissions();
        for p in c.windows(2) {
          let Some(h) = held.iter().find(|h| h.src == p[1]) else { continue };
          let done = ems
            .iter()
            .find(|e| e.src == p[0] && e.te == Te::C)
            .map(|e| e.b)
            .unwrap_or(u64::MAX);
          if h.t < done {
            return Some(format!(
              "concat subscribed input {} at {}, input {} completed at {}",
              p[1], h.t, p[0], done
            ));
          }
        }
      }
      if all_end {
        if t.first().map(|c| &c.te) != Some(&Te::C) {
          return Some(format!(
            "every input completed; terminals observed: {:?}",
            t.iter().map(|c| &c.te).collect::<Vec<_>>()
          ));
        }
        return after("complete came before the last item was over");
      }
      if !t.is_empty() {
        return Some(format!(
          "{:?} was delivered although an input never ended",
          t[0].te
        ));
      }
      None
    }
    Root::Zip => {
      let n = ls.iter().map(|&i| leaf_all(i).len()).min().unwrap_or(0);
      let rows: Vec<Vec<i64>> = (0..n)
        .map(|k| ls.iter().map(|&i| leaf_all(i)[k]).collect())
        .collect();
      for x in &its {
        if !rows.contains(x) {
          return Some(format!(
            "zip delivered {:?}; the tuples of i-th items are {:?}",
            x, rows
          ));
        }
      }
      if failing {
        return None;
      }
      if its.len() != rows.len() {
        return Some(format!(
          "zip delivered {:?}; the tuples of i-th items are {:?}",
          its, rows
        ));
      }
      if all_end {
        if t.first().map(|c| &c.te) != Some(&Te::C) {
          return Some("zip: every input completed but the subscriber observed no complete".into());
        }
        return after("zip");
      }
      None
    }
    Root::Amb => {
      let win: Vec<usize> = {
        let mut p: Vec<usize> = flat.iter().map(|x| producer(*x)).collect();
        p.sort();
        p.dedup();
        p
      };
      if win.len() > 1 {
        return Some(format!("amb let inputs {:?} through", win));
      }
      let ems = w.m.emissions();
      if let Some(&i) = win.first() {
        let l = &w.leaves[i];
        // a second emitter may signal while the choice is being made
        if let Some(f) = {
          let a: Vec<i64> =
            flat.iter().filter(|x| *x % 1000 < 500).copied().collect();
          let b: Vec<i64> =
            flat.iter().filter(|x| *x % 1000 >= 500).copied().collect();
          let wb: Vec<i64> = l.extra.iter().map(|x| x.1).collect();
          if a != l.play.keys() || b != wb {
            Some(format!(
              "amb's winner {} emitted {:?} and {:?}, the subscriber received {:?}",
              i, l.play.keys(), wb, flat
            ))
          } else {
            None
          }
        } {
          return Some(f);
        }
        let want: Vec<Te> = l.play.end.te().into_iter().collect();
        let got: Vec<Te> = t.iter().map(|c| c.te.clone()).collect();
        if got != want {
          return Some(format!(
            "amb's winner {} ended with {:?}, the subscriber observed {:?}",
            i, want, got
          ));
        }
        if l.wrap == Wrap::None || l.wrap == Wrap::Map {
          let b = ems
            .iter()
            .filter(|e| e.src == i)
            .map(|e| e.b)
            .min()
            .unwrap_or(0);
          if let Some(e) = ems.iter().find(|e| {
            e.src != i
              && e.e < b
              && matches!(w.leaves[e.src].wrap, Wrap::None | Wrap::Map)
          }) {
            return Some(format!(
              "amb chose input {} whose first signal began at {}; input {} had signalled before ({}..{})",
              i, b, e.src, e.b, e.e
            ));
          }
        }
        return after("amb");
      }
      // nobody's items: the winner ended without items, or nobody signalled
      if let Some(c) = t.first() {
        let ok = ls.iter().any(|&i| {
          leaf_all(i).is_empty() && w.leaves[i].play.end.te() == Some(c.te.clone())
        });
        if !ok {
          return Some(format!("amb delivered {:?} out of nowhere", c.te));
        }
      } else if ls.iter().any(|&i| {
        !leaf_all(i).is_empty() || w.leaves[i].play.end != End::Open
      }) {
        return Some("amb delivered nothing although an input signalled".into());
      }
      None
    }
    Root::Take(n) => {
      if its.len() > n {
        return Some(format!("take({}) delivered {} items", n, its.len()));
      }
      if let Some(f) = order(false) {
        return Some(f);
      }
      if !failing && all_end && t.is_empty() {
        return Some(format!("take({}) over completing inputs never completed", n));
      }
      let total: usize = ls.iter().map(|&i| leaf_all(i).len()).sum();
      if !failing && all_end && total < n && its.len() != total {
        return Some(format!(
          "take({}) of {} items delivered {}",
          n, total, its.len()
        ));
      }
      None
    }
  }
}
fn parts_in_order(flat: &[i64], p: usize) -> Vec<i64> {
  flat.iter().filter(|x| producer(**x) == p).copied().collect()
}
