//! T01-T03: the tree store.

use crate::core::*;
use crate::desc::*;
use crate::m_earley::*;
use crate::sy::*;
use bongo::parsers::earley::parse;
use bongo::parsers::tree::{
  Alternative, Node, NodeContent, TreeHandle, TreeOwner,
};
use bongo::parsers::Token;
use bongo::utils::WasChanged;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering as AO};

type A<'a> = Alternative<'a, Tm, Ak, Vl>;

fn changed(w: WasChanged) -> bool {
  w == WasChanged::Changed
}

// ------------------------------------------------------------------- T01

pub const T01: Prop = Prop {
  id: "T01",
  streams: &[
    st("short", 6000, 200_000),
    st("long", 600, 15_000),
    st("lazy", 1500, 40_000),
    st("cross", 1500, 40_000),
    st("many", 30, 1500),
    st("vast", 1, 60),
  ],
  run: t01,
  rule: "random sequences of store operations, some from inside iterators given to the store, some combining two stores, each compared with a model and everything read again in between; non-trivial: at least 6 operations and a branch; distinct by the operations",
};

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum C {
  Leaf(u32, u32),
  Branch(u32, Vec<usize>),
}

struct Model<'a> {
  h: Handle<'a>,
  nodes: Vec<N<'a>>,
  sets: Vec<BTreeSet<C>>,
  alts: Vec<(C, A<'a>)>,
}

impl<'a> Model<'a> {
  fn new(h: Handle<'a>) -> Self {
    Model {
      h,
      nodes: Vec::new(),
      sets: Vec::new(),
      alts: Vec::new(),
    }
  }
  fn fresh(&mut self, n: N<'a>, set: BTreeSet<C>) -> R {
    for (i, m) in self.nodes.iter().enumerate() {
      ensure!(*m != n, "a created node equals node {}", i);
    }
    self.nodes.push(n);
    self.sets.push(set);
    self.look(self.nodes.len() - 1)
  }
  fn made(&mut self, c: C, a: A<'a>) -> R {
    for (d, b) in &self.alts {
      ensure!(
        (*d == c) == (*b == a),
        "alternatives of {:?} and {:?} are {}equal",
        d,
        c,
        if *b == a { "" } else { "not " }
      );
    }
    let got = self.content(&a)?;
    ensure!(got == c, "the content {:?} reads back as {:?}", c, got);
    if self.alts.len() < 60 {
      self.alts.push((c, a));
    }
    Ok(())
  }
  fn content(&self, a: &A<'a>) -> Result<C, String> {
    Ok(match a.content() {
      NodeContent::Leaf(l) => C::Leaf(l.kind().0, l.value().0),
      NodeContent::Branch(b) => {
        let mut v = Vec::new();
        for n in b.nodes() {
          match self.nodes.iter().position(|m| *m == n) {
            Some(i) => v.push(i),
            None => {
              return Err("a branch has a child that was not given".into())
            }
          }
        }
        C::Branch(b.action().0, v)
      }
    })
  }
  fn look(&self, i: usize) -> R {
    let mut got = BTreeSet::new();
    let mut n = 0;
    for a in self.nodes[i].alts() {
      got.insert(self.content(&a)?);
      n += 1;
    }
    ensure!(
      got == self.sets[i] && n == got.len(),
      "node {} holds {:?} ({} alternatives), it should hold {:?}",
      i,
      got,
      n,
      self.sets[i]
    );
    Ok(())
  }
  fn look_all(&self) -> R {
    for i in 0..self.nodes.len() {
      self.look(i)?;
    }
    for (c, a) in &self.alts {
      let got = self.content(a)?;
      ensure!(got == *c, "the content {:?} now reads back as {:?}", c, got);
    }
    Ok(())
  }
}

/// Few nodes with many alternatives.
fn t01_many(ctx: &mut Ctx) -> R {
  let owner = Owner::new();
  let mut m = Model::new(owner.handle());
  let n = *ctx.rng.pick(&[40usize, 140, 700, 2600]);
  let n = ctx.rng.odd_between(9, n);
  for _ in 0..ctx.rng.range(2, 5) {
    m.fresh(m.h.make_node(), BTreeSet::new())?;
  }
  ctx.note(format!("{} alternatives", n));
  // What is put in, in the order of creation or not.
  let style = ctx.rng.below(3);
  // One of them may have very many children.
  let huge = ctx.rng.below(n);
  let cap = *ctx.rng.pick(&[700, 2100, 4200, 70_000]);
  let children = ctx.rng.odd_between(cap / 64, cap);
  let contents: Vec<C> = (0..n)
    .map(|i| match style {
      0 => C::Leaf(i as u32 % 3, i as u32 / 3),
      1 => {
        // A different list of children for each number.
        let (mut x, k) = (i, m.nodes.len());
        let mut v = Vec::new();
        while x > 0 {
          v.push(x % k);
          x /= k;
        }
        if ctx.rng.chance(1, 40) {
          v.extend(std::iter::repeat(0).take(ctx.rng.odd_between(9, 700)));
        }
        if i == huge {
          v.extend(std::iter::repeat(0).take(children));
        }
        v.push(k - 1);
        C::Branch(i as u32 % 2, v)
      }
      _ => {
        if i % 2 == 0 {
          C::Leaf(7, i as u32)
        } else {
          C::Branch(i as u32, vec![i % m.nodes.len()])
        }
      }
    })
    .collect();
  let mut alts: Vec<A> = Vec::new();
  for c in &contents {
    let a = match c {
      C::Leaf(k, v) => m
        .h
        .make_leaf_node(Tm(*k), Vl(*v))
        .alts()
        .next()
        .ok_or("a leaf node without alternative")?,
      C::Branch(k, v) => make_branch(
        &owner,
        Ak(*k),
        v.iter().map(|i| m.nodes[*i].clone()).collect::<Vec<_>>(),
      ),
    };
    alts.push(a);
  }
  let target = ctx.rng.below(m.nodes.len());
  let mut order: Vec<usize> = (0..n).collect();
  if ctx.rng.chance(1, 2) {
    ctx.rng.shuffle(&mut order);
  }
  let known: BTreeMap<&C, usize> =
    contents.iter().enumerate().map(|(i, c)| (c, i)).collect();
  for (done, i) in order.iter().enumerate() {
    let want = m.sets[target].insert(contents[*i].clone());
    let got = changed(m.nodes[target].add_alt(&alts[*i]));
    ensure!(
      got == want,
      "adding alternative {} of one node reports {}",
      done,
      if got { "a change" } else { "no change" }
    );
    if ctx.rng.chance(1, 10) {
      // One that is there.
      let j = order[ctx.rng.range(0, done)];
      ensure!(
        !changed(m.nodes[target].add_alt(&alts[j])),
        "adding an alternative again to a node of {} reports a change",
        done + 1
      );
    }
    if (done + 1) % 97 == 0 || done + 1 == n {
      let mut c = 0;
      let mut seen = BTreeSet::new();
      for a in m.nodes[target].alts() {
        let got = m.content(&a)?;
        let Some(i) = known.get(&got) else {
          return Err(format!("an alternative {:?} was never made", got));
        };
        ensure!(alts[*i] == a, "{:?} is not what was added", got);
        seen.insert(*i);
        c += 1;
      }
      ensure!(
        c == done + 1 && seen.len() == c,
        "a node of {} alternatives yields {} ({} different)",
        done + 1,
        c,
        seen.len()
      );
    }
  }
  ctx.count("additions", n as u64);
  ctx.hi("most_alternatives_of_a_node", n as u64);
  if style == 1 {
    ctx.hi("most_children", children as u64);
  }
  // All of them, to others.
  for to in 0..m.nodes.len() {
    let want = {
      let from = m.sets[target].clone();
      let before = m.sets[to].len();
      m.sets[to].extend(from);
      m.sets[to].len() != before
    };
    let got = changed(m.nodes[to].add_all(&m.nodes[target]));
    ensure!(
      got == want,
      "adding all of a node of {} reports {}",
      n,
      if got { "a change" } else { "no change" }
    );
    m.look(to)?;
  }
  m.look(target)?;
  ctx.nontrivial(hash_u64s([n as u64, style as u64, order[0] as u64]));
  Ok(())
}

/// More nodes, or alternatives, than two bytes can count.
fn t01_vast(ctx: &mut Ctx) -> R {
  let owner = Owner::new();
  let h = owner.handle();
  let n = 65_536 + ctx.rng.range(2, 200);
  let leaves = ctx.rng.chance(1, 2);
  ctx.note(format!("{} nodes, leaves: {}", n, leaves));
  let nodes: Vec<N> = (0..n)
    .map(|i| {
      if leaves {
        h.make_leaf_node(Tm(0), Vl(i as u32))
      } else {
        h.make_node()
      }
    })
    .collect();
  for i in 65_536..n {
    let j = i - 65_536;
    ensure!(nodes[i] != nodes[j], "nodes {} and {} are equal", i, j);
    if leaves {
      let of = |k: usize| -> Vec<u32> {
        nodes[k]
          .alts()
          .map(|a| match a.content() {
            NodeContent::Leaf(l) => l.value().0,
            _ => u32::MAX,
          })
          .collect()
      };
      ensure!(
        of(i) == [i as u32] && of(j) == [j as u32],
        "leaf {} reads back as {:?}, leaf {} as {:?}",
        i,
        of(i),
        j,
        of(j)
      );
      ensure!(
        changed(nodes[i].add_all(&nodes[j])),
        "adding leaf {} to leaf {} reports no change",
        j,
        i
      );
      let mut got = of(i);
      got.sort();
      ensure!(
        got == [j as u32, i as u32] && of(j) == [j as u32],
        "leaf {} with leaf {} added reads back as {:?}",
        i,
        j,
        got
      );
    } else {
      let made = [i, j].map(|k| {
        let a = make_branch(&owner, Ak(1), vec![nodes[k].clone()]);
        let back: Vec<usize> = match a.content() {
          NodeContent::Branch(b) => b
            .nodes()
            .map(|x| [i, j].into_iter().find(|k| nodes[*k] == x).unwrap_or(n))
            .collect(),
          _ => vec![],
        };
        (k, back, a)
      });
      for (k, back, _) in &made {
        ensure!(
          *back == [*k],
          "a branch over node {} has the children {:?}",
          k,
          back
        );
      }
      ensure!(
        made[0].2 != made[1].2,
        "branches over nodes {} and {} are equal",
        i,
        j
      );
      ensure!(
        changed(nodes[i].add_alt(&made[0].2))
          && changed(nodes[i].add_alt(&made[1].2)),
        "adding the branches over nodes {} and {} reports no change",
        i,
        j
      );
      ensure!(
        nodes[i].alts().count() == 2 && nodes[j].alts().count() == 0,
        "additions to node {} are not where they belong",
        i
      );
    }
    ctx.count("additions", 1);
  }
  ctx.hi("largest_store", n as u64);
  ctx.nontrivial(hash_u64s([n as u64, leaves as u64]));
  Ok(())
}

fn t01(ctx: &mut Ctx) -> R {
  match ctx.stream {
    "many" => return t01_many(ctx),
    "vast" => return t01_vast(ctx),
    _ => {}
  }
  let owners = [Owner::new(), Owner::default()];
  let mut ms: Vec<Model> =
    owners.iter().map(|o| Model::new(o.handle())).collect();
  let steps = if ctx.stream == "long" {
    ctx.rng.spread(60, 250, 700)
  } else {
    ctx.rng.range(4, 40)
  };
  let kinds = ctx.rng.range(1, 3);
  let mut sig = Vec::new();
  let mut branches = 0;
  for _ in 0..steps {
    let which =
      if ctx.stream == "cross" { ctx.rng.below(2) } else { 0 };
    let rng = &mut ctx.rng;
    let pick = |rng: &mut Rng, m: &Model, max: usize| -> Vec<usize> {
      if m.nodes.is_empty() {
        return vec![];
      }
      (0..rng.spread(0, max, 300)).map(|_| rng.below(m.nodes.len())).collect()
    };
    let leaf = |rng: &mut Rng| {
      (rng.below(kinds) as u32, rng.below(kinds) as u32)
    };
    let op = rng.below(match ctx.stream {
      "lazy" => 12,
      "cross" => 14,
      _ => 9,
    });
    sig.push((which * 100 + op) as u64);
    let m = &mut ms[which];
    match op {
      0 => {
        let n = m.h.make_node();
        m.fresh(n, BTreeSet::new())?;
      }
      1 => {
        let (k, v) = leaf(rng);
        sig.push((k * 10 + v) as u64);
        let n = m.h.make_leaf_node(Tm(k), Vl(v));
        m.fresh(n, [C::Leaf(k, v)].into_iter().collect())?;
      }
      2 => {
        let kids = pick(rng, m, 3);
        let ak = rng.below(3) as u32;
        sig.extend(kids.iter().map(|x| *x as u64));
        let v: Vec<N> = kids.iter().map(|i| m.nodes[*i].clone()).collect();
        let n = m.h.make_branch_node(Ak(ak), v);
        branches += 1;
        m.fresh(n, [C::Branch(ak, kids)].into_iter().collect())?;
      }
      3 => {
        let (k, v) = leaf(rng);
        sig.push((k * 10 + v) as u64);
        let a = m.h.clone().make_leaf_alt(Tm(k), Vl(v));
        m.made(C::Leaf(k, v), a)?;
      }
      4 => {
        let kids = pick(rng, m, 3);
        let ak = rng.below(3) as u32;
        sig.extend(kids.iter().map(|x| *x as u64));
        let v: Vec<N> = kids.iter().map(|i| m.nodes[*i].clone()).collect();
        branches += 1;
        let a = make_branch(&owners[which], Ak(ak), v);
        m.made(C::Branch(ak, kids), a)?;
      }
      5 | 6 => {
        if m.nodes.is_empty() || m.alts.is_empty() {
          continue;
        }
        let i = rng.below(m.nodes.len());
        let j = rng.below(m.alts.len());
        sig.push((i * 1000 + j) as u64);
        let (c, a) = m.alts[j].clone();
        let want = m.sets[i].insert(c.clone());
        let got = changed(m.nodes[i].add_alt(&a));
        ensure!(
          got == want,
          "adding {:?} to node {} reports {}",
          c,
          i,
          if got { "a change" } else { "no change" }
        );
        ctx.count("additions", 1);
        m.look(i)?;
      }
      7 => {
        if m.nodes.is_empty() {
          continue;
        }
        let i = rng.below(m.nodes.len());
        let j = rng.below(m.nodes.len());
        sig.push((i * 1000 + j) as u64);
        let from = m.sets[j].clone();
        let before = m.sets[i].len();
        m.sets[i].extend(from);
        let want = m.sets[i].len() != before;
        let got = changed(m.nodes[i].add_all(&m.nodes[j].clone()));
        ensure!(
          got == want,
          "adding all of node {} to node {} reports {}",
          j,
          i,
          if got { "a change" } else { "no change" }
        );
        ctx.count("bulk_additions", 1);
        m.look(i)?;
        m.look(j)?;
      }
      8 => m.look_all()?,
      // From inside an iterator.
      9 => {
        let k = rng.range(0, 3);
        let ak = rng.below(3) as u32;
        let h = m.h.clone();
        let made = std::cell::RefCell::new(Vec::new());
        branches += 1;
        let a = make_branch(
          &owners[which],
          Ak(ak),
          (0..k).map(|i| {
            let n = h.make_leaf_node(Tm(i as u32), Vl(9));
            made.borrow_mut().push(n.clone());
            n
          }),
        );
        let made = made.into_inner();
        ensure!(made.len() == k, "the iterator was not run to its end");
        let mut kids = Vec::new();
        for (i, n) in made.into_iter().enumerate() {
          kids.push(m.nodes.len());
          m.fresh(n, [C::Leaf(i as u32, 9)].into_iter().collect())?;
        }
        m.made(C::Branch(ak, kids), a)?;
        ctx.count("operations_inside_iterators", 1);
      }
      10 => {
        if m.nodes.is_empty() {
          continue;
        }
        let kids = pick(rng, m, 3);
        let ak = rng.below(3) as u32;
        let i = rng.below(m.nodes.len());
        let nodes = m.nodes.clone();
        branches += 1;
        let n = m.h.make_branch_node(
          Ak(ak),
          kids.iter().map(|x| {
            let _ = nodes[i].add_all(&nodes[*x]);
            let _ = nodes[i].alts().count();
            nodes[*x].clone()
          }),
        );
        for x in &kids {
          let s = m.sets[*x].clone();
          m.sets[i].extend(s);
        }
        m.fresh(n, [C::Branch(ak, kids)].into_iter().collect())?;
        m.look(i)?;
        ctx.count("operations_inside_iterators", 1);
      }
      11 => {
        // Change while iterating over what is read.
        if m.nodes.is_empty() {
          continue;
        }
        let i = rng.below(m.nodes.len());
        let j = rng.below(m.nodes.len());
        if i == j {
          continue;
        }
        for a in m.nodes[i].alts() {
          let _ = m.nodes[j].add_alt(&a);
          if let NodeContent::Branch(b) = a.content() {
            for n in b.nodes() {
              let _ = n.alts().count();
            }
          }
        }
        let s = m.sets[i].clone();
        m.sets[j].extend(s);
        m.look(i)?;
        m.look(j)?;
        ctx.count("operations_inside_iterators", 1);
      }
      // Across stores.
      _ => {
        let (p, q) = ms.split_at(1);
        let (p, q) = if which == 0 { (&p[0], &q[0]) } else { (&q[0], &p[0]) };
        if p.nodes.is_empty() || q.nodes.is_empty() {
          continue;
        }
        let i = rng.below(p.nodes.len());
        let j = rng.below(q.nodes.len());
        let (what, r) = match rng.below(4) {
          0 if !q.alts.is_empty() => (
            "adding an alternative of another store",
            guard(|| {
              let _ = p.nodes[i].add_alt(&q.alts[j % q.alts.len()].1);
            }),
          ),
          1 => (
            "adding all of a node of another store",
            guard(|| {
              let _ = p.nodes[i].add_all(&q.nodes[j]);
            }),
          ),
          2 => (
            "making a branch over a node of another store",
            guard(|| {
              let _ = p.h.make_branch_alt(
                Ak(1),
                vec![p.nodes[i].clone(), q.nodes[j].clone()],
              );
            }),
          ),
          _ => (
            "making a branch node over a node of another store",
            guard(|| {
              let _ = p.h.make_branch_node(
                Ak(1),
                vec![q.nodes[j].clone(), p.nodes[i].clone()],
              );
            }),
          ),
        };
        ensure!(r.is_err(), "{} does not panic", what);
        ctx.count("cross_store_panics", 1);
        ms[0].look_all()?;
        ms[1].look_all()?;
      }
    }
    ctx.count("operations", 1);
  }
  for m in &ms {
    m.look_all()?;
    for (i, a) in m.nodes.iter().enumerate() {
      for (j, b) in m.nodes.iter().enumerate().take(40) {
        ensure!((a == b) == (i == j), "nodes {} and {} compare wrong", i, j);
      }
    }
    ctx.hi("largest_store", m.nodes.len() as u64);
  }
  if steps >= 6 && branches > 0 {
    ctx.nontrivial(hash_u64s(sig));
  }
  Ok(())
}

/// `make_branch_alt` ties its result to the borrow of the handle, so that it
/// has to be made from one that lives as long as the store.
fn make_branch<'a>(
  owner: &'a Owner,
  ak: Ak,
  nodes: impl IntoIterator<Item = N<'a>>,
) -> A<'a> {
  let n = owner.handle().make_branch_node(ak, nodes);
  let a = n.alts().next().expect("a branch node without alternative");
  a
}

// ------------------------------------------------------------------- T02

pub const T02: Prop = Prop {
  id: "T02",
  streams: &[
    st("linear", 6000, 150_000),
    st("bulk", 4000, 100_000),
    st("equal", 1500, 40_000),
    st("once", 400, 10_000),
    st("mixed", 500, 12_000),
    st("parses", 400, 8000),
    st("dots", 60, 2000),
  ],
  run: t02,
  rule: "2-5 threads on one store, with random delays inside comparisons; recorded histories of short runs searched for a sequential order that respects real time, longer ones checked for exactly-once changes, lost additions and unequal alternatives, concurrent parses compared with parses alone, dot texts printed during additions checked for being the graph of one moment; non-trivial: operations of different threads overlapped in time; distinct by operations, results and their real-time order",
};

#[derive(Clone, Debug)]
enum Op {
  Add(usize, usize),
  All(usize, usize),
  Read(usize),
}

#[derive(Clone, Debug)]
struct Event {
  op: Op,
  thread: usize,
  begin: u64,
  end: u64,
  /// Changed, or the set read.
  res: u64,
}

const MAX_ALTS: usize = 8;

fn set_of(state: u64, n: usize) -> u64 {
  state >> (n * MAX_ALTS) & 0xff
}

fn apply(state: u64, op: &Op) -> (u64, u64) {
  match op {
    Op::Add(n, a) => {
      let bit = 1u64 << (n * MAX_ALTS + a);
      (state | bit, (state & bit == 0) as u64)
    }
    Op::All(n, m) => {
      let s = state | set_of(state, *m) << (n * MAX_ALTS);
      (s, (s != state) as u64)
    }
    Op::Read(n) => (state, set_of(state, *n)),
  }
}

/// Whether some order of the events that respects real time explains them.
fn linearizable(init: u64, ev: &[Event]) -> bool {
  fn go(
    ev: &[Event],
    done: u64,
    state: u64,
    seen: &mut HashSet<(u64, u64)>,
  ) -> bool {
    if done.count_ones() as usize == ev.len() {
      return true;
    }
    if !seen.insert((done, state)) {
      return false;
    }
    let first_end = ev
      .iter()
      .enumerate()
      .filter(|(i, _)| done >> i & 1 == 0)
      .map(|(_, e)| e.end)
      .min()
      .unwrap();
    for (i, e) in ev.iter().enumerate() {
      if done >> i & 1 == 0 && e.begin < first_end {
        let (s, r) = apply(state, &e.op);
        if r == e.res && go(ev, done | 1 << i, s, seen) {
          return true;
        }
      }
    }
    false
  }
  go(ev, 0, init, &mut HashSet::new())
}

/// Lets all threads begin at about the same time.
struct Gate(AtomicUsize, usize);
impl Gate {
  fn new(n: usize) -> Self {
    Gate(AtomicUsize::new(0), n)
  }
  fn pass(&self) {
    self.0.fetch_add(1, AO::SeqCst);
    let mut spins = 0u32;
    while self.0.load(AO::SeqCst) < self.1 {
      spins += 1;
      if spins % 64 == 0 || cfg!(miri) {
        std::thread::yield_now();
      }
      std::hint::spin_loop();
    }
  }
}

fn t02(ctx: &mut Ctx) -> R {
  match ctx.stream {
    "linear" | "bulk" => t02_linear(ctx),
    "equal" => t02_equal(ctx),
    "once" => t02_once(ctx),
    "mixed" => t02_mixed(ctx),
    "parses" => t02_parses(ctx),
    "dots" => t02_dots(ctx),
    s => panic!("harness: unknown stream {}", s),
  }
}

/// Runs the threads; a panic in one is a failure of the operation it runs.
fn threads<'a, X: Send>(
  k: usize,
  seed: u64,
  f: impl Fn(usize) -> X + Sync + 'a,
) -> Result<Vec<X>, String> {
  let gate = Gate::new(k);
  let f = &f;
  let gate = &gate;
  std::thread::scope(|s| {
    let hs: Vec<_> = (0..k)
      .map(|t| {
        s.spawn(move || {
          set_jitter(mix(seed ^ (t as u64) << 32) | 1);
          reset_ticks(TICK_BUDGET);
          gate.pass();
          let r = guard(|| f(t));
          reset_ticks(u64::MAX);
          set_jitter(0);
          r
        })
      })
      .collect();
    hs.into_iter()
      .map(|h| match h.join() {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(m)) => Err(format!("an operation panics: {}", m)),
        Err(_) => Err("an operation panics".to_string()),
      })
      .collect()
  })
}

fn t02_linear(ctx: &mut Ctx) -> R {
  let owner = Owner::new();
  let bulk = ctx.stream == "bulk";
  let rng = &mut ctx.rng;
  let k = rng.range(2, 4);
  let nn = rng.range(2, 4);
  let na = rng.range(2, MAX_ALTS);
  let nodes: Vec<N> = (0..nn).map(|_| owner.handle().make_node()).collect();
  let alts: Vec<A> = (0..na)
    .map(|i| {
      owner
        .handle()
        .make_leaf_node(Tm(i as u32), Vl(0))
        .alts()
        .next()
        .expect("a leaf node without alternative")
    })
    .collect();
  let mut init = 0u64;
  for n in 0..nn {
    for a in 0..na {
      if rng.chance(1, if bulk { 2 } else { 5 }) {
        nodes[n].add_alt(&alts[a]);
        init |= 1 << (n * MAX_ALTS + a);
      }
    }
  }
  let plan: Vec<Vec<Op>> = (0..k)
    .map(|_| {
      (0..rng.range(2, 5))
        .map(|_| {
          let (n, m) = (rng.below(nn), rng.below(nn));
          match rng.below(if bulk { 12 } else { 8 }) {
            0..=3 => Op::Add(n, rng.below(na)),
            4 | 5 => Op::Read(n),
            6 => Op::Read(m),
            _ => Op::All(n, m),
          }
        })
        .collect()
    })
    .collect();
  let clock = AtomicU64::new(1);
  let seed = rng.next();
  let hist = threads(k, seed, |t| {
    let mut out = Vec::new();
    for op in &plan[t] {
      let begin = clock.fetch_add(1, AO::SeqCst);
      let (res, read) = match op {
        Op::Add(n, a) => (changed(nodes[*n].add_alt(&alts[*a])) as u64, None),
        Op::All(n, m) => {
          (changed(nodes[*n].add_all(&nodes[*m])) as u64, None)
        }
        Op::Read(n) => (0, Some(nodes[*n].alts())),
      };
      let res = match read {
        None => res,
        Some(it) => it.fold(0u64, |s, x| {
          s | match alts.iter().position(|a| *a == x) {
            Some(i) => 1 << i,
            None => 1 << 20,
          }
        }),
      };
      let end = clock.fetch_add(1, AO::SeqCst);
      out.push(Event {
        op: op.clone(),
        thread: t,
        begin,
        end,
        res,
      });
    }
    out
  })?;
  let mut ev: Vec<Event> = hist.into_iter().flatten().collect();
  // What is there in the end, as reads after everything.
  for n in 0..nn {
    let begin = clock.fetch_add(1, AO::SeqCst);
    let res = nodes[n].alts().fold(0u64, |s, x| {
      s | match alts.iter().position(|a| *a == x) {
        Some(i) => 1 << i,
        None => 1 << 20,
      }
    });
    let end = clock.fetch_add(1, AO::SeqCst);
    ev.push(Event {
      op: Op::Read(n),
      thread: 99,
      begin,
      end,
      res,
    });
  }
  let ok = linearizable(init, &ev);
  if !ok {
    ev.sort_by_key(|e| e.begin);
    ctx.note(format!("initial sets {:#x}", init));
    for e in &ev {
      ctx.note(format!(
        "thread {} [{}, {}] {:?} = {:#x}",
        e.thread, e.begin, e.end, e.op, e.res
      ));
    }
    return Err("no sequential order explains the results".into());
  }
  // Other than each thread's own, which operations overlapped?
  let mut overlap = 0u64;
  for a in &ev {
    for b in &ev {
      if a.thread < b.thread && a.begin < b.end && b.begin < a.end {
        overlap += 1;
      }
    }
  }
  ctx.count("histories", 1);
  ctx.count("operations", ev.len() as u64);
  ctx.count("overlapping_pairs", overlap);
  if overlap > 0 {
    ev.sort_by_key(|e| e.begin);
    ctx.nontrivial(hash_u64s(
      ev.iter()
        .flat_map(|e| [e.thread as u64, e.begin, e.end, e.res])
        .chain([init]),
    ));
  }
  Ok(())
}

fn t02_equal(ctx: &mut Ctx) -> R {
  let owner = Owner::new();
  let k = ctx.rng.range(2, 5);
  let kinds = ctx.rng.range(1, 4) as u32;
  let base: Vec<N> = (0..3).map(|_| owner.handle().make_node()).collect();
  let seed = ctx.rng.next();
  let n_ops = ctx.rng.range(4, 20);
  let made = threads(k, seed, |t| {
    let mut rng = Rng::new(seed ^ t as u64);
    let h = owner.handle();
    let mut out: Vec<(C, A)> = Vec::new();
    for _ in 0..n_ops {
      if rng.chance(1, 2) {
        let (x, v) = (rng.below(kinds as usize), rng.below(2));
        let a = h.make_leaf_node(Tm(x as u32), Vl(v as u32));
        let a = a.alts().next().expect("no alternative");
        out.push((C::Leaf(x as u32, v as u32), a));
      } else {
        let kids: Vec<usize> =
          (0..rng.range(0, 2)).map(|_| rng.below(3)).collect();
        let ak = rng.below(kinds as usize) as u32;
        let v: Vec<N> = kids.iter().map(|i| base[*i].clone()).collect();
        out.push((C::Branch(ak, kids), make_branch(&owner, Ak(ak), v)));
      }
    }
    out
  })?;
  let mut first: BTreeMap<C, A> = BTreeMap::new();
  let mut shared = 0;
  for (t, v) in made.iter().enumerate() {
    for (c, a) in v {
      let got = match a.content() {
        NodeContent::Leaf(l) => C::Leaf(l.kind().0, l.value().0),
        NodeContent::Branch(b) => C::Branch(
          b.action().0,
          b.nodes()
            .map(|n| base.iter().position(|m| *m == n).unwrap_or(99))
            .collect(),
        ),
      };
      ensure!(got == *c, "{:?} of thread {} reads back as {:?}", c, t, got);
      match first.get(c) {
        None => {
          for (d, b) in &first {
            ensure!(b != a, "{:?} and {:?} have equal alternatives", c, d);
          }
          first.insert(c.clone(), a.clone());
        }
        Some(b) => {
          shared += 1;
          ensure!(
            a == b,
            "{:?} has different alternatives in different threads",
            c
          );
        }
      }
    }
  }
  ctx.count("alternatives_made", (k * n_ops) as u64);
  ctx.count("made_more_than_once", shared);
  if shared > 0 {
    ctx.nontrivial(hash_u64s([seed, k as u64]));
  }
  Ok(())
}

fn t02_once(ctx: &mut Ctx) -> R {
  let owner = Owner::new();
  let k = ctx.rng.range(2, 6);
  let na = ctx.rng.range(5, 60);
  let target = owner.handle().make_node();
  let src: Vec<N> = (0..na)
    .map(|i| owner.handle().make_leaf_node(Tm(i as u32), Vl(1)))
    .collect();
  let alts: Vec<A> =
    src.iter().map(|n| n.alts().next().expect("no alternative")).collect();
  let seed = ctx.rng.next();
  // Every thread adds all of them, in its own order, by either operation.
  let res = threads(k, seed, |t| {
    let mut rng = Rng::new(seed ^ (t as u64) << 8);
    let mut order: Vec<usize> = (0..na).collect();
    match rng.below(3) {
      0 => {}
      1 => order.reverse(),
      _ => rng.shuffle(&mut order),
    }
    order
      .into_iter()
      .map(|i| {
        let c = if rng.chance(1, 3) {
          changed(target.add_all(&src[i]))
        } else {
          changed(target.add_alt(&alts[i]))
        };
        (i, c)
      })
      .collect::<Vec<_>>()
  })?;
  let mut n = vec![0u32; na];
  let mut by = BTreeSet::new();
  for (t, v) in res.iter().enumerate() {
    for (i, c) in v {
      if *c {
        n[*i] += 1;
        by.insert(t);
      }
    }
  }
  for (i, x) in n.iter().enumerate() {
    ensure!(
      *x == 1,
      "adding alternative {} was reported as a change to {} threads",
      i,
      x
    );
  }
  let got: BTreeSet<A> = target.alts().collect();
  let want: BTreeSet<A> = alts.iter().cloned().collect();
  ensure!(
    got == want,
    "{} of {} alternatives are there in the end",
    got.len(),
    want.len()
  );
  ctx.count("additions", (na * k) as u64);
  if by.len() > 1 {
    ctx.count("changes_seen_by_several_threads", 1);
    ctx.nontrivial(hash_u64s(
      res
        .iter()
        .flat_map(|v| v.iter().map(|(i, c)| (*i as u64) << 1 | *c as u64)),
    ));
  }
  Ok(())
}

/// Everything at once; each thread checks what only it changes, and that what
/// others only add to never shrinks.
fn t02_mixed(ctx: &mut Ctx) -> R {
  let owner = Owner::new();
  let k = ctx.rng.range(2, 5);
  let public: Vec<N> = (0..3).map(|_| owner.handle().make_node()).collect();
  let seed = ctx.rng.next();
  let n_ops = ctx.rng.range(20, 80);
  let res: Vec<Result<(Vec<N>, u64, u64), String>> =
    threads(k, seed, |t| {
      let mut rng = Rng::new(seed ^ (t as u64) << 9);
      let h = owner.handle();
      let mut own: Vec<N> = Vec::new();
      let mut sets: Vec<BTreeSet<A>> = Vec::new();
      let mut seen: Vec<BTreeSet<A>> = vec![BTreeSet::new(); public.len()];
      let mut ops = 0;
      let mut foreign = 0;
      for i in 0..n_ops {
        ops += 1;
        match rng.below(6) {
          0 => {
            let n = h.make_node();
            ensure!(n.alts().count() == 0, "a new node is not empty");
            own.push(n);
            sets.push(BTreeSet::new());
          }
          1 => {
            let n =
              h.make_leaf_node(Tm(rng.below(3) as u32), Vl(i as u32 % 3));
            sets.push(n.alts().collect());
            ensure!(
              sets.last().unwrap().len() == 1,
              "a new leaf node has {} alternatives",
              sets.last().unwrap().len()
            );
            own.push(n);
          }
          2 if !own.is_empty() => {
            let kids: Vec<N> = (0..rng.range(0, 3))
              .map(|_| rng.pick(&own).clone())
              .collect();
            let n = h.make_branch_node(Ak(t as u32), kids.clone());
            let a: Vec<A> = n.alts().collect();
            ensure!(a.len() == 1, "a new branch has {} alternatives", a.len());
            match a[0].content() {
              NodeContent::Branch(b) => ensure!(
                b.nodes().collect::<Vec<_>>() == kids
                  && b.action().0 == t as u32,
                "a branch reads back wrong"
              ),
              _ => return Err("a branch reads back as a leaf".into()),
            }
            own.push(n);
            sets.push(a.into_iter().collect());
          }
          3 if own.len() > 1 => {
            let (x, y) = (rng.below(own.len()), rng.below(own.len()));
            let before = sets[x].len();
            let from = sets[y].clone();
            sets[x].extend(from);
            let c = changed(own[x].add_all(&own[y]));
            ensure!(
              c == (sets[x].len() != before),
              "adding all to a node of one thread reports {}",
              c
            );
          }
          4 if !own.is_empty() => {
            let p = rng.below(public.len());
            let _ = public[p].add_all(rng.pick(&own));
          }
          _ => {
            let p = rng.below(public.len());
            let now: BTreeSet<A> = public[p].alts().collect();
            ensure!(
              seen[p].is_subset(&now),
              "alternatives of a node got lost"
            );
            foreign += (now.len() - seen[p].len()) as u64;
            for a in &now {
              if let NodeContent::Branch(b) = a.content() {
                let _ = b.nodes().map(|n| n.alts().count()).sum::<usize>();
              }
            }
            seen[p] = now;
          }
        }
      }
      for (n, s) in own.iter().zip(&sets) {
        let got: BTreeSet<A> = n.alts().collect();
        ensure!(got == *s, "a node of one thread has changed");
      }
      Ok((own, ops, foreign))
    })?;
  let mut all: BTreeSet<N> = BTreeSet::new();
  let mut n = 0;
  let mut foreign = 0;
  for r in res {
    let (own, ops, f) = r?;
    n += own.len();
    all.extend(own);
    foreign += f;
    ctx.count("operations", ops);
  }
  ensure!(all.len() == n, "two threads were given the same node");
  if foreign > 0 {
    ctx.nontrivial(hash_u64s([seed, foreign]));
  }
  Ok(())
}

/// What is printed while others add: the graph of a moment in between.
fn t02_dots(ctx: &mut Ctx) -> R {
  let owner = Owner::new();
  let h = owner.handle();
  let (most_children, most_steps) = if cfg!(miri) { (4, 4) } else { (300, 200) };
  let m = ctx.rng.range(2, most_children);
  let writers = ctx.rng.range(1, 3);
  let printers = ctx.rng.range(1, 2);
  let steps = ctx.rng.range(2.max(most_steps / 10), most_steps);
  let children: Vec<N> = (0..m).map(|_| h.make_node()).collect();
  let root = h.make_node();
  root.add_alt(&make_branch(&owner, Ak(0), children.clone()));
  // Step i of writer w adds what is labelled so, and so many vertices with as
  // many edges.
  let id = |w: usize, i: usize| 1 + (w * 10_000 + i) as u32;
  let leaf_label = |x: u32| format!("{:?}({:?})", Tm(x), Vl(1));
  let branch_label = |x: u32| format!("{:?}", Ak(x));
  let seed = ctx.rng.next();
  let kind_of = |w: usize, i: usize| hash_u64s([seed, w as u64, i as u64]) % 3;
  let begun: Vec<AtomicU64> = (0..writers).map(|_| AtomicU64::new(0)).collect();
  let ended: Vec<AtomicU64> = (0..writers).map(|_| AtomicU64::new(0)).collect();
  let read = |v: &[AtomicU64]| -> Vec<u64> {
    v.iter().map(|x| x.load(AO::SeqCst)).collect()
  };
  let prints = threads(writers + printers, seed, |t| {
    let mut rng = Rng::new(seed ^ (t as u64) << 7);
    let h = owner.handle();
    let mut out = Vec::new();
    if t < writers {
      for i in 0..steps {
        let x = id(t, i);
        let at = rng.pick(&children);
        match kind_of(t, i) {
          0 => {
            let a = h.make_leaf_alt(Tm(x), Vl(1));
            begun[t].store(i as u64 + 1, AO::SeqCst);
            at.add_alt(&a);
          }
          1 => {
            let a = h.make_leaf_node(Tm(x), Vl(1));
            begun[t].store(i as u64 + 1, AO::SeqCst);
            at.add_all(&a);
          }
          _ => {
            let n = h.make_leaf_node(Tm(x), Vl(2));
            let a = make_branch(&owner, Ak(x), vec![n]);
            begun[t].store(i as u64 + 1, AO::SeqCst);
            at.add_alt(&a);
          }
        }
        ended[t].store(i as u64 + 1, AO::SeqCst);
        if rng.chance(1, 4) {
          std::thread::yield_now();
        }
      }
    } else {
      for _ in 0..if cfg!(miri) { 3 } else { 12 } {
        let lo = read(&ended);
        let text = root.to_dot();
        let hi = read(&begun);
        let all = lo.iter().all(|x| *x == steps as u64);
        out.push((lo, text, hi));
        if all {
          break;
        }
      }
    }
    out
  })?;
  let mut key = Vec::new();
  for (lo, text, hi) in prints.into_iter().flatten() {
    let g = dot_graph(&text)?;
    let mut at: BTreeMap<&str, usize> = BTreeMap::new();
    for l in &g.labels {
      *at.entry(l).or_default() += 1;
    }
    ensure!(
      !at.contains_key("undeclared"),
      "printed during additions, an edge leads to a vertex that is not there"
    );
    let (mut vertices, mut edges) = (2 + m, 1 + m);
    for w in 0..writers {
      let has = |i: usize| {
        let x = id(w, i);
        let l = if kind_of(w, i) < 2 { leaf_label(x) } else { branch_label(x) };
        at.get(&l[..]).copied().unwrap_or(0)
      };
      let mut k = 0;
      while k < steps && has(k) == 1 {
        let n = if kind_of(w, k) < 2 { 1 } else { 3 };
        vertices += n;
        edges += n;
        k += 1;
      }
      ensure!(
        (k..steps).all(|i| has(i) == 0),
        "printed during additions, addition {} of a thread is missing but later ones are there",
        k
      );
      ensure!(
        lo[w] <= k as u64 && k as u64 <= hi[w],
        "{} additions of a thread are printed; {} were complete before, {} begun after",
        k,
        lo[w],
        hi[w]
      );
      key.push(k as u64);
    }
    ensure!(
      g.labels.len() == vertices && g.edges.len() == edges,
      "printed during additions, the graph has {} vertices and {} edges instead of {} and {}",
      g.labels.len(),
      g.edges.len(),
      vertices,
      edges
    );
    ctx.count("prints", 1);
    if lo != hi {
      ctx.count("prints_during_additions", 1);
    }
  }
  if key.iter().any(|k| *k > 0 && *k < steps as u64) {
    key.extend([seed, m as u64]);
    ctx.nontrivial(hash_u64s(key));
  }
  Ok(())
}

fn t02_parses(ctx: &mut Ctx) -> R {
  let k = ctx.rng.range(2, 4);
  let mut ds: Vec<Desc> = Vec::new();
  for _ in 0..ctx.rng.range(1, 2) {
    let i = ctx.rng.below(40);
    ds.push(family(&mut ctx.rng, i));
  }
  let mut work: Vec<Vec<(usize, Vec<Tok>)>> = Vec::new();
  let mut alone: Vec<Vec<Option<(Vec<u128>, Option<Vec<u64>>)>>> = Vec::new();
  let h = 5;
  for _ in 0..k {
    let mut w = Vec::new();
    let mut a = Vec::new();
    for _ in 0..ctx.rng.range(1, 2) {
      let g = ctx.rng.below(ds.len());
      let target = ctx.rng.range(0, 4);
      let Some(s) = sentence(&mut ctx.rng, &ds[g], target) else {
        continue;
      };
      if s.len() > 6 {
        continue;
      }
      let toks: Vec<Tok> = s.iter().map(|x| (*x, 3)).collect();
      let Ok(sg) = wrapped(&ds[g]) else {
        ctx.count("skipped", 1);
        return Ok(());
      };
      let owner = Owner::new();
      match guard(|| {
        parse(&sg, &owner.handle(), to_tokens(&toks))
          .map(|n| Forest::read(&n, 100_000).map(|f| meaning(&f, h)))
      }) {
        Ok(Some(Some(m))) => a.push(Some(m)),
        Ok(None) => a.push(None),
        _ => {
          ctx.count("skipped", 1);
          return Ok(());
        }
      }
      w.push((g, toks));
    }
    work.push(w);
    alone.push(a);
  }
  let owner = Owner::new();
  let seed = ctx.rng.next();
  // A grammar cannot be shared between threads (it has Rc inside), a store
  // can: one grammar per thread.
  let res = {
    let ds = &ds;
    let work = &work;
    threads(k, seed, |t| {
      let mut out = Vec::new();
      for (g, toks) in &work[t] {
        let sg = match wrapped(&ds[*g]) {
          Ok(sg) => sg,
          Err(_) => return Vec::new(),
        };
        out.push(
          parse(&sg, &owner.handle(), to_tokens(toks))
            .map(|n| Forest::read(&n, 200_000).map(|f| meaning(&f, h))),
        );
      }
      out
    })?
  };
  for (t, (r, a)) in res.iter().zip(&alone).enumerate() {
    if r.len() != a.len() {
      ctx.count("skipped", 1);
      return Ok(());
    }
    for (x, y) in r.iter().zip(a) {
      let same = match (x, y) {
        (None, None) => true,
        (Some(Some(x)), Some(y)) => x == y,
        _ => false,
      };
      ensure!(
        same,
        "a parse in thread {} differs from the same parse alone",
        t
      );
      ctx.count("concurrent_parses", 1);
    }
  }
  ctx.nontrivial(hash_u64s(
    ds.iter()
      .map(|d| d.sig())
      .chain(work.iter().flatten().flat_map(|w| w.1.iter().map(|t| t.0 as u64))),
  ));
  Ok(())
}

fn to_tokens(toks: &[Tok]) -> Vec<Token<Tm, Vl>> {
  toks.iter().map(|(k, v)| Token::new(Tm(*k), Vl(*v))).collect()
}

// ------------------------------------------------------------------- T03

pub const T03: Prop = Prop {
  id: "T03",
  streams: &[
    st("graph", 6000, 200_000),
    st("wild", 3000, 80_000),
    st("parse", 1000, 20_000),
    st("large", 60, 2000),
  ],
  run: t03,
  rule: "random node graphs with sharing, cycles, repeated children and unreachable parts, labels with quotes, line breaks and dot syntax, and parse forests; the dot text parsed and compared with the graph by colour refinement; non-trivial: a branch with children; distinct by the graph",
};

/// Prints whatever it likes.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Wild(String);
impl std::fmt::Debug for Wild {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.write_str(&self.0)
  }
}

type WN<'a> = Node<'a, Wild, Wild, Wild>;

const WILD: [&str; 16] = [
  "a\"b",
  "back\\slash",
  "new\nline",
  "tab\there\r",
  "];\n}",
  "n0 -> n1",
  "\\n",
  "é名",
  "\\\"",
  "a b",
  "<html>",
  "{x|y}",
  "\u{0}\u{1b}",
  "label=\"\"",
  "\\",
  "\u{1F600}",
];

fn wild(rng: &mut Rng, tame: bool) -> Wild {
  if tame {
    return Wild(format!("x{}", rng.below(4)));
  }
  let mut s = String::new();
  for _ in 0..rng.range(1, 2) {
    if rng.chance(1, 4) {
      s += rng.word();
    } else {
      s += rng.pick(&WILD);
    }
  }
  Wild(s)
}

/// A graph with labelled vertices.
#[derive(Default)]
struct Graph {
  labels: Vec<String>,
  edges: Vec<(usize, usize)>,
}

impl Graph {
  /// Two sides so that every edge leads from one to the other, if possible.
  fn sides(&self) -> Option<Vec<bool>> {
    let mut next: Vec<Vec<usize>> = vec![vec![]; self.labels.len()];
    for (a, b) in &self.edges {
      next[*a].push(*b);
      next[*b].push(*a);
    }
    let mut side: Vec<Option<bool>> = vec![None; next.len()];
    for from in 0..next.len() {
      if side[from].is_some() {
        continue;
      }
      side[from] = Some(false);
      let mut todo = vec![from];
      while let Some(at) = todo.pop() {
        let other = side[at].map(|s| !s);
        for n in &next[at] {
          if side[*n].is_none() {
            side[*n] = other;
            todo.push(*n);
          } else if side[*n] != other {
            return None;
          }
        }
      }
    }
    side.into_iter().collect()
  }

  fn colours(&self) -> Vec<u64> {
    let mut c: Vec<u64> = self.labels.iter().map(|l| hash_str(l)).collect();
    for _ in 0..self.labels.len().min(24) {
      let mut ins: Vec<Vec<u64>> = vec![vec![]; c.len()];
      let mut outs: Vec<Vec<u64>> = vec![vec![]; c.len()];
      for (a, b) in &self.edges {
        outs[*a].push(c[*b]);
        ins[*b].push(c[*a]);
      }
      c = (0..c.len())
        .map(|i| {
          ins[i].sort();
          outs[i].sort();
          hash_u64s(
            [c[i]]
              .into_iter()
              .chain(ins[i].iter().copied())
              .chain([77])
              .chain(outs[i].iter().copied()),
          )
        })
        .collect();
    }
    c.sort();
    c
  }
}

#[derive(Debug, Clone, PartialEq)]
enum Dt {
  Id(String),
  Str(String),
  P(char),
  Arrow,
}

fn dot_tokens(s: &str) -> Result<Vec<Dt>, String> {
  let c: Vec<char> = s.chars().collect();
  let mut i = 0;
  let mut out = Vec::new();
  while i < c.len() {
    let x = c[i];
    if x.is_whitespace() {
      i += 1;
    } else if x == '"' {
      let mut v = String::new();
      i += 1;
      loop {
        match c.get(i) {
          None => return Err("dot: a string does not end".into()),
          Some('"') => break,
          Some('\\') => {
            v.push('\\');
            i += 1;
            match c.get(i) {
              None => return Err("dot: a string does not end".into()),
              Some(y) => v.push(*y),
            }
          }
          Some(y) => v.push(*y),
        }
        i += 1;
      }
      i += 1;
      out.push(Dt::Str(v));
    } else if x.is_alphanumeric() || x == '_' || x == '.' {
      let mut v = String::new();
      while i < c.len()
        && (c[i].is_alphanumeric() || c[i] == '_' || c[i] == '.')
      {
        v.push(c[i]);
        i += 1;
      }
      out.push(Dt::Id(v));
    } else if x == '-' && c.get(i + 1) == Some(&'>') {
      out.push(Dt::Arrow);
      i += 2;
    } else if "{}[]=;,".contains(x) {
      out.push(Dt::P(x));
      i += 1;
    } else {
      return Err(format!("dot: unexpected {:?}", x));
    }
  }
  Ok(out)
}

/// What an escaped label stands for. The library escapes like Rust does.
fn unescape(s: &str) -> String {
  let c: Vec<char> = s.chars().collect();
  let mut out = String::new();
  let mut i = 0;
  while i < c.len() {
    if c[i] == '\\' && i + 1 < c.len() {
      i += 1;
      match c[i] {
        'n' => out.push('\n'),
        't' => out.push('\t'),
        'r' => out.push('\r'),
        '0' => out.push('\0'),
        'u' if c.get(i + 1) == Some(&'{') => {
          let end = (i + 2..c.len()).find(|j| c[*j] == '}').unwrap_or(i + 1);
          let hex: String = c[i + 2..end.max(i + 2)].iter().collect();
          match u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32) {
            Some(x) => {
              out.push(x);
              i = end;
            }
            None => out.push('u'),
          }
        }
        x => out.push(x),
      }
    } else {
      out.push(c[i]);
    }
    i += 1;
  }
  out
}

fn dot_graph(text: &str) -> Result<Graph, String> {
  let t = dot_tokens(text)?;
  let mut i = 0;
  if t.get(0) == Some(&Dt::Id("strict".into())) {
    i += 1;
  }
  if t.get(i) != Some(&Dt::Id("digraph".into())) {
    return Err("dot: no digraph".into());
  }
  i += 1;
  if matches!(t.get(i), Some(Dt::Id(_) | Dt::Str(_))) {
    i += 1;
  }
  if t.get(i) != Some(&Dt::P('{')) {
    return Err("dot: no body".into());
  }
  i += 1;
  let mut g = Graph::default();
  let mut ids: BTreeMap<String, usize> = BTreeMap::new();
  let mut declared: BTreeSet<String> = BTreeSet::new();
  let name = |g: &mut Graph, ids: &mut BTreeMap<String, usize>, s: &str| {
    *ids.entry(s.to_string()).or_insert_with(|| {
      g.labels.push("undeclared".into());
      g.labels.len() - 1
    })
  };
  loop {
    match t.get(i) {
      None => return Err("dot: no end".into()),
      Some(Dt::P('}')) => break,
      Some(Dt::P(';')) => {
        i += 1;
      }
      Some(Dt::Id(a)) | Some(Dt::Str(a)) => {
        i += 1;
        let defaults = matches!(a.as_str(), "node" | "edge" | "graph");
        if t.get(i) == Some(&Dt::P('=')) {
          i += 2;
          continue;
        }
        let mut chain = vec![a.clone()];
        while t.get(i) == Some(&Dt::Arrow) {
          match t.get(i + 1) {
            Some(Dt::Id(b)) | Some(Dt::Str(b)) => chain.push(b.clone()),
            x => return Err(format!("dot: edge to {:?}", x)),
          }
          i += 2;
        }
        let mut label = None;
        while t.get(i) == Some(&Dt::P('[')) {
          i += 1;
          loop {
            match t.get(i) {
              Some(Dt::P(']')) => {
                i += 1;
                break;
              }
              Some(Dt::P(',')) | Some(Dt::P(';')) => i += 1,
              Some(Dt::Id(k)) | Some(Dt::Str(k)) => {
                i += 1;
                if t.get(i) == Some(&Dt::P('=')) {
                  match t.get(i + 1) {
                    Some(Dt::Id(v)) | Some(Dt::Str(v)) => {
                      if k == "label" {
                        label = Some(v.clone());
                      }
                    }
                    x => return Err(format!("dot: attribute {:?}", x)),
                  }
                  i += 2;
                }
              }
              x => return Err(format!("dot: attributes with {:?}", x)),
            }
          }
        }
        if defaults {
          continue;
        }
        if chain.len() == 1 {
          ensure!(
            declared.insert(a.clone()),
            "the vertex {} is there twice",
            a
          );
          let v = name(&mut g, &mut ids, a);
          g.labels[v] = unescape(&label.unwrap_or_else(|| a.clone()));
        } else {
          for w in chain.windows(2) {
            let x = name(&mut g, &mut ids, &w[0]);
            let y = name(&mut g, &mut ids, &w[1]);
            g.edges.push((x, y));
          }
        }
      }
      x => return Err(format!("dot: unexpected {:?}", x)),
    }
  }
  ensure!(
    t.len() == i + 1,
    "dot: text after the end of the graph"
  );
  Ok(g)
}

fn walk_graph<T, K, V>(root: &Node<T, K, V>) -> Graph
where
  T: Ord + Clone + std::fmt::Debug,
  K: Ord + Clone + std::fmt::Debug,
  V: Ord + std::fmt::Debug,
{
  let mut g = Graph::default();
  let mut nodes: BTreeMap<Node<T, K, V>, usize> = BTreeMap::new();
  let mut alts: BTreeMap<Alternative<T, K, V>, usize> = BTreeMap::new();
  let mut todo = vec![root.clone()];
  g.labels.push(String::new());
  nodes.insert(root.clone(), 0);
  while let Some(n) = todo.pop() {
    let at = nodes[&n];
    for a in n.alts() {
      if let Some(x) = alts.get(&a) {
        g.edges.push((at, *x));
        continue;
      }
      let x = g.labels.len();
      alts.insert(a.clone(), x);
      g.edges.push((at, x));
      match a.content() {
        NodeContent::Leaf(l) => {
          g.labels.push(format!("{:?}({:?})", l.kind(), l.value()))
        }
        NodeContent::Branch(b) => {
          g.labels.push(format!("{:?}", b.action()));
          for m in b.nodes() {
            let y = match nodes.get(&m) {
              Some(y) => *y,
              None => {
                let y = g.labels.len();
                g.labels.push(String::new());
                nodes.insert(m.clone(), y);
                todo.push(m);
                y
              }
            };
            g.edges.push((x, y));
          }
        }
      }
    }
  }
  g
}

fn t03_compare<T, K, V>(ctx: &mut Ctx, root: &Node<T, K, V>) -> R
where
  T: Ord + Clone + std::fmt::Debug,
  K: Ord + Clone + std::fmt::Debug,
  V: Ord + std::fmt::Debug,
{
  let want = walk_graph(root);
  let text = root.to_dot();
  if text.len() < 3000 {
    ctx.note(&text);
  }
  let got = dot_graph(&text)?;
  ensure!(
    got.labels.len() == want.labels.len(),
    "{} vertices, but {} nodes and alternatives are reachable",
    got.labels.len(),
    want.labels.len()
  );
  ensure!(
    got.edges.len() == want.edges.len(),
    "{} edges instead of {}",
    got.edges.len(),
    want.edges.len()
  );
  // Nothing is said about what a node's own vertex is labelled with: one side
  // of the graph, whose edges all lead from one side to the other.
  let Some(sides) = got.sides() else {
    return Err("an edge does not lead from a node to an alternative or back".into());
  };
  let colours = want.colours();
  let mut b = want.labels.clone();
  b.sort();
  let mut labels = Vec::new();
  let fits = [false, true].iter().any(|node_side| {
    let mut g = Graph {
      labels: got.labels.clone(),
      edges: got.edges.clone(),
    };
    for (l, s) in g.labels.iter_mut().zip(&sides) {
      if s == node_side {
        l.clear();
      }
    }
    let fits = g.colours() == colours;
    g.labels.sort();
    if g.labels == b || labels.is_empty() {
      labels = g.labels;
    }
    fits
  });
  ensure!(
    fits || labels == b,
    "the labels are {:?} instead of {:?}",
    got.labels,
    b
  );
  ensure!(fits, "the graph is not the one reachable from the node");
  ctx.count("vertices", want.labels.len() as u64);
  ctx.count("edges", want.edges.len() as u64);
  ctx.hi("largest_graph", want.labels.len() as u64);
  if want.edges.len() > 2 {
    ctx.nontrivial(hash_u64s(want.colours()));
  }
  Ok(())
}

fn t03(ctx: &mut Ctx) -> R {
  if ctx.stream == "parse" {
    let i = ctx.rng.below(40);
    let d = family(&mut ctx.rng, i);
    let target = ctx.rng.range(0, 5);
    let Some(s) = sentence(&mut ctx.rng, &d, target) else {
      return Ok(());
    };
    if s.len() > 7 {
      return Ok(());
    }
    let toks: Vec<Tok> = s.iter().map(|k| (*k, 1)).collect();
    let Ok(sg) = wrapped(&d) else {
      return Ok(());
    };
    let owner = Owner::new();
    let h = owner.handle();
    let Ok(Some(n)) = guard(|| parse(&sg, &h, to_tokens(&toks))) else {
      ctx.count("skipped", 1);
      return Ok(());
    };
    return t03_compare(ctx, &n);
  }
  let tame = ctx.stream != "wild";
  let owner: TreeOwner<Wild, Wild, Wild> = TreeOwner::new();
  let h: TreeHandle<Wild, Wild, Wild> = owner.handle();
  if ctx.stream == "large" {
    // One large dimension: alternatives of a node, children, or depth.
    let rng = &mut ctx.rng;
    let cap = *rng.pick(&[70usize, 300, 1100, 2600]);
    let k = rng.odd_between(9, cap);
    let root = h.make_node();
    let few: Vec<WN> = (0..rng.range(1, 3)).map(|_| h.make_node()).collect();
    match rng.below(3) {
      0 => {
        for i in 0..k {
          let kids: Vec<WN> = match rng.below(3) {
            0 => vec![],
            1 => vec![rng.pick(&few).clone()],
            _ => vec![root.clone()],
          };
          root.add_alt(&h.make_branch_alt(Wild(format!("x{}", i)), kids));
        }
      }
      1 => {
        let own = rng.chance(1, 2);
        let kids: Vec<WN> = (0..k)
          .map(|_| {
            if own {
              h.make_node()
            } else {
              rng.pick(&few).clone()
            }
          })
          .collect();
        root.add_alt(&h.make_branch_alt(wild(rng, true), kids.clone()));
        root.add_alt(&h.make_branch_alt(wild(rng, true), kids));
      }
      _ => {
        let mut at = root.clone();
        for i in 0..k {
          let next = h.make_node();
          let label = Wild(format!("x{}", i % 5));
          at.add_alt(&h.make_branch_alt(label, vec![next.clone()]));
          at = next;
        }
        at.add_all(&h.make_leaf_node(wild(rng, true), wild(rng, true)));
      }
    }
    return t03_compare(ctx, &root);
  }
  let rng = &mut ctx.rng;
  let n = rng.spread(1, 12, 70);
  let nodes: Vec<WN> = (0..n).map(|_| h.make_node()).collect();
  let mut all = nodes.clone();
  for _ in 0..rng.spread(0, 16, 200) {
    match rng.below(5) {
      0 => {
        let m = h.make_leaf_node(wild(rng, tame), wild(rng, tame));
        rng.pick(&nodes).add_all(&m);
        all.push(m);
      }
      1 => {
        let a = rng.pick(&all).clone();
        let b = rng.pick(&all).clone();
        a.add_all(&b);
      }
      _ => {
        let kids: Vec<WN> =
          (0..rng.spread(0, 4, 130)).map(|_| rng.pick(&all).clone()).collect();
        let a = h.make_branch_alt(wild(rng, tame), kids);
        rng.pick(&all).add_alt(&a);
      }
    }
  }
  for _ in 0..3 {
    let root = ctx.rng.pick(&all).clone();
    t03_compare(ctx, &root)?;
  }
  Ok(())
}
