//! Grammar descriptions, their generators, and the reference analyses.

use crate::core::*;
use crate::sy::*;
use bongo::grammar::{build, Elem, Grammar, GrammarErrors, ProdElement};
use bongo::utils::Name;
use std::collections::{BTreeMap, BTreeSet};

pub type G = Grammar<Tm, Nt, Ak, Av>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum S {
  T(u32),
  N(u32),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct ED {
  pub id: Option<String>,
  pub s: S,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct PD {
  pub ak: u32,
  pub av: u32,
  pub elems: Vec<ED>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct RD {
  pub head: u32,
  pub prods: Vec<PD>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Desc {
  pub start: u32,
  pub rules: Vec<RD>,
}

impl ED {
  pub fn new(s: S) -> Self {
    ED { id: None, s }
  }
}

pub fn elem_of(s: S) -> Elem<Tm, Nt> {
  match s {
    S::T(t) => Elem::Term(Tm(t)),
    S::N(n) => Elem::NonTerm(Nt(n)),
  }
}

pub fn s_of(e: &Elem<Tm, Nt>) -> S {
  match e {
    Elem::Term(t) => S::T(t.0),
    Elem::NonTerm(n) => S::N(n.0),
  }
}

impl Desc {
  pub fn text(&self) -> String {
    let mut s = format!("start n{}\n", self.start);
    for r in &self.rules {
      s += &format!("  n{} =>", r.head);
      for (i, p) in r.prods.iter().enumerate() {
        if i > 0 {
          s += " |";
        }
        s += &format!(" [k{},v{}]", p.ak, p.av);
        for e in &p.elems {
          s.push(' ');
          if let Some(id) = &e.id {
            s += &format!("{}:", id);
          }
          match e.s {
            S::T(t) => s += &format!("t{}", t),
            S::N(n) => s += &format!("<n{}>", n),
          }
        }
      }
      s += ";\n";
    }
    s
  }

  pub fn sig(&self) -> u64 {
    // Does not depend on labels of actions, nor on identifiers.
    let mut v = vec![self.start as u64];
    for r in &self.rules {
      v.push(1 << 40 | r.head as u64);
      for p in &r.prods {
        v.push(1 << 41);
        for e in &p.elems {
          v.push(match e.s {
            S::T(t) => 1 << 42 | t as u64,
            S::N(n) => 1 << 43 | n as u64,
          });
        }
      }
    }
    hash_u64s(v)
  }

  pub fn rule(&self, n: u32) -> Option<&RD> {
    self.rules.iter().find(|r| r.head == n)
  }

  pub fn prods(&self) -> impl Iterator<Item = (u32, &PD)> {
    self
      .rules
      .iter()
      .flat_map(|r| r.prods.iter().map(move |p| (r.head, p)))
  }

  pub fn num_prods(&self) -> usize {
    self.rules.iter().map(|r| r.prods.len()).sum()
  }

  pub fn heads(&self) -> BTreeSet<u32> {
    self.rules.iter().map(|r| r.head).collect()
  }

  pub fn terminals(&self) -> BTreeSet<u32> {
    self
      .prods()
      .flat_map(|(_, p)| p.elems.iter())
      .filter_map(|e| match e.s {
        S::T(t) => Some(t),
        _ => None,
      })
      .collect()
  }

  pub fn body_nts(&self) -> BTreeSet<u32> {
    self
      .prods()
      .flat_map(|(_, p)| p.elems.iter())
      .filter_map(|e| match e.s {
        S::N(n) => Some(n),
        _ => None,
      })
      .collect()
  }

  pub fn reach(&self) -> BTreeSet<u32> {
    let map: BTreeMap<u32, &RD> =
      self.rules.iter().map(|r| (r.head, r)).collect();
    let mut seen = BTreeSet::new();
    let mut todo = vec![self.start];
    seen.insert(self.start);
    while let Some(n) = todo.pop() {
      if let Some(r) = map.get(&n) {
        for p in &r.prods {
          for e in &p.elems {
            if let S::N(m) = e.s {
              if seen.insert(m) {
                todo.push(m);
              }
            }
          }
        }
      }
    }
    seen
  }

  /// (unreachable, without rules, without productions)
  pub fn expected_errors(
    &self,
  ) -> (BTreeSet<u32>, BTreeSet<u32>, BTreeSet<u32>) {
    let heads = self.heads();
    let body = self.body_nts();
    let reach = self.reach();
    let unreachable = heads
      .iter()
      .chain(body.iter())
      .filter(|n| !reach.contains(n))
      .copied()
      .collect();
    let without_rules = body
      .iter()
      .chain(std::iter::once(&self.start))
      .filter(|n| !heads.contains(n))
      .copied()
      .collect();
    let without_prods = self
      .rules
      .iter()
      .filter(|r| r.prods.is_empty())
      .map(|r| r.head)
      .collect();
    (unreachable, without_rules, without_prods)
  }

  /// Drops the rules that cannot be reached.
  pub fn prune(&mut self) {
    let reach = self.reach();
    self.rules.retain(|r| reach.contains(&r.head));
  }

  // ------------------------------------------------------ to the library

  /// Builds the grammar the plain way.
  pub fn try_build(&self) -> Result<G, GrammarErrors<Nt>> {
    build(Nt(self.start), |gb| {
      for r in &self.rules {
        gb.add_rule(Nt(r.head), |rb| {
          for p in &r.prods {
            rb.add_prod_with_elems(Ak(p.ak), Av(p.av), p.bongo_elems());
          }
        });
      }
    })
  }

  /// Builds a grammar that must be valid. If that fails, it is not for the
  /// caller to judge.
  pub fn built(&self) -> Result<G, Skip> {
    match guard(|| self.try_build()) {
      Ok(Ok(g)) => Ok(g),
      _ => Err(Skip),
    }
  }

  // ------------------------------------------------------ models

  pub fn nullable(&self) -> BTreeSet<u32> {
    let mut set = BTreeSet::new();
    loop {
      let mut changed = false;
      for (h, p) in self.prods() {
        if !set.contains(&h) && prod_nullable(p, &set) {
          set.insert(h);
          changed = true;
        }
      }
      if !changed {
        return set;
      }
    }
  }

  /// Some nonterminal derives the empty string in two ways. As all the
  /// alternatives would have to be unique themselves, this is so exactly if
  /// some nonterminal has two productions that can be empty.
  pub fn null_ambiguous(&self) -> bool {
    let set = self.nullable();
    self
      .rules
      .iter()
      .any(|r| r.prods.iter().filter(|p| prod_nullable(p, &set)).count() > 1)
  }

  pub fn first(&self) -> BTreeMap<u32, BTreeSet<u32>> {
    let nullable = self.nullable();
    let mut m: BTreeMap<u32, BTreeSet<u32>> =
      self.rules.iter().map(|r| (r.head, BTreeSet::new())).collect();
    loop {
      let mut changed = false;
      for (h, p) in self.prods() {
        for e in &p.elems {
          let (add, go_on): (BTreeSet<u32>, bool) = match e.s {
            S::T(t) => ([t].into_iter().collect(), false),
            S::N(n) => (m[&n].clone(), nullable.contains(&n)),
          };
          let set = m.get_mut(&h).unwrap();
          let before = set.len();
          set.extend(add);
          changed |= set.len() != before;
          if !go_on {
            break;
          }
        }
      }
      if !changed {
        return m;
      }
    }
  }

  /// The terminals that can come right after each nonterminal in a sentential
  /// form. Computed as a graph problem: "the thing after X's occurrence", so
  /// that it does not share its shape with the code.
  pub fn follow(&self) -> BTreeMap<u32, BTreeSet<u32>> {
    let nullable = self.nullable();
    let first = self.first();
    let mut m: BTreeMap<u32, BTreeSet<u32>> =
      self.rules.iter().map(|r| (r.head, BTreeSet::new())).collect();
    // Edges head -> nonterminal at the (nullable) end of one of its prods.
    let mut edges: BTreeSet<(u32, u32)> = BTreeSet::new();
    for (h, p) in self.prods() {
      // Going backwards, what may begin the rest.
      let mut rest: BTreeSet<u32> = BTreeSet::new();
      let mut rest_nullable = true;
      for e in p.elems.iter().rev() {
        match e.s {
          S::T(t) => {
            rest = [t].into_iter().collect();
            rest_nullable = false;
          }
          S::N(n) => {
            m.get_mut(&n).unwrap().extend(rest.iter().copied());
            if rest_nullable {
              edges.insert((h, n));
            }
            if !nullable.contains(&n) {
              rest.clear();
              rest_nullable = false;
            }
            rest.extend(first[&n].iter().copied());
          }
        }
      }
    }
    // Everything a head is followed by follows what it can end with.
    let mut todo: Vec<u32> = m.keys().copied().collect();
    while let Some(h) = todo.pop() {
      let from = m[&h].clone();
      for (_, n) in edges.range((h, 0)..=(h, u32::MAX)) {
        let set = m.get_mut(n).unwrap();
        let before = set.len();
        set.extend(from.iter().copied());
        if set.len() != before {
          todo.push(*n);
        }
      }
    }
    m
  }

  /// The nonterminals that derive some terminal string, with the least height
  /// of a derivation.
  pub fn min_height(&self) -> BTreeMap<u32, usize> {
    let mut m: BTreeMap<u32, usize> = BTreeMap::new();
    let mut h = 0;
    loop {
      h += 1;
      let mut add = Vec::new();
      for (head, p) in self.prods() {
        if !m.contains_key(&head)
          && p.elems.iter().all(|e| match e.s {
            S::T(_) => true,
            S::N(n) => m.contains_key(&n),
          })
        {
          add.push(head);
        }
      }
      if add.is_empty() {
        return m;
      }
      for a in add {
        m.insert(a, h);
      }
    }
  }
}

/// A prerequisite failed; this case says nothing about the property.
#[derive(Debug)]
pub struct Skip;

pub fn prod_nullable(p: &PD, set: &BTreeSet<u32>) -> bool {
  p.elems.iter().all(|e| match e.s {
    S::T(_) => false,
    S::N(n) => set.contains(&n),
  })
}

impl PD {
  pub fn bongo_elems(&self) -> Vec<ProdElement<Tm, Nt>> {
    self
      .elems
      .iter()
      .map(|e| {
        ProdElement::new(e.id.as_ref().map(|s| Name::new(s)), elem_of(e.s))
      })
      .collect()
  }
}

// -------------------------------------------------------------- generators

#[derive(Clone, Debug)]
pub struct Shape {
  pub nts: (usize, usize),
  pub ts: (usize, usize),
  pub prods: (usize, usize),
  pub len: (usize, usize),
  /// Of 100 elements, how many are nonterminals.
  pub nt_pct: usize,
  /// Of 100 productions, how many are empty.
  pub empty_pct: usize,
  /// Of 100 elements, how many have an identifier.
  pub id_pct: usize,
  /// Of 100 productions, how many repeat an earlier one of the rule.
  pub dup_pct: usize,
}

impl Shape {
  pub const SMALL: Shape = Shape {
    nts: (1, 4),
    ts: (1, 3),
    prods: (1, 3),
    len: (1, 3),
    nt_pct: 50,
    empty_pct: 15,
    id_pct: 40,
    dup_pct: 5,
  };
  pub const MEDIUM: Shape = Shape {
    nts: (3, 9),
    ts: (1, 6),
    prods: (1, 4),
    len: (1, 5),
    nt_pct: 50,
    empty_pct: 15,
    id_pct: 40,
    dup_pct: 5,
  };
  pub const NULLY: Shape = Shape {
    nts: (2, 7),
    ts: (1, 4),
    prods: (1, 3),
    len: (1, 4),
    nt_pct: 75,
    empty_pct: 25,
    id_pct: 60,
    dup_pct: 2,
  };
}

/// Distinct random labels. Their order is what the library sorts by.
pub fn labels(rng: &mut Rng, n: usize) -> Vec<u32> {
  let mut v: Vec<u32> = if rng.chance(1, 2) {
    (0..n as u32).collect()
  } else {
    let mut s = BTreeSet::new();
    while s.len() < n {
      s.insert(rng.below(100_000) as u32);
    }
    s.into_iter().collect()
  };
  rng.shuffle(&mut v);
  v
}

const ID_POOL: [&str; 10] =
  ["x", "y", "left", "right", "value", "é", "名前", "a b", "rest", "z9"];

pub fn add_ids(rng: &mut Rng, elems: &mut [ED], pct: usize) {
  let mut used: BTreeSet<String> = BTreeSet::new();
  for e in elems.iter_mut() {
    if rng.below(100) < pct {
      let mut id = if rng.chance(1, 4) {
        rng.word().to_string()
      } else {
        rng.pick(&ID_POOL).to_string()
      };
      while used.contains(&id) {
        id = format!("{}{}", id, used.len());
      }
      used.insert(id.clone());
      e.id = Some(id);
    }
  }
}

/// A grammar in which all rules are well formed. Reachable rules only.
pub fn gen(rng: &mut Rng, sh: &Shape) -> Desc {
  let n = rng.range(sh.nts.0, sh.nts.1);
  let t = rng.range(sh.ts.0, sh.ts.1);
  let nl = labels(rng, n);
  let tl = labels(rng, t);
  let mut rules = Vec::new();
  for &head in &nl {
    let k = rng.range(sh.prods.0, sh.prods.1);
    let mut prods: Vec<PD> = Vec::new();
    for _ in 0..k {
      let mut elems = Vec::new();
      if !prods.is_empty() && rng.below(100) < sh.dup_pct {
        elems = rng.pick(&prods).elems.clone();
      } else if rng.below(100) >= sh.empty_pct {
        for _ in 0..rng.range(sh.len.0, sh.len.1) {
          elems.push(ED::new(if rng.below(100) < sh.nt_pct {
            S::N(*rng.pick(&nl))
          } else {
            S::T(*rng.pick(&tl))
          }));
        }
        add_ids(rng, &mut elems, sh.id_pct);
      }
      prods.push(PD {
        ak: 0,
        av: 0,
        elems,
      });
    }
    rules.push(RD { head, prods });
  }
  let mut d = Desc {
    start: nl[0],
    rules,
  };
  // Make more of it reachable: mention lost nonterminals somewhere.
  if rng.chance(2, 3) {
    loop {
      let reach = d.reach();
      let lost: Vec<u32> =
        nl.iter().copied().filter(|x| !reach.contains(x)).collect();
      if lost.is_empty() {
        break;
      }
      let x = *rng.pick(&lost);
      let from: Vec<usize> = (0..d.rules.len())
        .filter(|i| reach.contains(&d.rules[*i].head))
        .collect();
      let r = *rng.pick(&from);
      let pi = rng.below(d.rules[r].prods.len());
      let elems = &mut d.rules[r].prods[pi].elems;
      let at = rng.range(0, elems.len());
      elems.insert(at, ED::new(S::N(x)));
    }
  }
  d.prune();
  finish(rng, &mut d);
  d
}

/// Labels the actions and shuffles the rules.
pub fn finish(rng: &mut Rng, d: &mut Desc) {
  let shared = rng.chance(1, 3);
  let total = d.num_prods();
  let all = labels(rng, total.max(1));
  let avs = labels(rng, total.max(1));
  let mut i = 0;
  for r in &mut d.rules {
    let mut own: Vec<u32> = (0..r.prods.len() as u32).collect();
    rng.shuffle(&mut own);
    for (j, p) in r.prods.iter_mut().enumerate() {
      p.ak = if shared { own[j] } else { all[i] };
      p.av = avs[i];
      i += 1;
    }
  }
  if rng.chance(2, 3) {
    rng.shuffle(&mut d.rules);
  }
}

/// A chain n0 -> n1 -> ... of the given length, in an adverse label order,
/// with some side elements.
pub fn gen_chain(rng: &mut Rng, len: usize, nullable_end: bool) -> Desc {
  let mut nl: Vec<u32> = (0..len as u32).collect();
  match rng.below(3) {
    0 => {}
    1 => nl.reverse(),
    _ => rng.shuffle(&mut nl),
  }
  let style = rng.below(4);
  let named = rng.chance(1, 2);
  let mut rules = Vec::new();
  for i in 0..len {
    let mut elems = Vec::new();
    if i + 1 < len {
      let mut e = ED::new(S::N(nl[i + 1]));
      if named {
        e.id = Some("next".into());
      }
      elems.push(e);
      match style {
        1 => elems.push(ED::new(S::T(i as u32))),
        2 => elems.insert(0, ED::new(S::T(i as u32))),
        3 if i % 7 == 0 => elems.push(ED::new(S::T(i as u32))),
        _ => {}
      }
    } else if !nullable_end {
      elems.push(ED::new(S::T(9999)));
    }
    let mut prods = vec![PD {
      ak: 0,
      av: 0,
      elems,
    }];
    if rng.chance(1, 6) {
      prods.push(PD {
        ak: 0,
        av: 0,
        elems: vec![ED::new(S::T(10_000 + i as u32 % 5))],
      });
    }
    rules.push(RD { head: nl[i], prods });
  }
  let mut d = Desc {
    start: nl[0],
    rules,
  };
  finish(rng, &mut d);
  d
}

/// Few rules with long productions.
pub fn gen_wide(rng: &mut Rng, max_len: usize) -> Desc {
  let n = rng.range(1, 3);
  let nl = labels(rng, n);
  let tl = labels(rng, rng.clone().range(1, 20));
  let mut rules = Vec::new();
  for &head in &nl {
    let mut prods = Vec::new();
    for _ in 0..rng.range(1, 2) {
      let len = rng.spread(8, max_len, 8 * max_len);
      let mut elems: Vec<ED> = (0..len)
        .map(|_| {
          ED::new(if rng.chance(1, 10) {
            S::N(*rng.pick(&nl))
          } else {
            S::T(*rng.pick(&tl))
          })
        })
        .collect();
      add_ids(rng, &mut elems, 30);
      prods.push(PD {
        ak: 0,
        av: 0,
        elems,
      });
    }
    prods.push(PD {
      ak: 0,
      av: 0,
      elems: vec![ED::new(S::T(tl[0]))],
    });
    rules.push(RD { head, prods });
  }
  let mut d = Desc {
    start: nl[0],
    rules,
  };
  d.prune();
  finish(rng, &mut d);
  d
}

fn pd(elems: Vec<ED>) -> PD {
  PD {
    ak: 0,
    av: 0,
    elems,
  }
}

/// One large dimension: a chain, a fan of rules, a long production (at most
/// `max_null` of whose elements can be empty), or a rule of many productions.
pub fn gen_sizes(rng: &mut Rng, cap: usize, max_null: usize) -> Desc {
  let ids = *rng.pick(&[0usize, 30, 100]);
  let mut rules: Vec<RD> = Vec::new();
  let start;
  match rng.below(6) {
    0 => {
      let n = rng.odd_between(9, cap).max(2);
      let ne = rng.chance(1, 2);
      return gen_chain(rng, n, ne);
    }
    1 | 2 => {
      // A fan: the start leads to all of a layer, which may lead to another.
      let n = rng.odd_between(9, cap);
      let layers = rng.range(1, 2);
      let nl = labels(rng, n * layers + 1);
      let ts = *rng.pick(&[1usize, 3, n]);
      start = nl[0];
      let one: Vec<ED> =
        nl[1..=n].iter().map(|x| ED::new(S::N(*x))).collect();
      let prods = match rng.below(3) {
        0 => vec![one],
        1 => one.into_iter().map(|e| vec![e]).collect(),
        _ => {
          let k = rng.range(2, 9);
          one.chunks(k).map(|c| c.to_vec()).collect()
        }
      };
      rules.push(RD {
        head: start,
        prods: prods
          .into_iter()
          .map(|mut e| {
            add_ids(rng, &mut e, ids);
            pd(e)
          })
          .collect(),
      });
      let mut nullables = 0;
      for l in 0..layers {
        for i in 0..n {
          let mut prods = Vec::new();
          let mut elems = vec![ED::new(S::T((i % ts) as u32))];
          if l + 1 < layers {
            // Its own, and perhaps a shared one.
            elems.push(ED::new(S::N(nl[1 + (l + 1) * n + i])));
          } else if rng.chance(1, 3) {
            elems.push(ED::new(S::N(*rng.pick(&nl))));
          }
          if rng.chance(1, 4) {
            elems.reverse();
          }
          add_ids(rng, &mut elems, ids);
          prods.push(pd(elems));
          if nullables < max_null && rng.chance(1, 4) {
            nullables += 1;
            prods.push(pd(vec![]));
          }
          rules.push(RD {
            head: nl[1 + l * n + i],
            prods,
          });
        }
      }
    }
    3 | 4 => {
      // A long production, many of whose elements can be empty.
      let n = rng.odd_between(9, cap.min(600));
      let kinds = if rng.chance(1, 2) { rng.range(1, 5) } else { n };
      let nl = labels(rng, kinds * 2 + 1);
      start = nl[0];
      let (nullable, solid) = (&nl[1..=kinds], &nl[kinds + 1..]);
      let solid_pct = *rng.pick(&[0usize, 2, 10, 50]);
      let mut left = max_null;
      let mut elems: Vec<ED> = (0..n)
        .map(|i| {
          if left == 0 || rng.below(100) < solid_pct {
            if rng.chance(1, 2) {
              ED::new(S::N(solid[i % kinds]))
            } else {
              ED::new(S::T(i as u32 % 7))
            }
          } else {
            left -= 1;
            ED::new(S::N(nullable[i % kinds]))
          }
        })
        .collect();
      if left == 0 && rng.chance(1, 2) {
        // Those that can be empty are not all at the front.
        rng.shuffle(&mut elems);
      }
      if rng.chance(1, 2) {
        elems.push(ED::new(S::T(9_999)));
      }
      add_ids(rng, &mut elems, ids);
      let mut prods = vec![pd(elems)];
      if rng.chance(1, 3) {
        prods.push(pd(vec![ED::new(S::T(9_998)), ED::new(S::N(start))]));
      }
      rules.push(RD { head: start, prods });
      for i in 0..kinds {
        let mut prods = vec![
          pd(vec![]),
          pd(vec![ED::new(S::T(10_000 + i as u32))]),
        ];
        if rng.chance(1, 3) {
          prods.reverse();
        }
        rules.push(RD {
          head: nullable[i],
          prods,
        });
        rules.push(RD {
          head: solid[i],
          prods: vec![pd(vec![ED::new(S::T(20_000 + i as u32))])],
        });
      }
    }
    _ => {
      // A rule of many productions.
      let n = rng.odd_between(9, cap);
      let nl = labels(rng, 4);
      start = nl[0];
      let ts = *rng.pick(&[1usize, 2, n]);
      let mut prods: Vec<PD> = (0..n)
        .map(|i| {
          let mut elems = vec![ED::new(S::T((i % ts) as u32))];
          if rng.chance(1, 6) {
            let at = rng.below(2);
            elems.insert(at, ED::new(S::N(*rng.pick(&nl))));
          }
          add_ids(rng, &mut elems, ids);
          pd(elems)
        })
        .collect();
      if rng.chance(1, 2) {
        let at = rng.range(0, prods.len());
        prods.insert(at, pd(vec![]));
      }
      rules.push(RD { head: start, prods });
      for x in &nl[1..] {
        let mut prods = vec![pd(vec![ED::new(S::T(5_000))])];
        if rng.chance(1, 2) {
          prods.push(pd(vec![ED::new(S::N(start)), ED::new(S::T(5_001))]));
        }
        rules.push(RD { head: *x, prods });
      }
    }
  }
  let mut d = Desc { start, rules };
  d.prune();
  finish(rng, &mut d);
  d
}

/// Many rules with many symbols.
pub fn gen_big(rng: &mut Rng) -> Desc {
  gen(
    rng,
    &Shape {
      nts: (20, 80),
      ts: (10, 90),
      prods: (1, 5),
      len: (1, 6),
      nt_pct: 45,
      empty_pct: 6,
      id_pct: 30,
      dup_pct: 3,
    },
  )
}

/// The `idx`-th grammar of a full enumeration: `nn` nonterminals, `nt`
/// terminals, one or two productions (ordered) of at most `len` elements.
pub struct Tiny {
  nn: usize,
  bodies: Vec<Vec<S>>,
}

impl Tiny {
  pub fn new(nn: usize, nt: usize, len: usize) -> Self {
    let syms: Vec<S> = (0..nn)
      .map(|i| S::N(i as u32))
      .chain((0..nt).map(|i| S::T(i as u32)))
      .collect();
    let mut bodies: Vec<Vec<S>> = vec![vec![]];
    let mut last: Vec<Vec<S>> = vec![vec![]];
    for _ in 0..len {
      let mut next = Vec::new();
      for b in &last {
        for s in &syms {
          let mut b = b.clone();
          b.push(*s);
          next.push(b);
        }
      }
      bodies.extend(next.iter().cloned());
      last = next;
    }
    Tiny { nn, bodies }
  }
  fn per_rule(&self) -> u64 {
    let b = self.bodies.len() as u64;
    b + b * b
  }
  pub fn total(&self) -> u64 {
    self.per_rule().pow(self.nn as u32)
  }
  pub fn get(&self, mut idx: u64) -> Desc {
    let b = self.bodies.len() as u64;
    let mut rules = Vec::new();
    let mut k = 0;
    for n in 0..self.nn {
      let mut c = idx % self.per_rule();
      idx /= self.per_rule();
      let which: Vec<u64> = if c < b {
        vec![c]
      } else {
        c -= b;
        vec![c % b, c / b]
      };
      let prods = which
        .into_iter()
        .map(|w| {
          k += 1;
          PD {
            ak: k,
            av: k,
            elems: self.bodies[w as usize]
              .iter()
              .enumerate()
              .map(|(i, s)| ED {
                id: if i == 0 { Some("x".into()) } else { None },
                s: *s,
              })
              .collect(),
          }
        })
        .collect();
      rules.push(RD {
        head: n as u32,
        prods,
      });
    }
    let mut d = Desc { start: 0, rules };
    d.prune();
    d
  }
  /// Walks all of them in a scattered order.
  pub fn scattered(&self, idx: u64, seed: u64) -> Desc {
    let total = self.total();
    // A multiplier coprime to the total visits each exactly once.
    let mut m = (total as f64 * 0.6180339887) as u64 | 1;
    while gcd(m, total) != 1 {
      m += 2;
    }
    let i = ((idx as u128 * m as u128 + seed as u128 * 7919)
      % total as u128) as u64;
    self.get(i)
  }
}

fn gcd(a: u64, b: u64) -> u64 {
  if b == 0 {
    a
  } else {
    gcd(b, a % b)
  }
}

/// Whether the grammar says anything: some rule refers to a nonterminal.
pub fn structured(d: &Desc) -> bool {
  !d.body_nts().is_empty()
}

/// The mix of grammars most monitors use, by stream name.
pub fn gen_stream(ctx: &mut Ctx) -> Desc {
  let (stream, idx, seed) = (ctx.stream, ctx.idx, ctx.seed);
  let rng = &mut ctx.rng;
  match stream {
    "tiny1" => Tiny::new(1, 1, 3).get(idx % Tiny::new(1, 1, 3).total()),
    "tiny2" => Tiny::new(2, 1, 2).scattered(idx, seed),
    "tiny3" => Tiny::new(3, 1, 2).scattered(idx, seed),
    "small" => gen(rng, &Shape::SMALL),
    "medium" => gen(rng, &Shape::MEDIUM),
    "nully" => gen(rng, &Shape::NULLY),
    "chain" => {
      let len = rng.range(10, 60 + (idx as usize * 7) % 140);
      let ne = rng.chance(2, 3);
      gen_chain(rng, len, ne)
    }
    "wide" => gen_wide(rng, 60),
    "big" => gen_big(rng),
    "sizes" => {
      // Most of them not very large.
      let cap = *rng.pick(&[70usize, 140, 300, 700, 1100]);
      gen_sizes(rng, cap, usize::MAX)
    }
    _ => panic!("harness: unknown stream {}", stream),
  }
}
