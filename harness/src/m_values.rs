//! G06, T04: values and handles are told apart by what they are.

use crate::core::*;
use crate::m_analysis::doc_text;
use crate::m_earley::Owner;
use crate::sy::*;
use bongo::grammar::{build, Elem, NonTerminal, ProdElement, ProdKey, Terminal};
use bongo::parsers::tree::{Alternative, Branch, Leaf, Node, NodeContent, TreeHandle};
use bongo::start_grammar::{StartActionKey, StartNonTerminal, StreamTerminal};
use bongo::utils::{Name, TreeNode, TreeValue};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

/// All comparisons between values, given what each stands for.
pub fn ordered<X: Ord, K: PartialEq + Debug>(
  what: &str,
  xs: &[(X, K)],
) -> Result<u64, String> {
  let n = xs.len();
  let mut m = vec![vec![Ordering::Equal; n]; n];
  for i in 0..n {
    for j in 0..n {
      let (x, y) = (&xs[i].0, &xs[j].0);
      let same = xs[i].1 == xs[j].1;
      ensure!(
        (x == y) == same && (x != y) != same,
        "{} {:?} and {:?} are {}equal",
        what,
        xs[i].1,
        xs[j].1,
        if same { "not " } else { "" }
      );
      let c = x.cmp(y);
      ensure!(
        (c == Ordering::Equal) == same
          && x.partial_cmp(y) == Some(c)
          && (x < y) == (c == Ordering::Less)
          && (x <= y) == (c != Ordering::Greater)
          && (x > y) == (c == Ordering::Greater)
          && (x >= y) == (c != Ordering::Less),
        "{} {:?} and {:?} are ordered {:?}, inconsistently",
        what,
        xs[i].1,
        xs[j].1,
        c
      );
      m[i][j] = c;
    }
  }
  for i in 0..n {
    for j in 0..n {
      ensure!(
        m[i][j] == m[j][i].reverse(),
        "{} {:?} and {:?} are ordered {:?} and {:?}",
        what,
        xs[i].1,
        xs[j].1,
        m[i][j],
        m[j][i]
      );
    }
  }
  // A total order: the number of smaller ones sorts them.
  let rank: Vec<usize> = (0..n)
    .map(|i| m[i].iter().filter(|c| **c == Ordering::Greater).count())
    .collect();
  for i in 0..n {
    for j in 0..n {
      ensure!(
        rank[i].cmp(&rank[j]) == m[i][j],
        "the order of {}s is not transitive around {:?} and {:?}",
        what,
        xs[i].1,
        xs[j].1
      );
    }
  }
  Ok((n * n) as u64)
}

fn hash_of(x: &impl Hash) -> u64 {
  let mut h = std::collections::hash_map::DefaultHasher::new();
  x.hash(&mut h);
  h.finish()
}

// ------------------------------------------------------------------- G06

pub const G06: Prop = Prop {
  id: "G06",
  streams: &[st("values", 4000, 100_000), st("symbols", 3000, 80_000)],
  run: g06,
  rule: "sets of alike symbols, elements, keys, wrappers and derivation nodes, each made in several ways, all compared with each other and taken apart again; non-trivial: at least one pair of equal values made differently; distinct by the values",
};

type E = Elem<Tm, Nt>;

#[derive(Clone, PartialEq, Debug)]
enum Part {
  T(u32),
  N(u32),
}

/// A random tree of labels, and what it becomes.
#[derive(Clone, PartialEq, Debug)]
struct Model(u32, BTreeMap<String, Result<Model, u32>>);

fn model(rng: &mut Rng, depth: usize) -> Model {
  let mut m = BTreeMap::new();
  if depth > 0 {
    for _ in 0..rng.below(3) {
      let k = rng.pick(&["a", "b", "ab", ""]).to_string();
      let v = if rng.chance(1, 3) {
        Err(rng.below(2) as u32)
      } else {
        Ok(model(rng, depth - 1))
      };
      m.insert(k, v);
    }
  }
  Model(rng.below(2) as u32, m)
}

fn tree_of(m: &Model) -> TreeNode<Ak, Vl> {
  if m.1.is_empty() && m.0 % 2 == 0 {
    return TreeNode::from_action(Ak(m.0));
  }
  TreeNode::new(
    Ak(m.0),
    m.1
      .iter()
      .map(|(k, v)| {
        (
          Name::new(k),
          match v {
            Ok(m) => TreeValue::Node(Box::new(tree_of(m))),
            Err(v) => TreeValue::Leaf(Vl(*v)),
          },
        )
      })
      .collect(),
  )
}

fn g06(ctx: &mut Ctx) -> R {
  if ctx.stream == "symbols" {
    return g06_symbols(ctx);
  }
  let rng = &mut ctx.rng;
  let mut sig = Vec::new();
  // Few labels, so that terminals and nonterminals share them.
  let labels: Vec<u32> = {
    let base = *rng.pick(&[0u32, 9, 0x7fff_fffe, 254, 65_534]);
    (0..rng.range(2, 3) as u32).map(|i| base + i).collect()
  };
  let ids = ["", "a", "b", "ab", "start", "é"];
  let mut elems: Vec<(E, Part)> = Vec::new();
  for _ in 0..rng.range(4, 9) {
    let n = *rng.pick(&labels);
    let (e, p) = if rng.chance(1, 2) {
      (Elem::Term(Tm(n)), Part::T(n))
    } else {
      (Elem::NonTerm(Nt(n)), Part::N(n))
    };
    sig.push(hash_str(&format!("{:?}", p)));
    let e = if rng.chance(1, 3) { e.clone() } else { e };
    elems.push((e, p));
  }
  for (e, p) in &elems {
    let (t, n) = (e.as_term().map(|t| t.0), e.as_nonterm().map(|n| n.0));
    let r = match e.as_ref() {
      Elem::Term(t) => Part::T(t.0),
      Elem::NonTerm(n) => Part::N(n.0),
    };
    let want = match p {
      Part::T(x) => (Some(*x), None),
      Part::N(x) => (None, Some(*x)),
    };
    ensure!(
      (t, n) == want && r == *p,
      "element {:?} is viewed as {:?}, {:?} and {:?}",
      p,
      t,
      n,
      r
    );
  }
  let mut cmp = ordered("element", &elems)?;
  // By reference they are ordered alike.
  let refs: Vec<(Elem<&Tm, &Nt>, Part)> =
    elems.iter().map(|(e, p)| (e.as_ref(), p.clone())).collect();
  cmp += ordered("element view", &refs)?;
  // Production elements.
  let mut pes: Vec<(ProdElement<Tm, Nt>, (Option<&str>, Part))> = Vec::new();
  for (e, p) in &elems {
    let id = if rng.chance(1, 2) { Some(*rng.pick(&ids)) } else { None };
    let pe = match (id, rng.below(3)) {
      (None, 0) => ProdElement::new_empty(e.clone()),
      (None, 1) => ProdElement::from(e.clone()),
      (Some(i), 0 | 1) => ProdElement::new_with_name(Name::new(i), e.clone()),
      (i, _) => ProdElement::new(i.map(Name::new), e.clone()),
    };
    ensure!(
      pe.id().map(|n| n.str()) == id && pe.elem() == e,
      "a production element of {:?} and {:?} reads back as {:?}",
      id,
      p,
      pe.id()
    );
    sig.push(hash_str(&format!("{:?}", id)));
    pes.push((pe.clone(), (id, p.clone())));
    if rng.chance(1, 3) {
      pes.push((pe, (id, p.clone())));
    }
  }
  cmp += ordered("production element", &pes)?;
  // Wrappers.
  let mut st: Vec<(StreamTerminal<Tm>, Option<u32>)> = Vec::new();
  let mut sn: Vec<(StartNonTerminal<Nt>, Option<u32>)> = Vec::new();
  let mut sk: Vec<(StartActionKey<Ak>, Option<u32>)> = Vec::new();
  let mut at: Vec<(StartActionKey<StartActionKey<Ak>>, Option<Option<u32>>)> =
    Vec::new();
  for _ in 0..rng.range(3, 7) {
    let n = if rng.chance(1, 4) { None } else { Some(*rng.pick(&labels)) };
    st.push((
      n.map_or(StreamTerminal::EndOfStream, |n| StreamTerminal::Term(Tm(n))),
      n,
    ));
    sn.push((
      n.map_or(StartNonTerminal::Start, |n| StartNonTerminal::NTerm(Nt(n))),
      n,
    ));
    let k = n.map_or(StartActionKey::Start, |n| {
      StartActionKey::ActionKey(Ak(n))
    });
    sk.push((k.clone(), n));
    at.push(if rng.chance(1, 4) {
      (StartActionKey::Start, None)
    } else {
      (StartActionKey::ActionKey(k), Some(n))
    });
    sig.push(n.map_or(u64::MAX, |n| n as u64));
  }
  for (x, n) in &st {
    ensure!(x.is_eos() == n.is_none(), "{:?} is_eos: {}", n, x.is_eos());
    for l in &labels {
      ensure!(
        x.has_kind(&Tm(*l)) == (*n == Some(*l)),
        "{:?} has_kind {}: {}",
        n,
        l,
        x.has_kind(&Tm(*l))
      );
    }
  }
  for (x, n) in &sk {
    ensure!(
      x.as_base().map(|k| k.0) == *n,
      "the key {:?} is viewed as {:?}",
      n,
      x.as_base()
    );
  }
  cmp += ordered("wrapped terminal", &st)?;
  cmp += ordered("wrapped nonterminal", &sn)?;
  cmp += ordered("wrapped key", &sk)?;
  cmp += ordered("twice wrapped key", &at)?;
  // Keys of productions, from two grammars.
  let mut keys: Vec<(ProdKey<Nt, Ak>, (u32, u32))> = Vec::new();
  let l2 = labels.clone();
  let g = guard(|| {
    build::<Tm, Nt, Ak, Av>(Nt(l2[0]), |gb| {
      for h in &l2 {
        gb.add_rule(Nt(*h), |rb| {
          for k in &l2 {
            rb.add_prod(Ak(*k), Av(0), |pb| {
              for o in &l2 {
                pb.add_nonterm(Nt(*o));
              }
            });
          }
        });
      }
    })
    .ok()
  });
  if let Ok(Some(g)) = &g {
    let h = g.clone();
    for p in g.prods().chain(h.prods()) {
      let k = p.prod_key();
      ensure!(
        k.head() == p.head() && k.action_key() == p.action_key(),
        "the key of n{} k{} reads back as {:?}",
        p.head().0,
        p.action_key().0,
        k
      );
      keys.push((k, (p.head().0, p.action_key().0)));
    }
    cmp += ordered("production key", &keys)?;
  }
  // Derivation nodes.
  let mut nodes: Vec<(TreeNode<Ak, Vl>, Model)> = Vec::new();
  for _ in 0..rng.range(2, 6) {
    let m = if !nodes.is_empty() && rng.chance(1, 4) {
      rng.pick(&nodes).1.clone()
    } else {
      model(rng, 3)
    };
    nodes.push((tree_of(&m), m));
  }
  cmp += ordered("derivation node", &nodes)?;
  let values: Vec<(TreeValue<Ak, Vl>, Result<Model, u32>)> = nodes
    .iter()
    .map(|(t, m)| (TreeValue::Node(Box::new(t.clone())), Ok(m.clone())))
    .chain((0..3).map(|i| (TreeValue::Leaf(Vl(i % 2)), Err(i % 2))))
    .collect();
  cmp += ordered("derivation value", &values)?;
  ctx.count("pairs_compared", cmp);
  ctx.nontrivial(hash_u64s(sig));
  Ok(())
}

fn g06_symbols(ctx: &mut Ctx) -> R {
  let rng = &mut ctx.rng;
  let fixed = ["", "a", "ab", "b", "A", "é", "e\u{301}", "名前", "a b", "<a>"];
  let mut pool: Vec<String> = fixed.iter().map(|s| s.to_string()).collect();
  let mut s = rng.word().to_string();
  pool.push(s.clone());
  s = s.repeat(rng.odd_size(60));
  pool.push(s.clone());
  s.push('x');
  pool.push(s);
  let mut texts: Vec<String> =
    (0..rng.range(3, 8)).map(|_| rng.pick(&pool).clone()).collect();
  texts.push(texts[0].clone());
  let ts: Vec<(Terminal, String)> =
    texts.iter().map(|s| (Terminal::new(s), s.clone())).collect();
  let ns: Vec<(NonTerminal, String)> =
    texts.iter().map(|s| (NonTerminal::new(s), s.clone())).collect();
  let mut cmp = ordered("terminal", &ts)? + ordered("nonterminal", &ns)?;
  for (i, s) in texts.iter().enumerate() {
    for (j, t) in texts.iter().enumerate() {
      ensure!(
        ts[i].0.cmp(&ts[j].0) == s.cmp(t) && ns[i].0.cmp(&ns[j].0) == s.cmp(t),
        "symbols of {:?} and {:?} are ordered {:?} and {:?}",
        s,
        t,
        ts[i].0.cmp(&ts[j].0),
        ns[i].0.cmp(&ns[j].0)
      );
      if s == t {
        ensure!(
          hash_of(&ts[i].0) == hash_of(&ts[j].0)
            && hash_of(&ns[i].0) == hash_of(&ns[j].0),
          "equal symbols of {:?} hash differently",
          s
        );
      }
    }
    if !s.contains(['\n', '\r']) {
      let (a, b) = (doc_text(&ts[i].0), doc_text(&ns[i].0));
      ensure!(
        a == *s && b == *s,
        "symbols of {:?} print as {:?} and {:?}",
        s,
        a,
        b
      );
    }
    cmp += 2;
  }
  // As elements of one grammar they are kept apart.
  let es: Vec<(Elem<Terminal, NonTerminal>, (bool, String))> = ts
    .iter()
    .map(|(t, s)| (Elem::Term(t.clone()), (true, s.clone())))
    .chain(ns.iter().map(|(t, s)| (Elem::NonTerm(t.clone()), (false, s.clone()))))
    .collect();
  cmp += ordered("element", &es)?;
  // So do ordered sets of them hold each once.
  let set: BTreeSet<_> = es.iter().map(|(e, _)| e.clone()).collect();
  let want: BTreeSet<_> = es.iter().map(|(_, k)| k.clone()).collect();
  ensure!(
    set.len() == want.len(),
    "a set of {} different elements holds {}",
    want.len(),
    set.len()
  );
  ctx.count("pairs_compared", cmp);
  ctx.nontrivial(hash_u64s(texts.iter().map(|s| hash_str(s))));
  Ok(())
}

// ------------------------------------------------------------------- T04

pub const T04: Prop = Prop {
  id: "T04",
  streams: &[st("stores", 4000, 100_000), st("grow", 300, 8000)],
  run: t04,
  rule: "several stores with alike contents, whose handles, nodes, alternatives, contents are obtained by different routes and compared with each other, before and after the stores grow; non-trivial: at least two stores, each with a branch; distinct by the operations",
};

type H<'a> = TreeHandle<'a, Tm, Ak, Vl>;
type Nd<'a> = Node<'a, Tm, Ak, Vl>;
type Al<'a> = Alternative<'a, Tm, Ak, Vl>;

/// What an alternative is, without asking the store.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum What {
  Leaf(u32, u32),
  Branch(u32, Vec<usize>),
}

fn t04(ctx: &mut Ctx) -> R {
  let rng = &mut ctx.rng;
  // Side by side in memory, or apart.
  let owners: Vec<Owner> = (0..rng.range(2, 4)).map(|_| Owner::new()).collect();
  let boxed: Vec<Box<Owner>> =
    (0..rng.below(2)).map(|_| Box::new(Owner::default())).collect();
  let all: Vec<&Owner> =
    owners.iter().chain(boxed.iter().map(|b| &**b)).collect();
  let hs: Vec<H> = all.iter().map(|o| o.handle()).collect();
  let mut nodes: Vec<(Nd, (usize, usize))> = Vec::new();
  let mut alts: Vec<(Al, (usize, What))> = Vec::new();
  let mut sig = vec![hs.len() as u64];
  let mut per_store: Vec<Vec<Nd>> = vec![Vec::new(); hs.len()];
  let mut branches = vec![false; hs.len()];
  // The same operations in all stores, mostly.
  let steps = rng.range(3, 8);
  let plan: Vec<(usize, u32, u32, Vec<usize>)> = (0..steps)
    .map(|i| {
      (
        rng.below(3),
        rng.below(2) as u32,
        rng.below(2) as u32,
        (0..rng.below(3)).map(|_| rng.below(i + 1)).collect(),
      )
    })
    .collect();
  for (s, h) in hs.iter().enumerate() {
    for (op, a, b, kids) in &plan {
      if rng.chance(1, 12) {
        continue;
      }
      sig.push((s * 100 + op * 10) as u64 + (a * 2 + b) as u64);
      let mine = &mut per_store[s];
      let (n, what) = match op {
        0 => (h.make_node(), None),
        1 => (h.make_leaf_node(Tm(*a), Vl(*b)), Some(What::Leaf(*a, *b))),
        _ => {
          let kids: Vec<usize> =
            kids.iter().filter(|k| **k < mine.len()).copied().collect();
          branches[s] = true;
          (
            h.make_branch_node(Ak(*a), kids.iter().map(|k| mine[*k].clone())),
            Some(What::Branch(*a, kids)),
          )
        }
      };
      if let Some(w) = what {
        let list: Vec<Al> = n.alts().collect();
        // That it is the one: T01.
        if list.len() == 1 {
          alts.push((list[0].clone(), (s, w)));
        }
      }
      nodes.push((n.clone(), (s, mine.len())));
      mine.push(n);
    }
  }
  let compare = |nodes: &[(Nd, (usize, usize))],
                 alts: &[(Al, (usize, What))]|
   -> Result<u64, String> {
    let handles: Vec<(H, usize)> = all
      .iter()
      .enumerate()
      .map(|(i, o)| (o.handle(), i))
      .chain(hs.iter().enumerate().map(|(i, h)| (h.clone(), i)))
      .chain(nodes.iter().take(5).map(|(n, (s, _))| (n.handle(), *s)))
      .chain(alts.iter().rev().take(5).map(|(a, (s, _))| (a.handle(), *s)))
      .collect();
    let mut c = ordered("store", &handles)?;
    for (i, (x, s)) in handles.iter().enumerate() {
      for (y, t) in &handles[i..] {
        ensure!(
          x.is_same(y) == (s == t),
          "handles to stores {} and {} are{} said to be of the same one",
          s,
          t,
          if s == t { " not" } else { "" }
        );
      }
    }
    // Nodes also as children.
    c += ordered("node", nodes)?;
    c += ordered("alternative", alts)?;
    let mut leaves: Vec<(Leaf<Tm, Ak, Vl>, (usize, What))> = Vec::new();
    let mut brs: Vec<(Branch<Tm, Ak, Vl>, (usize, What))> = Vec::new();
    let mut contents: Vec<(NodeContent<Tm, Ak, Vl>, (usize, What))> = Vec::new();
    for (a, k) in alts {
      let x = a.content();
      match &x {
        NodeContent::Leaf(l) => {
          ensure!(
            matches!(k.1, What::Leaf(..)) && l.handle() == hs[k.0],
            "{:?} is a leaf, or one of another store",
            k
          );
          leaves.push((l.clone(), k.clone()));
        }
        NodeContent::Branch(b) => {
          ensure!(
            matches!(k.1, What::Branch(..)) && b.handle() == hs[k.0],
            "{:?} is a branch, or one of another store",
            k
          );
          if let What::Branch(_, kids) = &k.1 {
            let got: Vec<Nd> = b.nodes().collect();
            for (m, i) in got.iter().zip(kids) {
              ensure!(
                *m == per_store[k.0][*i] && m.handle() == hs[k.0],
                "a child of {:?} is another node than the one given",
                k
              );
            }
          }
          brs.push((b.clone(), k.clone()));
        }
      }
      contents.push((x, k.clone()));
    }
    c += ordered("leaf", &leaves)?;
    c += ordered("branch", &brs)?;
    c += ordered("content", &contents)?;
    Ok(c)
  };
  let mut pairs = compare(&nodes, &alts)?;
  let order = |nodes: &[(Nd, (usize, usize))], alts: &[(Al, (usize, What))]| {
    let mut v: Vec<Ordering> = Vec::new();
    for x in nodes.windows(2) {
      v.push(x[0].0.cmp(&x[1].0));
    }
    for x in alts.windows(2) {
      v.push(x[0].0.cmp(&x[1].0));
    }
    v
  };
  let before = order(&nodes, &alts);
  // Let them grow.
  let much = if ctx.stream == "grow" { ctx.rng.odd_between(20, 3000) } else { 12 };
  for i in 0..much {
    let s = ctx.rng.below(hs.len());
    let n = hs[s].make_leaf_node(Tm(100 + i as u32), Vl(1));
    let at = ctx.rng.below(nodes.len().max(1));
    if let Some((m, (t, _))) = nodes.get(at) {
      if *t == s {
        let _ = m.add_all(&n);
        let _ = n.add_all(m);
        continue;
      }
    }
    if let Some(k) = per_store[s].first() {
      let _ = hs[s].make_branch_node(Ak(i as u32), [k.clone(), n]);
    }
  }
  ensure!(
    order(&nodes, &alts) == before,
    "the order of nodes or alternatives changes when the stores grow"
  );
  pairs += compare(&nodes, &alts)?;
  ctx.count("pairs_compared", pairs);
  ctx.count("stores", hs.len() as u64);
  ctx.hi("largest_growth", much as u64);
  if branches.iter().filter(|b| **b).count() >= 2 {
    ctx.nontrivial(hash_u64s(sig));
  }
  Ok(())
}
