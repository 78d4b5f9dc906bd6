//! E01-E04: the Earley parser.

use crate::core::*;
use crate::desc::*;
use crate::sy::*;
use bongo::parsers::earley::parse;
use bongo::parsers::tree::{Node, NodeContent, TreeHandle, TreeOwner};
use bongo::parsers::Token;
use bongo::start_grammar::{
  wrap_grammar_with_start, StartActionKey, StartActionValue, StartGrammar,
  StartNonTerminal, StreamTerminal,
};
use bongo::grammar::Elem;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type SG = StartGrammar<Tm, Nt, Ak, Av>;
pub type Owner = TreeOwner<Tm, Ak, Vl>;
pub type Handle<'a> = TreeHandle<'a, Tm, Ak, Vl>;
pub type N<'a> = Node<'a, Tm, Ak, Vl>;
pub type Tok = (u32, u32);

// ------------------------------------------------------------ grammars

/// The wrapped grammar, provided that it is the one described.
pub fn wrapped(d: &Desc) -> Result<SG, Skip> {
  let g = d.built()?;
  match guard(|| {
    let sg = wrap_grammar_with_start(g).ok()?;
    if is_wrapped(d, &sg) {
      Some(sg)
    } else {
      None
    }
  }) {
    Ok(Some(sg)) => Ok(sg),
    _ => Err(Skip),
  }
}

fn is_wrapped(d: &Desc, sg: &SG) -> bool {
  if *sg.start_nt() != StartNonTerminal::Start {
    return false;
  }
  let mut seen = BTreeSet::new();
  for r in sg.rules() {
    let head = match r.head() {
      StartNonTerminal::Start => {
        let ps: Vec<_> = r.prods().collect();
        if ps.len() != 1 {
          return false;
        }
        let es: Vec<_> =
          ps[0].prod_elements().into_iter().map(|e| e.elem().clone()).collect();
        if es
          != [
            Elem::NonTerm(StartNonTerminal::NTerm(Nt(d.start))),
            Elem::Term(StreamTerminal::EndOfStream),
          ]
        {
          return false;
        }
        continue;
      }
      StartNonTerminal::NTerm(n) => n.0,
    };
    let Some(rd) = d.rule(head) else { return false };
    if !seen.insert(head) {
      return false;
    }
    let ps: Vec<_> = r.prods().collect();
    if ps.len() != rd.prods.len() {
      return false;
    }
    for (p, pd) in ps.iter().zip(&rd.prods) {
      let ak = *p.action_key() == StartActionKey::ActionKey(Ak(pd.ak));
      let av = matches!(p.action_value(),
        StartActionValue::ActionValue(a) if a.0 == pd.av);
      let es: Vec<_> = p.prod_elements().into_iter().collect();
      if !ak || !av || es.len() != pd.elems.len() {
        return false;
      }
      for (e, ed) in es.iter().zip(&pd.elems) {
        let want = match ed.s {
          S::T(t) => Elem::Term(StreamTerminal::Term(Tm(t))),
          S::N(n) => Elem::NonTerm(StartNonTerminal::NTerm(Nt(n))),
        };
        if *e.elem() != want {
          return false;
        }
      }
    }
  }
  seen == d.heads()
}

/// "S: S S | a | ; A: b". Capitals are nonterminals, the first is the start.
pub fn dsl(rng: &mut Rng, text: &str) -> Desc {
  let mut nts: Vec<char> = Vec::new();
  let mut ts: Vec<char> = Vec::new();
  for c in text.chars() {
    if c.is_ascii_uppercase() && !nts.contains(&c) {
      nts.push(c);
    }
    if (c.is_ascii_lowercase() || "+*()".contains(c)) && !ts.contains(&c) {
      ts.push(c);
    }
  }
  let nl = labels(rng, nts.len());
  let tl = labels(rng, ts.len().max(1));
  let mut rules = Vec::new();
  for r in text.split(';').filter(|r| !r.trim().is_empty()) {
    let (h, b) = r.split_once(':').expect("harness: dsl");
    let head = nl[nts
      .iter()
      .position(|c| h.trim().starts_with(*c))
      .expect("harness: dsl head")];
    let prods = b
      .split('|')
      .map(|p| {
        let mut elems: Vec<ED> = p
          .chars()
          .filter(|c| !c.is_whitespace())
          .map(|c| {
            ED::new(match nts.iter().position(|x| *x == c) {
              Some(i) => S::N(nl[i]),
              None => {
                S::T(tl[ts.iter().position(|x| *x == c).expect("dsl")])
              }
            })
          })
          .collect();
        add_ids(rng, &mut elems, 30);
        PD {
          ak: 0,
          av: 0,
          elems,
        }
      })
      .collect();
    rules.push(RD { head, prods });
  }
  let mut d = Desc {
    start: nl[0],
    rules,
  };
  d.prune();
  finish(rng, &mut d);
  d
}

const FAMILIES: [&str; 40] = [
  "S: S S | a |",
  "S: S S | S S S | a",
  "S: a S | a",
  "S: S a | a",
  "S: S a |",
  "S: a S |",
  "S: S | a",
  "S: A ; A: S | a",
  "S: A | b ; A: B | a ; B: S | b",
  "S: a S a | b S b | a | b |",
  "S: E ; E: E + E | E * E | a | ( E )",
  "S: S + T | T ; T: T * F | F ; F: ( S ) | a",
  "S: i S | i S e S | x",
  "S: A S a | b ; A:",
  "S: A A A A | a ; A: a |",
  "S: A B C ; A: a | ; B: b | A ; C: c | B",
  "S: A A ; A: S | a |",
  "S: A | B ; A: a A | a ; B: B a | a",
  "S: A B ; A: a a | a ; B: a | a a",
  "S: A ; A: A A | B ; B: B B | a",
  "S: S S S S | a | ",
  "S: U | a ; U: U a | U U",
  "S: a U | a ; U: V ; V: U",
  "S: a U b | c S | ; U: U",
  "S: X X X ; X: x | y | x y",
  "S: A a ; A: A b | B ; B: A a | a |",
  "S: A ; A: B | C | a ; B: A | b ; C: B | A",
  "S: a | a | a",
  "S: A | B | C ; A: a ; B: a ; C: a",
  "S: A A | B B ; A: a | a a ; B: a | a a",
  "S: a S b S | b S a S |",
  "S: S S ; S: S S | a | b",
  "S: N S N a | b ; N: M | ; M: N",
  "S: A A ; A: a | B ; B: |",
  "S: L ; L: L I | ; I: a | b J ; J: a J | c",
  "S: A B A B ; A: a | A a ; B: a | B a",
  "S: a A b | a B c ; A: d | d A ; B: d | B d",
  "S: ( S ) S |",
  "S: A a | a A ; A: A a | a A |",
  "S: P P ; P: Q | Q Q ; Q: R | R R ; R: a |",
];

/// Grammars with few derivations of long inputs.
const LONG: [&str; 9] = [
  "S: S a | a",
  "S: S a | S b |",
  "S: a S | b",
  "S: a S a | b",
  "S: L ; L: L I | I ; I: a | b",
  "S: S P a | P ; P:",
  "S: A B ; A: A a | a ; B: B b | b",
  "S: S + T | T ; T: T * a | a",
  "S: S A | A ; A: ( A ) | a",
];

/// Grammars with few derivations, and long inputs that differ along the way.
/// A letter alone is a token; with a number after it, it is there as many times
/// as that number, which is large, is drawn to be; less so from 5 on, where the
/// parser would take cubic time.
const PHASES: [(&str, &str); 16] = [
  ("S: A B ; A: A a | a ; B: B b | b", "a1b2"),
  ("S: A B ; A: A a | a ; B: b B | b", "a1b5"),
  ("S: a S | B ; B: B b | b", "a5b1"),
  ("S: a S b | C ; C: C c | c", "a1c2b1"),
  ("S: L ; L: L I | I ; I: a | ( J ) ; J: J b | b", "a1(b2)a3"),
  ("S: L ; L: L I | ; I: a | b J c ; J: d | d J", "a1bd5ca3"),
  ("S: A E B ; A: A a | a ; E: ; B: B b | b", "a1b2"),
  ("S: A B C ; A: A a | ; B: B b | ; C: C c |", "a1b2c3"),
  ("S: ( S ) | a | b", "(1b)1"),
  ("S: A S | B ; A: a ; B: B b | b", "a5b1"),
  ("S: L ; L: L I | I ; I: X | Y ; X: x X y | x y ; Y: a", "a1x2y2a3"),
  ("S: L T ; L: L a | ; T: P | Q ; P: b c d ; Q: b c e", "a1bcd"),
  ("S: L T M ; L: L a | ; M: M a | a ; T: b T b | c", "a1b2cb2a3"),
  ("S: A | B ; A: A a | c ; B: B a | d", "da1"),
  ("S: L E ; L: L a | ; E: F | ; F: G ; G: b", "a1b"),
  ("S: L E ; L: L a | ; E: E b | ; ", "a1b2"),
];

/// An input for the grammar `PHASES[idx]`: the grammar must have been made of
/// it, with its terminals numbered in order of appearance by `kind`.
fn phase_input(rng: &mut Rng, d: &Desc, idx: u64) -> Vec<Tok> {
  let (text, shape) = PHASES[idx as usize % PHASES.len()];
  let kinds = dsl_kinds(text, d);
  let shape: Vec<char> = shape.chars().collect();
  // Where the numbers are.
  let mut weight = [0usize; 10];
  let mut fixed = 0;
  let mut i = 0;
  while i < shape.len() {
    match shape.get(i + 1).and_then(|c| c.to_digit(10)) {
      Some(n) => {
        weight[n as usize] += 1;
        i += 2;
      }
      None => {
        fixed += 1;
        i += 1;
      }
    }
  }
  let used: Vec<usize> = (0..10).filter(|n| weight[*n] > 0).collect();
  let total = if rng.chance(3, 4) {
    rng.range(257, MAX_INPUT - 1)
  } else {
    rng.range(20, 257)
  } - fixed;
  // One of them long, or all about alike.
  let mut count = [0usize; 10];
  let mut left = total;
  for n in used.iter().filter(|n| **n >= 5) {
    count[*n] = rng.range(1, 40);
    left = left.saturating_sub(count[*n] * weight[*n]);
  }
  let mut order: Vec<usize> = used.iter().copied().filter(|n| *n < 5).collect();
  rng.shuffle(&mut order);
  for (j, n) in order.iter().enumerate() {
    let most = left / weight[*n];
    let c = if j + 1 == order.len() {
      most
    } else if rng.chance(1, 3) {
      rng.range(1, 5).min(most)
    } else {
      rng.range(1.min(most), most)
    };
    count[*n] = c.max(1);
    left = left.saturating_sub(count[*n] * weight[*n]);
  }
  let mut out = Vec::new();
  let mut i = 0;
  while i < shape.len() {
    let k = kinds[&shape[i]];
    match shape.get(i + 1).and_then(|c| c.to_digit(10)) {
      Some(n) => {
        out.extend(vec![k; count[n as usize]]);
        i += 2;
      }
      None => {
        out.push(k);
        i += 1;
      }
    }
  }
  out.truncate(MAX_INPUT - 1);
  give_values(rng, &out)
}

/// Which terminal each letter of the text of a grammar became.
pub fn dsl_kinds(text: &str, d: &Desc) -> BTreeMap<char, u32> {
  let mut out = BTreeMap::new();
  // Actions were given anew and rules shuffled, but not productions in a rule;
  // follow them from the start.
  let rules: BTreeMap<char, Vec<Vec<char>>> = text
    .split(';')
    .filter(|r| !r.trim().is_empty())
    .map(|r| {
      let (h, b) = r.split_once(':').expect("harness: dsl");
      (
        h.trim().chars().next().expect("harness: dsl head"),
        b.split('|')
          .map(|p| p.chars().filter(|c| !c.is_whitespace()).collect())
          .collect(),
      )
    })
    .collect();
  let mut names: BTreeMap<char, u32> = BTreeMap::new();
  names.insert('S', d.start);
  let mut todo = vec!['S'];
  while let Some(c) = todo.pop() {
    let r = d.rule(names[&c]).expect("harness: dsl rule");
    for (p, q) in r.prods.iter().zip(&rules[&c]) {
      for (e, x) in p.elems.iter().zip(q) {
        match e.s {
          S::T(t) => {
            out.insert(*x, t);
          }
          S::N(n) => {
            if names.insert(*x, n).is_none() {
              todo.push(*x);
            }
          }
        }
      }
    }
  }
  out
}

pub fn family(rng: &mut Rng, i: usize) -> Desc {
  let text = FAMILIES[i % FAMILIES.len()];
  // "S: S S ; S: ..." would give a head twice; keep the last.
  let text = if text.starts_with("S: S S ; S:") {
    "S: S S | a | b"
  } else {
    text
  };
  dsl(rng, text)
}

fn gen_gram(ctx: &mut Ctx) -> Desc {
  let (idx, seed) = (ctx.idx, ctx.seed);
  match ctx.stream {
    "family" => family(&mut ctx.rng, idx as usize),
    "exh1" => Tiny::new(1, 2, 3).get(idx % Tiny::new(1, 2, 3).total()),
    "exh2" => Tiny::new(2, 1, 2).scattered(idx, seed),
    "exh3" => Tiny::new(3, 1, 2).scattered(idx, seed),
    "deep" => {
      let rng = &mut ctx.rng;
      let i = *rng.pick(&[2usize, 3, 4, 5, 9, 11, 34, 36, 37, 30]);
      family(rng, i)
    }
    "long" => {
      let rng = &mut ctx.rng;
      let i = rng.below(LONG.len());
      dsl(rng, LONG[i])
    }
    "phases" => {
      let i = idx as usize % PHASES.len();
      dsl(&mut ctx.rng, PHASES[i].0)
    }
    "sizes" => {
      let rng = &mut ctx.rng;
      let cap = *rng.pick(&[30usize, 70, 140]);
      let most = if rng.chance(1, 2) { 0 } else { 40 };
      gen_sizes(rng, cap, most)
    }
    "chain" => {
      let rng = &mut ctx.rng;
      let len = rng.range(3, 40);
      let ne = rng.chance(1, 2);
      gen_chain(rng, len, ne)
    }
    s => {
      let rng = &mut ctx.rng;
      let sh = match s {
        "small" => Shape {
          len: (1, 4),
          ..Shape::SMALL
        },
        "nully" => Shape {
          nts: (2, 5),
          ts: (1, 2),
          len: (1, 3),
          ..Shape::NULLY
        },
        "medium" => Shape {
          nts: (3, 8),
          ts: (2, 4),
          prods: (1, 3),
          len: (1, 4),
          nt_pct: 45,
          ..Shape::MEDIUM
        },
        "big" => Shape {
          nts: (15, 50),
          ts: (5, 40),
          prods: (1, 4),
          len: (1, 5),
          nt_pct: 40,
          ..Shape::MEDIUM
        },
        _ => panic!("harness: unknown stream {}", s),
      };
      gen(rng, &sh)
    }
  }
}

// ------------------------------------------------------------ sentences

/// A random sentence of about the given length, if the start is productive.
pub fn sentence(rng: &mut Rng, d: &Desc, target: usize) -> Option<Vec<u32>> {
  let mh = d.min_height();
  mh.get(&d.start)?;
  let mut out = Vec::new();
  let mut todo = vec![S::N(d.start)];
  let mut fuel = target * 6 + 20;
  while let Some(s) = todo.pop() {
    match s {
      S::T(t) => out.push(t),
      S::N(n) => {
        let r = d.rule(n)?;
        let ok: Vec<&PD> =
          r.prods.iter().filter(|p| ph(p, &mh).is_some()).collect();
        let p = if fuel == 0 || out.len() + todo.len() > target {
          *ok.iter().min_by_key(|p| ph(p, &mh)).unwrap()
        } else {
          fuel -= 1;
          // Some preference for growing.
          let mut best = *rng.pick(&ok);
          for _ in 0..if target >= 100 { 12 } else { 1 } {
            let b = *rng.pick(&ok);
            if b.elems.len() > best.elems.len() {
              best = b;
            }
          }
          best
        };
        for e in p.elems.iter().rev() {
          todo.push(e.s);
        }
      }
    }
    if out.len() + todo.len() > 4000 {
      return None;
    }
  }
  Some(out)
}

fn ph(p: &PD, mh: &BTreeMap<u32, usize>) -> Option<usize> {
  let mut h = 0;
  for e in &p.elems {
    if let S::N(n) = e.s {
      h = h.max(*mh.get(&n)?);
    }
  }
  Some(h)
}

pub fn mutate(rng: &mut Rng, v: &mut Vec<u32>, alphabet: &[u32]) {
  for _ in 0..rng.range(1, 2) {
    match rng.below(5) {
      0 if !v.is_empty() => {
        let i = rng.below(v.len());
        v.remove(i);
      }
      1 if !v.is_empty() => {
        let i = rng.below(v.len());
        v[i] = *rng.pick(alphabet);
      }
      2 if v.len() > 1 => {
        let i = rng.below(v.len());
        let j = rng.below(v.len());
        v.swap(i, j);
      }
      3 if !v.is_empty() => {
        let n = rng.below(v.len());
        v.truncate(n);
      }
      _ => {
        let i = rng.range(0, v.len());
        v.insert(i, *rng.pick(alphabet));
      }
    }
  }
}

pub fn alphabet(d: &Desc) -> Vec<u32> {
  let mut a: Vec<u32> = d.terminals().into_iter().collect();
  if a.is_empty() {
    a.push(5);
  }
  a
}

pub fn give_values(rng: &mut Rng, kinds: &[u32]) -> Vec<Tok> {
  match rng.below(4) {
    // All alike.
    0 => kinds.iter().map(|k| (*k, 7)).collect(),
    // Few.
    1 => kinds.iter().map(|k| (*k, rng.below(3) as u32)).collect(),
    // In order or not.
    2 => {
      let v = labels(rng, kinds.len());
      kinds.iter().copied().zip(v).collect()
    }
    _ => kinds
      .iter()
      .enumerate()
      .map(|(i, k)| (*k, i as u32))
      .collect(),
  }
}

fn some_input(rng: &mut Rng, d: &Desc, target: usize) -> Vec<Tok> {
  let mut a = alphabet(d);
  let target = rng.range(0, target);
  let kinds = match rng.below(10) {
    0 | 1 => (0..target).map(|_| *rng.pick(&a)).collect(),
    n => match sentence(rng, d, target) {
      Some(mut s) => {
        if n < 5 {
          a.push(777_777);
          mutate(rng, &mut s, &a);
        }
        s
      }
      None => (0..target).map(|_| *rng.pick(&a)).collect(),
    },
  };
  give_values(rng, &kinds)
}

/// A sentence about as long as one byte can count.
fn long_input(rng: &mut Rng, d: &Desc) -> Vec<Tok> {
  for _ in 0..40 {
    let target = rng.range(120, 370);
    match sentence(rng, d, target) {
      Some(s) if s.len() >= 100 && s.len() < MAX_INPUT => return give_values(rng, &s),
      _ => {}
    }
  }
  Vec::new()
}

pub fn all_strings(a: &[u32], max: usize) -> Vec<Vec<u32>> {
  let mut out: Vec<Vec<u32>> = vec![vec![]];
  let mut last = out.clone();
  for _ in 0..max {
    let mut next = Vec::new();
    for s in &last {
      for c in a {
        let mut s = s.clone();
        s.push(*c);
        next.push(s);
      }
    }
    out.extend(next.iter().cloned());
    last = next;
  }
  out
}

pub fn tokens(toks: &[Tok]) -> Vec<Token<Tm, Vl>> {
  toks.iter().map(|(k, v)| Token::new(Tm(*k), Vl(*v))).collect()
}

fn show(toks: &[Tok]) -> String {
  toks
    .iter()
    .map(|(k, v)| format!("t{}/{}", k, v))
    .collect::<Vec<_>>()
    .join(" ")
}

// ------------------------------------------------------------ chart

/// A set of positions in the input.
#[derive(Clone, Copy, PartialEq, Eq)]
struct Bits([u64; 6]);

const MAX_INPUT: usize = 380;

impl Bits {
  const NONE: Bits = Bits([0; 6]);
  fn one(i: usize) -> Bits {
    let mut b = Bits::NONE;
    b.0[i / 64] |= 1 << (i % 64);
    b
  }
  fn has(&self, i: usize) -> bool {
    self.0[i / 64] >> (i % 64) & 1 == 1
  }
  fn add(&mut self, o: &Bits) {
    for i in 0..6 {
      self.0[i] |= o.0[i];
    }
  }
  fn keep(&mut self, o: &Bits) {
    for i in 0..6 {
      self.0[i] &= o.0[i];
    }
  }
  fn meets(&self, o: &Bits) -> bool {
    (0..6).any(|i| self.0[i] & o.0[i] != 0)
  }
  fn each(&self, mut f: impl FnMut(usize)) {
    for (w, x) in self.0.iter().enumerate() {
      let mut x = *x;
      while x != 0 {
        f(w * 64 + x.trailing_zeros() as usize);
        x &= x - 1;
      }
    }
  }
}

/// Which nonterminal derives which part of the input.
pub struct Chart<'d> {
  d: &'d Desc,
  toks: Vec<Tok>,
  /// From each position, the positions where a derived part can end.
  span: BTreeMap<u32, Vec<Bits>>,
}

impl<'d> Chart<'d> {
  pub fn new(d: &'d Desc, toks: &[Tok]) -> Self {
    let n = toks.len();
    assert!(n <= MAX_INPUT, "harness: too long an input");
    let mut c = Chart {
      d,
      toks: toks.to_vec(),
      span: d
        .heads()
        .into_iter()
        .map(|h| (h, vec![Bits::NONE; n + 1]))
        .collect(),
    };
    // What begins at a position depends on what begins there or later.
    for i in (0..=n).rev() {
      loop {
        let mut changed = false;
        for (h, p) in d.prods() {
          let mut at = Bits::one(i);
          for e in &p.elems {
            at = c.step(e.s, &at);
            if at == Bits::NONE {
              break;
            }
          }
          let row = &mut c.span.get_mut(&h).unwrap()[i];
          let before = *row;
          row.add(&at);
          changed |= *row != before;
        }
        if !changed {
          break;
        }
      }
    }
    c
  }
  fn step(&self, s: S, at: &Bits) -> Bits {
    let mut out = Bits::NONE;
    at.each(|i| out.add(&self.ends(s, i)));
    out
  }
  fn ends(&self, s: S, i: usize) -> Bits {
    match s {
      S::T(t) => {
        if i < self.toks.len() && self.toks[i].0 == t {
          Bits::one(i + 1)
        } else {
          Bits::NONE
        }
      }
      S::N(n) => self.span[&n][i],
    }
  }
  pub fn accepts(&self) -> bool {
    self.span[&self.d.start][0].has(self.toks.len())
  }
  /// In how many ways the beginnings of long productions can be matched: the
  /// parser makes something for each.
  fn beginnings(&self) -> u64 {
    let n = self.toks.len();
    let mut total = 0u64;
    for (_, p) in self.d.prods().filter(|(_, p)| p.elems.len() > 6) {
      for i in 0..=n {
        let mut ways = vec![0u64; n + 1];
        ways[i] = 1;
        for e in &p.elems {
          let mut next = vec![0u64; n + 1];
          for k in i..=n {
            if ways[k] > 0 {
              self.ends(e.s, k).each(|m| {
                next[m] = next[m].saturating_add(ways[k]);
              });
            }
          }
          total = next.iter().fold(total, |x, y| x.saturating_add(*y));
          ways = next;
        }
        if total > 1 << 40 {
          return total;
        }
      }
    }
    total
  }
  /// All ways to cut i..j among the elements; None if more than `cap`.
  fn splits(
    &self,
    p: &PD,
    i: usize,
    j: usize,
    cap: usize,
  ) -> Option<Vec<Vec<(S, usize, usize)>>> {
    // Where the rest can begin, for each rest.
    let n = p.elems.len();
    let mut rest = vec![Bits::NONE; n + 1];
    rest[n] = Bits::one(j);
    for e in (0..n).rev() {
      let mut ok = Bits::NONE;
      for k in i..=j {
        if self.ends(p.elems[e].s, k).meets(&rest[e + 1]) {
          ok.add(&Bits::one(k));
        }
      }
      rest[e] = ok;
      if ok == Bits::NONE {
        return Some(vec![]);
      }
    }
    let mut out = Vec::new();
    if rest[0].has(i) {
      self.cut(&p.elems, i, &rest[1..], &mut Vec::new(), &mut out, cap);
    }
    (out.len() <= cap).then_some(out)
  }
  fn cut(
    &self,
    es: &[ED],
    i: usize,
    rest: &[Bits],
    acc: &mut Vec<(S, usize, usize)>,
    out: &mut Vec<Vec<(S, usize, usize)>>,
    cap: usize,
  ) {
    if out.len() > cap {
      return;
    }
    let Some((e, es)) = es.split_first() else {
      out.push(acc.clone());
      return;
    };
    let mut ends = self.ends(e.s, i);
    ends.keep(&rest[0]);
    ends.each(|k| {
      acc.push((e.s, i, k));
      self.cut(es, k, &rest[1..], acc, out, cap);
      acc.pop();
    });
  }
}

type Item = (u32, usize, usize);

/// All derivations of the input: items reachable from the start, each with
/// its (action key, children).
pub struct Derivs {
  toks: Vec<Tok>,
  root: usize,
  items: Vec<Item>,
  alts: Vec<Vec<(u32, Vec<Child>)>>,
}

#[derive(Clone, Copy, Debug)]
enum Child {
  Leaf(usize),
  Item(usize),
}

impl Derivs {
  /// None if there are too many.
  pub fn new(c: &Chart, cap: usize) -> Option<Self> {
    if c.beginnings() > 20_000 {
      return None;
    }
    let mut ids: HashMap<Item, usize> = HashMap::new();
    let root: Item = (c.d.start, 0, c.toks.len());
    let mut items = vec![root];
    let mut alts = Vec::new();
    ids.insert(root, 0);
    let mut i = 0;
    let mut total = 0;
    while i < items.len() {
      let (n, a, b) = items[i];
      let mut mine = Vec::new();
      for p in &c.d.rule(n).unwrap().prods {
        for cut in c.splits(p, a, b, cap)? {
          let ch = cut
            .into_iter()
            .map(|(s, x, y)| match s {
              S::T(_) => Child::Leaf(x),
              S::N(m) => {
                let it = (m, x, y);
                let next = items.len();
                let id = *ids.entry(it).or_insert(next);
                if id == next {
                  items.push(it);
                }
                Child::Item(id)
              }
            })
            .collect::<Vec<_>>();
          total += 1 + ch.len();
          if total > cap {
            return None;
          }
          mine.push((p.ak, ch));
        }
      }
      alts.push(mine);
      i += 1;
    }
    Some(Derivs {
      toks: c.toks.clone(),
      root: 0,
      items,
      alts,
    })
  }
  /// The same shape as a forest read from the library.
  pub fn forest(&self) -> Forest {
    let mut f = Forest {
      root: self.root,
      nodes: vec![Vec::new(); self.items.len()],
      alts: Vec::new(),
    };
    let mut leaf: HashMap<usize, usize> = HashMap::new();
    for (i, alts) in self.alts.iter().enumerate() {
      for (ak, ch) in alts {
        let kids = ch
          .iter()
          .map(|c| match c {
            Child::Item(k) => *k,
            Child::Leaf(p) => *leaf.entry(*p).or_insert_with(|| {
              f.nodes.push(vec![f.alts.len()]);
              f.alts.push(AltC::Leaf(self.toks[*p].0, self.toks[*p].1));
              f.nodes.len() - 1
            }),
          })
          .collect();
        f.nodes[i].push(f.alts.len());
        f.alts.push(AltC::Branch(*ak, kids));
      }
    }
    f
  }
}

// ------------------------------------------------------------ forests

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum AltC {
  Leaf(u32, u32),
  Branch(u32, Vec<usize>),
}

/// A forest as plain data.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Forest {
  pub root: usize,
  pub nodes: Vec<Vec<usize>>,
  pub alts: Vec<AltC>,
}

impl Forest {
  /// Reads what is reachable from a node. None if there is too much.
  pub fn read(root: &N, cap: usize) -> Option<Forest> {
    Forest::read_as(root, cap, &|t: Tm| t.0, &|a: Ak| a.0, &|v: &Vl| v.0)
  }
  /// The same for other types, given the numbers of their values.
  pub fn read_as<T, K, V>(
    root: &Node<T, K, V>,
    cap: usize,
    kind: &dyn Fn(T) -> u32,
    action: &dyn Fn(K) -> u32,
    value: &dyn Fn(&V) -> u32,
  ) -> Option<Forest>
  where
    T: Ord + Clone,
    K: Ord + Clone,
    V: Ord,
  {
    let mut ids = BTreeMap::new();
    let mut aids = BTreeMap::new();
    let mut queue = vec![root.clone()];
    ids.insert(root.clone(), 0);
    let mut f = Forest {
      root: 0,
      nodes: Vec::new(),
      alts: Vec::new(),
    };
    let mut i = 0;
    while i < queue.len() {
      let n = queue[i].clone();
      i += 1;
      let mut mine = Vec::new();
      for a in n.alts() {
        let id = match aids.get(&a) {
          Some(id) => *id,
          None => {
            let c = match a.content() {
              NodeContent::Leaf(l) => {
                AltC::Leaf(kind(l.kind()), value(&l.value()))
              },
              NodeContent::Branch(b) => AltC::Branch(
                action(b.action()),
                b.nodes()
                  .map(|m| {
                    let next = queue.len();
                    *ids.entry(m.clone()).or_insert_with(|| {
                      queue.push(m);
                      next
                    })
                  })
                  .collect(),
              ),
            };
            let id = f.alts.len();
            f.alts.push(c);
            aids.insert(a, id);
            id
          }
        };
        mine.push(id);
      }
      f.nodes.push(mine);
      if queue.len() + f.alts.len() > cap {
        return None;
      }
    }
    Some(f)
  }

  /// Nodes some finite tree can be read from.
  fn productive(&self) -> Vec<bool> {
    let mut ok = vec![false; self.nodes.len()];
    loop {
      let mut changed = false;
      // Children mostly come later.
      for (i, alts) in self.nodes.iter().enumerate().rev() {
        if !ok[i] && alts.iter().any(|a| self.alt_ok(*a, &ok)) {
          ok[i] = true;
          changed = true;
        }
      }
      if !changed {
        return ok;
      }
    }
  }
  fn alt_ok(&self, a: usize, ok: &[bool]) -> bool {
    match &self.alts[a] {
      AltC::Leaf(..) => true,
      AltC::Branch(_, k) => k.iter().all(|n| ok[*n]),
    }
  }

  /// Drops alternatives no finite tree uses.
  pub fn trimmed(&self) -> Forest {
    let ok = self.productive();
    let mut f = self.clone();
    for alts in &mut f.nodes {
      alts.retain(|a| self.alt_ok(*a, &ok));
    }
    f
  }

  pub fn reachable(&self) -> Vec<usize> {
    let mut seen = vec![false; self.nodes.len()];
    let mut todo = vec![self.root];
    let mut out = Vec::new();
    seen[self.root] = true;
    while let Some(n) = todo.pop() {
      out.push(n);
      for a in &self.nodes[n] {
        if let AltC::Branch(_, k) = &self.alts[*a] {
          for m in k {
            if !seen[*m] {
              seen[*m] = true;
              todo.push(*m);
            }
          }
        }
      }
    }
    out
  }

  pub fn cyclic(&self) -> bool {
    // Peel off nodes all of whose children are done.
    let reach = self.reachable();
    let mut done = vec![true; self.nodes.len()];
    for n in &reach {
      done[*n] = false;
    }
    loop {
      let mut changed = false;
      for n in reach.iter().rev() {
        if !done[*n]
          && self.nodes[*n].iter().all(|a| match &self.alts[*a] {
            AltC::Leaf(..) => true,
            AltC::Branch(_, k) => k.iter().all(|m| done[*m]),
          })
        {
          done[*n] = true;
          changed = true;
        }
      }
      if !changed {
        return reach.iter().any(|n| !done[*n]);
      }
    }
  }

  /// How many trees of at most each height can be read from the root, for
  /// heights up to `max` or until the numbers get too large.
  pub fn counts(&self, max: usize) -> Vec<u128> {
    let mut cur: Vec<u128> = self.nodes.iter().map(|_| 0).collect();
    let mut out = Vec::new();
    // Leaves have height 0.
    for h in 0..=max {
      let next: Vec<u128> = self
        .nodes
        .iter()
        .map(|alts| {
          alts.iter().fold(0u128, |s, a| {
            s.saturating_add(match &self.alts[*a] {
              AltC::Leaf(..) => 1,
              AltC::Branch(..) if h == 0 => 0,
              AltC::Branch(_, k) => k
                .iter()
                .fold(1u128, |x, m| x.saturating_mul(cur[*m])),
            })
          })
        })
        .collect();
      out.push(next[self.root]);
      let big = next.iter().any(|x| *x > 1 << 100);
      let same = next == cur && h > 0;
      cur = next;
      if big || same {
        break;
      }
    }
    out
  }

  /// Hashes of all trees of at most the given height, as a sorted multiset.
  /// None if there are more than `cap` at some node.
  pub fn trees(&self, height: usize, cap: usize) -> Option<Vec<u64>> {
    let mut cur: Vec<Rc<Vec<u64>>> =
      self.nodes.iter().map(|_| Rc::new(Vec::new())).collect();
    for h in 0..=height {
      let mut next = Vec::new();
      for alts in &self.nodes {
        let mut v = Vec::new();
        for a in alts {
          match &self.alts[*a] {
            AltC::Leaf(k, w) => {
              v.push(hash_u64s([1, *k as u64, *w as u64]))
            }
            AltC::Branch(..) if h == 0 => {}
            AltC::Branch(ak, kids) => {
              let mut part: Vec<u64> = vec![hash_u64s([2, *ak as u64])];
              for m in kids {
                if part.len().saturating_mul(cur[*m].len()) > cap {
                  return None;
                }
                part = part
                  .iter()
                  .flat_map(|x| {
                    cur[*m].iter().map(move |y| join(*x, *y))
                  })
                  .collect();
              }
              let n = kids.len() as u64;
              v.extend(part.into_iter().map(|x| join(x, n)));
            }
          }
          if v.len() > cap {
            return None;
          }
        }
        v.sort();
        next.push(Rc::new(v));
      }
      let same = h > 0 && next == cur;
      cur = next;
      if same {
        break;
      }
    }
    Some((*cur[self.root]).clone())
  }

  /// In how many ways a tree can be read from a node.
  fn ways(
    &self,
    node: usize,
    t: &Tree,
    memo: &mut HashMap<(usize, *const Tree), u64>,
  ) -> u64 {
    let key = (node, t as *const Tree);
    if let Some(w) = memo.get(&key) {
      return *w;
    }
    let mut w = 0u64;
    for a in &self.nodes[node] {
      w = w.saturating_add(match (&self.alts[*a], t) {
        (AltC::Leaf(k, v), Tree::Leaf(k2, v2)) => (k == k2 && v == v2) as u64,
        (AltC::Branch(ak, kids), Tree::Branch(ak2, ch))
          if ak == ak2 && kids.len() == ch.len() =>
        {
          let mut p = 1u64;
          for (m, c) in kids.iter().zip(ch) {
            p = p.saturating_mul(self.ways(*m, c, memo));
            if p == 0 {
              break;
            }
          }
          p
        }
        _ => 0,
      });
    }
    memo.insert(key, w);
    w
  }

  /// A random tree of the forest, growing at most to about `fuel` branches.
  fn sample(&self, rng: &mut Rng, low: &[usize], fuel: &mut usize) -> Tree {
    self.sample_at(self.root, rng, low, fuel)
  }
  fn sample_at(
    &self,
    n: usize,
    rng: &mut Rng,
    low: &[usize],
    fuel: &mut usize,
  ) -> Tree {
    let a = if *fuel == 0 {
      *self.nodes[n].iter().min_by_key(|a| self.alt_low(**a, low)).unwrap()
    } else {
      *fuel -= 1;
      *rng.pick(&self.nodes[n])
    };
    match &self.alts[a] {
      AltC::Leaf(k, v) => Tree::Leaf(*k, *v),
      AltC::Branch(ak, kids) => Tree::Branch(
        *ak,
        kids
          .iter()
          .map(|m| self.sample_at(*m, rng, low, fuel))
          .collect(),
      ),
    }
  }
  fn alt_low(&self, a: usize, low: &[usize]) -> usize {
    match &self.alts[a] {
      AltC::Leaf(..) => 0,
      AltC::Branch(_, k) => {
        k.iter().map(|m| low[*m]).max().unwrap_or(0).saturating_add(1)
      }
    }
  }
  /// The least height of a tree at each node.
  fn low(&self) -> Vec<usize> {
    let mut low = vec![usize::MAX; self.nodes.len()];
    loop {
      let mut changed = false;
      for (i, alts) in self.nodes.iter().enumerate().rev() {
        for a in alts {
          let h = self.alt_low(*a, &low);
          if h < low[i] {
            low[i] = h;
            changed = true;
          }
        }
      }
      if !changed {
        return low;
      }
    }
  }
}

/// An asymmetric hash of two.
fn join(x: u64, y: u64) -> u64 {
  mix(mix(x ^ 0x517c_c1b7_2722_0a95)
    .wrapping_mul(0x2545_f491_4f6c_dd1d)
    .wrapping_add(mix(y)))
}

#[derive(Debug, Clone)]
enum Tree {
  Leaf(u32, u32),
  Branch(u32, Vec<Tree>),
}

impl Tree {
  fn show(&self) -> String {
    match self {
      Tree::Leaf(k, v) => format!("t{}/{}", k, v),
      Tree::Branch(a, c) => format!(
        "k{}({})",
        a,
        c.iter().map(|t| t.show()).collect::<Vec<_>>().join(" ")
      ),
    }
  }
}

/// What is wrong with some finite tree of the forest, if anything.
/// Must be given a trimmed forest.
pub fn unsound(d: &Desc, toks: &[Tok], f: &Forest) -> Result<u64, String> {
  if f.nodes[f.root].is_empty() {
    // No finite tree at all.
    return Ok(0);
  }
  // All trees at a node must have the same number of leaves, as otherwise two
  // trees at the root differ in theirs.
  let low = f.low();
  let mut len = vec![u64::MAX; f.nodes.len()];
  let reach = f.reachable();
  let mut order = reach.clone();
  order.sort_by_key(|n| low[*n]);
  let alt_len = |a: usize, len: &[u64]| match &f.alts[a] {
    AltC::Leaf(..) => 1,
    AltC::Branch(_, k) => {
      k.iter().fold(0u64, |s, m| s.saturating_add(len[*m]))
    }
  };
  for n in &order {
    let a = *f.nodes[*n]
      .iter()
      .min_by_key(|a| f.alt_low(**a, &low))
      .unwrap();
    len[*n] = alt_len(a, &len);
  }
  for n in &order {
    for a in &f.nodes[*n] {
      ensure!(
        alt_len(*a, &len) == len[*n],
        "trees with {} and with {} leaves at one node, so not all trees yield the {} tokens",
        len[*n],
        alt_len(*a, &len),
        toks.len()
      );
    }
  }
  ensure!(
    len[f.root] == toks.len() as u64,
    "the trees have {} leaves, the input has {} tokens",
    len[f.root],
    toks.len()
  );
  let mut seen: BTreeSet<(usize, S, usize)> = BTreeSet::new();
  let mut todo = vec![(f.root, S::N(d.start), 0usize)];
  let mut checked = 0;
  while let Some((n, s, at)) = todo.pop() {
    if !seen.insert((n, s, at)) {
      continue;
    }
    for a in &f.nodes[n] {
      checked += 1;
      match (&f.alts[*a], s) {
        (AltC::Leaf(k, v), S::T(t)) => {
          ensure!(*k == t, "a leaf t{} where t{} is expected", k, t);
          ensure!(
            at < toks.len() && toks[at] == (*k, *v),
            "a leaf t{}/{} at token {} of {}",
            k,
            v,
            at,
            show(toks)
          );
        }
        (AltC::Branch(ak, kids), S::N(nt)) => {
          let Some(p) = d
            .rule(nt)
            .and_then(|r| r.prods.iter().find(|p| p.ak == *ak))
          else {
            return Err(format!(
              "a branch k{} where a production of n{} is expected",
              ak, nt
            ));
          };
          ensure!(
            p.elems.len() == kids.len(),
            "a branch k{} of n{} with {} children instead of {}",
            ak,
            nt,
            kids.len(),
            p.elems.len()
          );
          let mut pos = at;
          for (m, e) in kids.iter().zip(&p.elems) {
            todo.push((*m, e.s, pos));
            pos += len[*m] as usize;
          }
        }
        (AltC::Leaf(k, _), S::N(nt)) => {
          return Err(format!("a leaf t{} where n{} is expected", k, nt))
        }
        (AltC::Branch(ak, _), S::T(t)) => {
          return Err(format!("a branch k{} where t{} is expected", ak, t))
        }
      }
    }
  }
  Ok(checked)
}

pub const READ_CAP: usize = 300_000;

// ------------------------------------------------------------------- E01

pub const E01: Prop = Prop {
  id: "E01",
  streams: &[
    st("exh1", 300, 1200),
    st("exh2", 1500, 20_000),
    st("exh3", 1500, 60_000),
    st("family", 400, 8000),
    st("small", 2500, 60_000),
    st("nully", 2500, 60_000),
    st("medium", 1500, 40_000),
    st("chain", 150, 2000),
    st("deep", 80, 1200),
    st("long", 20, 300),
    st("big", 100, 3000),
    st("phases", 32, 400),
    st("sizes", 30, 600),
    st("huge", 1, 20),
    st("lengths", 40, 1500),
  ],
  run: e01,
  rule: "exhaustive tiny grammars with all short strings, classic and random grammars with sentences, mutated sentences and random strings; acceptance compared with a span-closure recogniser; non-trivial: at least one token and some nonterminal in a production; distinct by grammar and token kinds",
};

fn e01_one(ctx: &mut Ctx, d: &Desc, sg: &SG, toks: &[Tok]) -> R {
  let c = Chart::new(d, toks);
  let want = c.accepts();
  if Derivs::new(&c, 5000).is_none() {
    ctx.count("too_many_derivations", 1);
    return Ok(());
  }
  let owner = Owner::new();
  let got = guard(|| parse(sg, &owner.handle(), tokens(toks)).is_some());
  match got {
    Err(m) => Err(format!("parsing {} panics: {}", show(toks), m)),
    Ok(got) => {
      ensure!(
        got == want,
        "{} is {}in the language, but parsing {} a tree",
        show(toks),
        if want { "" } else { "not " },
        if got { "returns" } else { "does not return" }
      );
      ctx.count(if want { "accepted" } else { "rejected" }, 1);
      ctx.count("tokens", toks.len() as u64);
      ctx.hi("longest_input", toks.len() as u64);
      if !toks.is_empty() && structured(d) {
        ctx.nontrivial(hash_u64s(
          [d.sig()].into_iter().chain(toks.iter().map(|t| t.0 as u64)),
        ));
      }
      Ok(())
    }
  }
}

/// More tokens than two bytes can count: first many of one kind, then some of
/// another. Returns the grammar, the tokens, and whether they are a sentence.
fn huge(rng: &mut Rng) -> (Desc, Vec<Tok>, bool) {
  let text = *rng.pick(&[
    PHASES[0].0,
    PHASES[7].0,
    "S: A m B ; A: A a | ; B: B b |",
    "S: A m B ; A: A a | ; B: B b |",
  ]);
  let d = dsl(rng, text);
  let kinds = dsl_kinds(text, &d);
  let (a, b) = (kinds[&'a'], kinds[&'b']);
  let x = rng.range(65_530, 65_800);
  let y = rng.range(1, 30);
  let mut v = vec![a; x];
  v.extend(kinds.get(&'m'));
  v.extend(vec![b; y]);
  let good = rng.chance(2, 3);
  if !good {
    v.push(a);
  }
  let toks = give_values(rng, &v);
  (d, toks, good)
}

fn e01(ctx: &mut Ctx) -> R {
  if ctx.stream == "lengths" {
    return crate::m_regular::accepts_long(ctx);
  }
  if ctx.stream == "huge" {
    let (d, toks, want) = huge(&mut ctx.rng);
    ctx.note(d.text());
    ctx.note(format!("{} tokens", toks.len()));
    let Ok(sg) = wrapped(&d) else {
      ctx.count("skipped", 1);
      return Ok(());
    };
    let owner = Owner::new();
    let got = guard(|| parse(&sg, &owner.handle(), tokens(&toks)).is_some())
      .map_err(|m| format!("parsing panics: {}", m))?;
    ensure!(
      got == want,
      "{} tokens are {}in the language, but parsing {} a tree",
      toks.len(),
      if want { "" } else { "not " },
      if got { "returns" } else { "does not return" }
    );
    ctx.hi("longest_input", toks.len() as u64);
    ctx.nontrivial(hash_u64s([d.sig(), toks.len() as u64]));
    return Ok(());
  }
  let d = gen_gram(ctx);
  ctx.note(d.text());
  let Ok(sg) = wrapped(&d) else {
    ctx.count("skipped", 1);
    return Ok(());
  };
  if ctx.stream.starts_with("exh") {
    let a = alphabet(&d);
    let max = if a.len() > 1 { 4 } else { 5 };
    for s in all_strings(&a, max) {
      let toks = give_values(&mut ctx.rng, &s);
      ctx.note(show(&toks));
      e01_one(ctx, &d, &sg, &toks)?;
    }
    return Ok(());
  }
  let (k, len) = match ctx.stream {
    "deep" => (2, 60),
    "long" | "phases" => (1, 0),
    "sizes" => (2, 10),
    "medium" | "big" => (4, 14),
    "chain" => (4, 40),
    _ => (5, 9),
  };
  for _ in 0..k {
    let toks = if ctx.stream == "long" || ctx.stream == "phases" {
      let mut v = if ctx.stream == "long" {
        long_input(&mut ctx.rng, &d)
      } else {
        phase_input(&mut ctx.rng, &d, ctx.idx)
      };
      if ctx.rng.chance(1, 3) {
        let a = alphabet(&d);
        let mut s: Vec<u32> = v.iter().map(|t| t.0).collect();
        mutate(&mut ctx.rng, &mut s, &a);
        v = give_values(&mut ctx.rng, &s);
      }
      v
    } else {
      some_input(&mut ctx.rng, &d, len)
    };
    let most = match ctx.stream {
      "long" | "phases" | "sizes" => MAX_INPUT - 1,
      "deep" => 100,
      _ => 24,
    };
    if toks.len() > most {
      ctx.count("too_long", 1);
      continue;
    }
    ctx.note(format!("tokens {}", show(&toks)));
    e01_one(ctx, &d, &sg, &toks)?;
  }
  Ok(())
}

// ------------------------------------------------------------------- E02

pub const E02: Prop = Prop {
  id: "E02",
  streams: &[
    st("exh1", 300, 1200),
    st("exh2", 1500, 20_000),
    st("exh3", 1500, 60_000),
    st("family", 800, 12_000),
    st("small", 3000, 60_000),
    st("nully", 2500, 60_000),
    st("medium", 1500, 40_000),
    st("deep", 60, 1000),
    st("long", 20, 300),
    st("big", 100, 3000),
    st("phases", 32, 400),
    st("sizes", 30, 600),
    st("huge", 1, 20),
    st("lengths", 30, 1200),
  ],
  run: e02,
  rule: "accepted inputs of tiny, classic and random grammars; the whole forest is read as a graph and every finite tree of it checked at once (unique yield length per node, typed spans); non-trivial: at least two tokens and a branch with a child; distinct by grammar and tokens",
};

/// Whether the input is too ambiguous to be worth its time.
fn too_many(d: &Desc, toks: &[Tok]) -> bool {
  Derivs::new(&Chart::new(d, toks), 5000).is_none()
}

/// An accepted input and its forest; None if there is nothing to look at.
fn with_forest(
  ctx: &mut Ctx,
  d: &Desc,
  sg: &SG,
  toks: &[Tok],
) -> Option<Forest> {
  if too_many(d, toks) {
    ctx.count("too_many_derivations", 1);
    return None;
  }
  let owner = Owner::new();
  match guard(|| {
    parse(sg, &owner.handle(), tokens(toks))
      .map(|n| Forest::read(&n, READ_CAP))
  }) {
    Ok(Some(Some(f))) => Some(f),
    Ok(Some(None)) => {
      ctx.count("too_large", 1);
      None
    }
    _ => {
      ctx.count("not_parsed", 1);
      None
    }
  }
}

fn e_inputs(ctx: &mut Ctx, d: &Desc) -> Vec<Vec<Tok>> {
  if ctx.stream.starts_with("exh") {
    let a = alphabet(d);
    let max = if a.len() > 1 { 3 } else { 4 };
    return all_strings(&a, max)
      .iter()
      .map(|s| give_values(&mut ctx.rng, s))
      .collect();
  }
  if ctx.stream == "long" {
    let v = long_input(&mut ctx.rng, d);
    return if v.len() < MAX_INPUT { vec![v] } else { vec![] };
  }
  if ctx.stream == "phases" {
    let idx = ctx.idx;
    return vec![phase_input(&mut ctx.rng, d, idx)];
  }
  let (k, len) = match ctx.stream {
    "deep" => (2, 60),
    "sizes" => (2, 10),
    "medium" | "big" => (4, 12),
    _ => (4, 8),
  };
  let mut v = Vec::new();
  for _ in 0..k {
    let rng = &mut ctx.rng;
    let target = rng.range(0, len);
    if let Some(s) = sentence(rng, d, target) {
      let most = match ctx.stream {
        "sizes" => MAX_INPUT - 1,
        "deep" => 100,
        _ => 14,
      };
      if s.len() <= most {
        v.push(give_values(rng, &s));
      }
    }
  }
  v
}

fn e02(ctx: &mut Ctx) -> R {
  if ctx.stream == "lengths" {
    return crate::m_regular::sound_long(ctx);
  }
  if ctx.stream == "huge" {
    let (d, toks, want) = huge(&mut ctx.rng);
    ctx.note(d.text());
    ctx.note(format!("{} tokens", toks.len()));
    let Ok(sg) = wrapped(&d) else {
      ctx.count("skipped", 1);
      return Ok(());
    };
    let owner = Owner::new();
    let read = guard(|| {
      parse(&sg, &owner.handle(), tokens(&toks))
        .map(|n| Forest::read(&n, 4 * READ_CAP))
    });
    if let (Ok(Some(Some(f))), true) = (read, want) {
      // Do not print all of that.
      let n = unsound(&d, &toks, &f.trimmed())
        .map_err(|e| e.chars().take(200).collect::<String>())?;
      ctx.count("typed_spans_checked", n);
      ctx.hi("largest_forest", (f.nodes.len() + f.alts.len()) as u64);
      ctx.nontrivial(hash_u64s([d.sig(), toks.len() as u64]));
    }
    return Ok(());
  }
  let d = gen_gram(ctx);
  ctx.note(d.text());
  let Ok(sg) = wrapped(&d) else {
    ctx.count("skipped", 1);
    return Ok(());
  };
  for toks in e_inputs(ctx, &d) {
    ctx.note(format!("tokens {}", show(&toks)));
    let Some(f) = with_forest(ctx, &d, &sg, &toks) else {
      continue;
    };
    let t = f.trimmed();
    let n = unsound(&d, &toks, &t)?;
    ctx.count("forests", 1);
    ctx.count("typed_spans_checked", n);
    ctx.hi("largest_forest", (f.nodes.len() + f.alts.len()) as u64);
    if t.cyclic() {
      ctx.count("cyclic_forests", 1);
    }
    if toks.len() >= 2 && structured(&d) {
      ctx.nontrivial(hash_u64s(
        [d.sig()].into_iter().chain(toks.iter().map(|t| t.0 as u64)),
      ));
    }
  }
  Ok(())
}

// ------------------------------------------------------------------- E03

pub const E03: Prop = Prop {
  id: "E03",
  streams: &[
    st("exh1", 300, 1200),
    st("exh2", 1500, 20_000),
    st("exh3", 1500, 60_000),
    st("family", 800, 12_000),
    st("small", 2500, 60_000),
    st("nully", 2000, 60_000),
    st("medium", 1500, 40_000),
    st("deep", 50, 800),
    st("long", 20, 300),
    st("big", 100, 3000),
    st("phases", 32, 400),
    st("sizes", 30, 600),
    st("lengths", 30, 1200),
  ],
  run: e03,
  rule: "inputs in the language of tiny, classic and random grammars; trees of the forest counted by height against all derivations found by a chart, exact multisets where small, sampled derivations read back; non-trivial: more than one derivation, or at least two tokens; distinct by grammar and tokens",
};

fn e03_one(ctx: &mut Ctx, d: &Desc, sg: &SG, toks: &[Tok]) -> R {
  let c = Chart::new(d, toks);
  if !c.accepts() {
    ctx.count("not_in_language", 1);
    return Ok(());
  }
  let Some(all) = Derivs::new(&c, 5000) else {
    ctx.count("too_many_derivations", 1);
    return Ok(());
  };
  let want = all.forest();
  let owner = Owner::new();
  let read = match guard(|| {
    parse(sg, &owner.handle(), tokens(toks))
      .map(|n| Forest::read(&n, READ_CAP))
  }) {
    Err(m) => return Err(format!("parsing panics: {}", m)),
    Ok(None) => {
      return Err("no tree, so no derivation can be read from it".into())
    }
    Ok(Some(None)) => {
      ctx.count("too_large", 1);
      return Ok(());
    }
    Ok(Some(Some(f))) => f,
  };
  let f = read.trimmed();
  let sound = unsound(d, toks, &f).is_ok();
  let inf = want.cyclic();
  // Without cycles, count all of them.
  let top = if inf { 14 } else { 400 };
  let cw = want.counts(top);
  let cf = f.counts(top);
  let at = |v: &Vec<u128>, h: usize| *v.get(h).unwrap_or(v.last().unwrap());
  // One may have stopped early only because its numbers got large.
  let upto = if cw.iter().chain(&cf).any(|x| *x > 1 << 100) {
    cw.len().min(cf.len())
  } else {
    cw.len().max(cf.len())
  };
  for h in 0..upto {
    let (w, g) = (at(&cw, h), at(&cf, h));
    ensure!(
      g >= w,
      "{} derivations of height up to {}, but only {} trees",
      w,
      h,
      g
    );
    ensure!(
      g == w || !sound,
      "{} derivations of height up to {}, but {} trees: some are there twice",
      w,
      h,
      g
    );
    ctx.count("counts_compared", 1);
  }
  let total = *cw.last().unwrap();
  ctx.hi(
    "most_derivations_of_a_height",
    total.min(u64::MAX as u128) as u64,
  );
  // Exact sets where they are small.
  let mut h = 0;
  let mut exact = None;
  while h < 10 {
    match want.trees(h, 2000) {
      Some(t) => {
        let done = exact.as_ref().map_or(false, |(_, e)| *e == t) && h > 5;
        exact = Some((h, t));
        if done {
          break;
        }
      }
      None => break,
    }
    h += 1;
  }
  if let Some((h, w)) = exact {
    if let Some(g) = f.trees(h, 8000) {
      // Each derivation once; other trees are for E02 to judge.
      let mut j = 0;
      for (i, x) in w.iter().enumerate() {
        while j < g.len() && g[j] < *x {
          j += 1;
        }
        ensure!(
          j < g.len() && g[j] == *x,
          "derivation {} of {} of height up to {} is not in the forest",
          i,
          w.len(),
          h
        );
        ensure!(
          j + 1 >= g.len() || g[j + 1] != *x,
          "a derivation of height up to {} is in the forest twice",
          h
        );
      }
      ctx.count("derivations_compared_exactly", w.len() as u64);
    }
  }
  // Sampled derivations.
  let low = want.low();
  for _ in 0..6 {
    let mut fuel = ctx.rng.range(0, 30);
    let t = want.sample(&mut ctx.rng, &low, &mut fuel);
    let w = f.ways(f.root, &t, &mut HashMap::new());
    ensure!(
      w == 1,
      "the derivation {} can be read in {} ways",
      t.show(),
      w
    );
    ctx.count("derivations_read_back", 1);
  }
  if inf {
    ctx.count("infinitely_ambiguous", 1);
    ensure!(f.cyclic(), "infinitely many derivations but no cycle");
  } else if want.reachable().iter().all(|n| want.nodes[*n].len() == 1) {
    ctx.count("unambiguous", 1);
    for n in read.reachable() {
      ensure!(
        read.nodes[n].len() == 1,
        "the only derivation, but a node has {} alternatives",
        read.nodes[n].len()
      );
    }
  } else {
    ctx.count("finitely_ambiguous", 1);
  }
  if structured(d) && (toks.len() >= 2 || total > 1) {
    ctx.nontrivial(hash_u64s(
      [d.sig()].into_iter().chain(toks.iter().map(|t| t.0 as u64)),
    ));
  }
  Ok(())
}

fn e03(ctx: &mut Ctx) -> R {
  if ctx.stream == "lengths" {
    return crate::m_regular::complete_long(ctx);
  }
  let d = gen_gram(ctx);
  ctx.note(d.text());
  let Ok(sg) = wrapped(&d) else {
    ctx.count("skipped", 1);
    return Ok(());
  };
  for toks in e_inputs(ctx, &d) {
    ctx.note(format!("tokens {}", show(&toks)));
    e03_one(ctx, &d, &sg, &toks)?;
  }
  Ok(())
}

// ------------------------------------------------------------------- E04

pub const E04: Prop = Prop {
  id: "E04",
  streams: &[
    st("family", 1200, 20_000),
    st("small", 2500, 60_000),
    st("nully", 1500, 40_000),
    st("medium", 800, 20_000),
    st("lengths", 20, 800),
  ],
  run: e04,
  rule: "several inputs parsed in one store, in between hand-made nodes and repeated parses, each compared (as a multiset of bounded trees and as a forest) with a parse in a new store, and all earlier ones looked at again after each; non-trivial: at least two parses with a tree in one store; distinct by grammar and tokens",
};

/// What a forest says: the trees up to some height, exactly if few.
pub fn meaning(f: &Forest, h: usize) -> (Vec<u128>, Option<Vec<u64>>) {
  let f = f.trimmed();
  let mut c = f.counts(9);
  // Where it stopped depends on numbers at other nodes.
  let last = *c.last().unwrap();
  if c.iter().all(|x| *x < 1 << 60) {
    while c.len() < 10 {
      c.push(last);
    }
  } else {
    c.truncate(4);
  }
  let mut t = f.trees(h, 1500);
  if let Some(t) = &mut t {
    t.dedup();
  }
  (c, t)
}

fn e04(ctx: &mut Ctx) -> R {
  if ctx.stream == "lengths" {
    return crate::m_regular::shared_long(ctx);
  }
  let mut ds = vec![gen_gram(ctx)];
  if ctx.rng.chance(1, 4) {
    // Another grammar over the same labels.
    ds.push(gen(&mut ctx.rng, &Shape::SMALL));
  }
  let mut gs = Vec::new();
  for d in &ds {
    ctx.note(d.text());
    let Ok(sg) = wrapped(d) else {
      ctx.count("skipped", 1);
      return Ok(());
    };
    gs.push(sg);
  }
  let owner = Owner::new();
  let h = owner.handle();
  let mut inputs: Vec<(usize, Vec<Tok>)> = Vec::new();
  for _ in 0..ctx.rng.range(2, 4) {
    let g = ctx.rng.below(ds.len());
    let rng = &mut ctx.rng;
    let toks = match rng.below(6) {
      0 if !inputs.is_empty() => inputs[rng.below(inputs.len())].1.clone(),
      1 if !inputs.is_empty() => {
        let mut v = inputs[rng.below(inputs.len())].1.clone();
        let n = rng.range(0, v.len());
        v.truncate(n);
        v
      }
      2 => some_input(rng, &ds[g], 5),
      _ => {
        let target = rng.range(0, 6);
        match sentence(rng, &ds[g], target) {
          Some(s) => give_values(rng, &s),
          None => continue,
        }
      }
    };
    if toks.len() <= 9 && !too_many(&ds[g], &toks) {
      inputs.push((g, toks));
    }
  }
  if inputs.is_empty() {
    return Ok(());
  }
  // Repeat some.
  let r = inputs[ctx.rng.below(inputs.len())].clone();
  inputs.push(r);
  let mut earlier: Vec<(usize, N, (Vec<u128>, Option<Vec<u64>>))> =
    Vec::new();
  let height = 6;
  let mut trees = 0;
  let mut sig = vec![ds[0].sig()];
  for (round, (g, toks)) in inputs.iter().enumerate() {
    ctx.note(format!("grammar {} tokens {}", g, show(toks)));
    // Hand-made things, alike to what a parse makes.
    if ctx.rng.chance(1, 2) {
      let rng = &mut ctx.rng;
      let made = guard(|| {
        let mut ns: Vec<N> = toks
          .iter()
          .map(|(k, v)| h.make_leaf_node(Tm(*k), Vl(*v)))
          .collect();
        ns.push(h.make_node());
        for _ in 0..rng.range(0, 3) {
          let p = rng.pick(&ds[*g].rules).prods.clone();
          let p = rng.pick(&p).clone();
          let kids: Vec<N> =
            p.elems.iter().map(|_| rng.pick(&ns).clone()).collect();
          let n = h.make_branch_node(Ak(p.ak), kids);
          let m = rng.pick(&ns).clone();
          if rng.chance(1, 3) {
            n.add_all(&m);
          }
          ns.push(n);
        }
      });
      if made.is_err() {
        ctx.count("skipped", 1);
        return Ok(());
      }
      ctx.count("hand_made", 1);
    }
    let fresh = {
      let owner = Owner::new();
      match guard(|| {
        parse(&gs[*g], &owner.handle(), tokens(toks))
          .map(|n| Forest::read(&n, READ_CAP))
      }) {
        Ok(None) => None,
        Ok(Some(Some(f))) => Some(meaning(&f, height)),
        _ => {
          ctx.count("skipped", 1);
          return Ok(());
        }
      }
    };
    let shared = match guard(|| parse(&gs[*g], &h, tokens(toks))) {
      Ok(n) => n,
      Err(m) => {
        return Err(format!(
          "parse {} panics in a store with others but not in a new one: {}",
          round, m
        ))
      }
    };
    match (&fresh, &shared) {
      (None, None) => {}
      (Some(_), None) | (None, Some(_)) => {
        return Err(format!(
          "parse {} returns {}, but {} in a store of its own",
          round,
          if shared.is_some() { "a tree" } else { "none" },
          if fresh.is_some() { "a tree" } else { "none" }
        ))
      }
      (Some(want), Some(n)) => {
        let Some(f) = Forest::read(n, READ_CAP) else {
          return Err(format!(
            "parse {} returns much more than in a store of its own",
            round
          ));
        };
        let got = meaning(&f, height);
        ensure!(
          got == *want,
          "parse {} differs from the same in a store of its own: trees by height {:?} instead of {:?}",
          round,
          got.0,
          want.0
        );
        trees += 1;
        ctx.count("parses_compared", 1);
        earlier.push((round, n.clone(), got));
      }
    }
    for (r, n, m) in &earlier {
      let f = Forest::read(n, READ_CAP * 2);
      let now = f.map(|f| meaning(&f, height));
      ensure!(
        now.as_ref() == Some(m),
        "the result of parse {} was changed by parse {}: trees by height {:?} instead of {:?}",
        r,
        round,
        now.map(|n| n.0),
        m.0
      );
      ctx.count("results_looked_at_again", 1);
    }
    sig.extend(toks.iter().map(|t| t.0 as u64));
    sig.push(1 << 50);
  }
  if trees >= 2 {
    ctx.nontrivial(hash_u64s(sig));
  }
  Ok(())
}
