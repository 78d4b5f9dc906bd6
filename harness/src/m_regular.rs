//! Long inputs of grammars that a finite automaton decides.

use crate::core::*;
use crate::desc::*;
use crate::m_earley::*;
use crate::sy::*;
use bongo::parsers::earley::parse;
use std::collections::BTreeMap;

/// Unambiguous left-recursive grammars, and automata: steps as state, letter,
/// state, and the accepting states. All states lead to an accepting one.
const REGULAR: [(&str, &str); 14] = [
  ("S: A B ; A: A a | a ; B: B b | b", "0a1 1a1 1b2 2b2|2"),
  ("S: A m B ; A: A a | ; B: B b |", "0a0 0m1 1b1|1"),
  ("S: L m T ; L: L a | ; T: b c d", "0a0 0m1 1b2 2c3 3d4|4"),
  ("S: L ; L: L I | ; I: m b c | a", "0a0 0m1 1b2 2c0|0"),
  ("S: L E ; L: L a | ; E: F | ; F: G ; G: b", "0a0 0b1|0 1"),
  (
    "S: P x Q ; P: P I | ; Q: Q J | ; I: a | b ; J: c d",
    "0a0 0b0 0x1 1c2 2d1|1",
  ),
  ("S: S A t | ; A: A a | a", "0a1 1a1 1t0|0"),
  ("S: S U e | ; U: U V | u ; V: v w", "0u1 1v2 2w1 1e0|0"),
  (
    "S: L M N ; L: L a | a ; M: M m | m ; N: N n | n",
    "0a1 1a1 1m2 2m2 2n3 3n3|3",
  ),
  ("S: A x B x C ; A: A a | ; B: B a | ; C: C a |", "0a0 0x1 1a1 1x2 2a2|2"),
  ("S: S X | S Y | ; X: x Z y ; Y: x Z z ; Z: Z a |", "0x1 1a1 1y0 1z0|0"),
  ("S: B | C ; B: L b ; C: M c ; L: L a | ; M: M a |", "0a0 0b1 0c1|1"),
  ("S: E L F m G ; E: ; F: ; G: g | ; L: L a | a", "0a1 1a1 1m2 2g3|2 3"),
  ("S: ( S ) | x", ""),
];

struct Dfa {
  step: BTreeMap<(u32, char), u32>,
  accepting: Vec<u32>,
}

fn dfa(text: &str) -> Dfa {
  let (steps, acc) = text.split_once('|').expect("harness: automaton");
  let num = |c: char| c.to_digit(10).expect("harness: state");
  Dfa {
    step: steps
      .split_whitespace()
      .map(|w| {
        let c: Vec<char> = w.chars().collect();
        ((num(c[0]), c[1]), num(c[2]))
      })
      .collect(),
    accepting: acc.split_whitespace().map(|w| num(w.chars().next().unwrap())).collect(),
  }
}

impl Dfa {
  fn accepts(&self, w: &[char]) -> bool {
    let mut s = 0;
    for c in w {
      match self.step.get(&(s, *c)) {
        Some(t) => s = *t,
        None => return false,
      }
    }
    self.accepting.contains(&s)
  }
  /// A walk of about `n` steps that likes to repeat itself.
  fn walk(&self, rng: &mut Rng, n: usize) -> Vec<char> {
    let mut s = 0;
    let mut out = Vec::new();
    let mut last = None;
    // How long a phase lasts.
    let stay = *rng.pick(&[2usize, 10, 300, 3000]);
    while out.len() < n {
      let from: Vec<(char, u32)> = self
        .step
        .iter()
        .filter(|((t, _), _)| *t == s)
        .map(|((_, c), t)| (*c, *t))
        .collect();
      if from.is_empty() {
        break;
      }
      let again = from.iter().find(|(c, _)| Some(*c) == last);
      // Do not run into a dead end early.
      let (c, t) = match again {
        Some(x) if !rng.chance(1, stay) => *x,
        _ => {
          let c = *rng.pick(&from);
          let dead = !self.step.keys().any(|(t, _)| *t == c.1);
          if dead && out.len() * 2 < n && from.len() > 1 {
            last = None;
            continue;
          }
          c
        }
      };
      last = Some(c);
      out.push(c);
      s = t;
    }
    // To the next end.
    let mut seen = vec![s];
    let mut todo = vec![(s, Vec::new())];
    let mut i = 0;
    while i < todo.len() {
      let (s, w) = todo[i].clone();
      if self.accepting.contains(&s) {
        out.extend(w);
        return out;
      }
      for ((t, c), u) in &self.step {
        if *t == s && !seen.contains(u) {
          seen.push(*u);
          let mut w = w.clone();
          w.push(*c);
          todo.push((*u, w));
        }
      }
      i += 1;
    }
    panic!("harness: a state from which nothing is accepted");
  }
}

pub struct Long {
  pub d: Desc,
  pub sg: SG,
  pub toks: Vec<Tok>,
  pub want: bool,
}

/// The same grammar for each call with the same `which`.
pub fn long_case(
  ctx: &mut Ctx,
  which: Option<(usize, Desc)>,
  cap: usize,
  wrong: bool,
) -> Option<(usize, Long)> {
  let (i, d) = match which {
    Some(x) => x,
    None => {
      let i = ctx.idx as usize % REGULAR.len();
      (i, dsl(&mut ctx.rng, REGULAR[i].0))
    }
  };
  let (text, auto) = REGULAR[i];
  let rng = &mut ctx.rng;
  let kinds = dsl_kinds(text, &d);
  let letters: Vec<char> = kinds.keys().copied().collect();
  let n = if rng.chance(1, 3) {
    rng.range(2, cap)
  } else {
    // Around a power of two.
    let mut p = 256;
    while p * 2 <= cap && rng.chance(2, 3) {
      p *= 2;
    }
    (p + rng.range(0, 80)).saturating_sub(20).min(cap)
  };
  let mut w: Vec<char> = if auto.is_empty() {
    let n = n / 2;
    let mut w = vec!['('; n];
    w.push('x');
    w.extend(vec![')'; n]);
    w
  } else {
    dfa(auto).walk(rng, n)
  };
  if wrong {
    for _ in 0..rng.range(1, 2) {
      let at = rng.below(w.len().max(1));
      let c = *rng.pick(&letters);
      match rng.below(4) {
        0 if at < w.len() => {
          w.remove(at);
        }
        1 => w.insert(at, c),
        2 if at < w.len() => w[at] = c,
        _ => {
          w.push(c);
        }
      }
    }
  }
  let want = if auto.is_empty() {
    let n = w.len() / 2;
    w.len() % 2 == 1
      && w[n] == 'x'
      && w[..n].iter().all(|c| *c == '(')
      && w[n + 1..].iter().all(|c| *c == ')')
  } else {
    dfa(auto).accepts(&w)
  };
  let v: Vec<u32> = w.iter().map(|c| kinds[c]).collect();
  let toks = give_values(rng, &v);
  ctx.note(d.text());
  ctx.note(format!(
    "{} tokens: {}",
    w.len(),
    w.iter().take(6000).collect::<String>()
  ));
  let sg = match wrapped(&d) {
    Ok(sg) => sg,
    Err(_) => {
      ctx.count("skipped", 1);
      return None;
    }
  };
  ctx.hi("longest_input", toks.len() as u64);
  ctx.nontrivial(hash_u64s(
    [d.sig()].into_iter().chain(v.iter().map(|x| *x as u64)),
  ));
  Some((i, Long { d, sg, toks, want }))
}

fn cut(m: String) -> String {
  m.chars().take(300).collect()
}

/// E01.
pub fn accepts_long(ctx: &mut Ctx) -> R {
  let wrong = ctx.rng.chance(1, 3);
  let Some((_, c)) = long_case(ctx, None, 4200, wrong) else {
    return Ok(());
  };
  let owner = Owner::new();
  let got = guard(|| parse(&c.sg, &owner.handle(), tokens(&c.toks)).is_some())
    .map_err(|m| format!("parsing panics: {}", m))?;
  ensure!(
    got == c.want,
    "{} tokens are {}in the language, but parsing {} a tree",
    c.toks.len(),
    if c.want { "" } else { "not " },
    if got { "returns" } else { "does not return" }
  );
  ctx.count(if c.want { "accepted" } else { "rejected" }, 1);
  ctx.count("tokens", c.toks.len() as u64);
  Ok(())
}

/// The forest, if there is one as there should.
fn forest(ctx: &mut Ctx, c: &Long) -> Option<Forest> {
  let owner = Owner::new();
  let read = guard(|| {
    parse(&c.sg, &owner.handle(), tokens(&c.toks))
      .map(|n| Forest::read(&n, 4 * READ_CAP))
  });
  match read {
    Ok(Some(Some(f))) if c.want => Some(f),
    _ => {
      ctx.count("not_parsed", 1);
      None
    }
  }
}

/// E02.
pub fn sound_long(ctx: &mut Ctx) -> R {
  let Some((_, c)) = long_case(ctx, None, 4200, false) else {
    return Ok(());
  };
  let Some(f) = forest(ctx, &c) else {
    return Ok(());
  };
  let n = unsound(&c.d, &c.toks, &f.trimmed()).map_err(cut)?;
  ctx.count("typed_spans_checked", n);
  ctx.hi("largest_forest", (f.nodes.len() + f.alts.len()) as u64);
  Ok(())
}

/// The number of nodes that matter, if each has one alternative only.
fn single(f: &Forest) -> Result<usize, String> {
  let f = f.trimmed();
  let r = f.reachable();
  for n in &r {
    ensure!(
      f.nodes[*n].len() == 1,
      "a node of the forest of an unambiguous input has {} alternatives",
      f.nodes[*n].len()
    );
  }
  Ok(r.len())
}

/// E03: one derivation, or n + 1 of them.
pub fn complete_long(ctx: &mut Ctx) -> R {
  if ctx.idx % 4 == 0 {
    let text = "S: A B ; A: A a | ; B: B a |";
    let d = dsl(&mut ctx.rng, text);
    let a = dsl_kinds(text, &d)[&'a'];
    let n = ctx.rng.odd_between(60, 220);
    ctx.note(d.text());
    ctx.note(format!("{} tokens", n));
    let Ok(sg) = wrapped(&d) else {
      ctx.count("skipped", 1);
      return Ok(());
    };
    let toks = give_values(&mut ctx.rng, &vec![a; n]);
    let c = Long {
      d,
      sg,
      toks,
      want: true,
    };
    let Some(f) = forest(ctx, &c) else {
      return Ok(());
    };
    let counts = f.trimmed().counts(3 * n);
    let last = *counts.last().unwrap();
    ensure!(
      last == n as u128 + 1,
      "{} tokens have {} derivations, the forest holds {}",
      n,
      n + 1,
      last
    );
    ctx.count("counts_compared", 1);
    ctx.nontrivial(hash_u64s([n as u64]));
    return Ok(());
  }
  let Some((_, c)) = long_case(ctx, None, 4200, false) else {
    return Ok(());
  };
  let Some(f) = forest(ctx, &c) else {
    return Ok(());
  };
  let n = single(&f)?;
  ctx.count("counts_compared", 1);
  ctx.count("single_nodes", n as u64);
  Ok(())
}

/// E04: several long inputs in one store.
pub fn shared_long(ctx: &mut Ctx) -> R {
  let mut which: Option<(usize, Desc)> = None;
  let mut cases = Vec::new();
  for _ in 0..ctx.rng.range(2, 3) {
    let wrong = ctx.rng.chance(1, 5);
    let Some((i, c)) = long_case(ctx, which, 1500, wrong) else {
      return Ok(());
    };
    which = Some((i, c.d.clone()));
    cases.push(c);
  }
  let owner = Owner::new();
  let h = owner.handle();
  let mut kept: Vec<(usize, N, (usize, usize))> = Vec::new();
  for (i, c) in cases.iter().enumerate() {
    let alone = forest(ctx, c);
    let got = match guard(|| parse(&c.sg, &h, tokens(&c.toks))) {
      Ok(n) => n,
      Err(m) => {
        if c.want && alone.is_none() {
          ctx.count("skipped", 1);
          return Ok(());
        }
        return Err(format!("input {} in a used store panics: {}", i, m));
      }
    };
    let mine = got
      .as_ref()
      .and_then(|n| Forest::read(n, 4 * READ_CAP))
      .map(|f| f.trimmed());
    match (&alone, &mine) {
      (Some(a), Some(b)) => {
        let a = a.trimmed();
        let size = |f: &Forest| {
          let r = f.reachable();
          (r.len(), r.iter().map(|n| f.nodes[*n].len()).sum::<usize>())
        };
        let bad = |f: &Forest| unsound(&c.d, &c.toks, f).is_err();
        ensure!(
          bad(&a) == bad(b) && single(&a).is_ok() == single(b).is_ok(),
          "input {} has another forest in a used store than in a new one",
          i
        );
        kept.push((i, got.unwrap(), size(b)));
      }
      (None, Some(_)) if c.want => {
        ctx.count("skipped", 1);
        return Ok(());
      }
      (Some(_), None) => {
        return Err(format!("input {} has no tree in a used store", i))
      }
      _ => {}
    }
    for (j, n, want) in &kept {
      let Some(f) = Forest::read(n, 4 * READ_CAP) else {
        return Err(format!("the forest of input {} has grown a lot", j));
      };
      let f = f.trimmed();
      let r = f.reachable();
      let got = (r.len(), r.iter().map(|n| f.nodes[*n].len()).sum::<usize>());
      ensure!(
        got == *want
          && (single(&f).is_ok() || *j == i)
          && (unsound(&cases[*j].d, &cases[*j].toks, &f).is_ok() || *j == i),
        "the forest of input {} is another after input {}: {:?}, was {:?}",
        j,
        i,
        got,
        want
      );
      ctx.count("looked_at_again", 1);
    }
  }
  Ok(())
}
