//! S01, S02, K01, B01, B02, U01-U05: positions, streams, buffers, utilities.

use crate::core::*;
use crate::desc::*;
use crate::m_analysis::doc_text;
use crate::m_earley::{wrapped, Owner};
use crate::sy::*;
use bongo::grammar::Prod;
use bongo::parsers::earley::parse;
use bongo::parsers::tree::NodeContent;
use bongo::parsers::{Token, TokenStream, VecTokenStream};
use bongo::state::{ProdState, ProdStateSet};
use bongo::utils::buffer::BufferRange;
use bongo::utils::fmt::{list_fmt, set_fmt, struct_fmt, tuple_fmt};
use bongo::utils::type_map::{TypeKey, TypeMap};
use bongo::utils::{
  apply_fixed_point, breadth_first_search, change_iter, change_loop,
  fixed_point, merge_value_pairs, take_only, CollectMap,
  FixedPointProcessor, Name, WasChanged,
};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

type PS<'a> = ProdState<'a, Tm, Nt, Ak, Av>;
type PSS<'a> = ProdStateSet<'a, Tm, Nt, Ak, Av>;

/// The productions of a grammar, with their descriptions; checked to match.
fn prods<'g>(g: &'g G, d: &Desc) -> Result<Vec<(Prod<'g, Tm, Nt, Ak, Av>, PD)>, Skip> {
  guard(|| {
    let mut out = Vec::new();
    for r in g.rules() {
      let rd = d.rule(r.head().0).ok_or(Skip)?;
      let ps: Vec<_> = r.prods().collect();
      if ps.len() != rd.prods.len() {
        return Err(Skip);
      }
      for (p, pd) in ps.into_iter().zip(&rd.prods) {
        let es: Vec<_> = p.prod_elements().iter().collect();
        if p.action_key().0 != pd.ak
          || es.len() != pd.elems.len()
          || es.iter().zip(&pd.elems).any(|(a, b)| {
            s_of(a.elem()) != b.s || a.id().map(|n| n.str()) != b.id.as_deref()
          })
        {
          return Err(Skip);
        }
        out.push((p, pd.clone()));
      }
    }
    Ok(out)
  })
  .unwrap_or(Err(Skip))
}

// ------------------------------------------------------------------- S01

pub const S01: Prop = Prop {
  id: "S01",
  streams: &[
    st("tiny2", 500, 5000),
    st("small", 1500, 40_000),
    st("medium", 600, 15_000),
    st("wide", 150, 3000),
    st("sizes", 3, 200),
  ],
  run: s01,
  rule: "every position of every production of tiny, random and long grammars: elements, look-ahead, conditional steps against the description; all pairs of positions compared; non-trivial: a production with two elements; distinct by rule structure",
};

fn s01(ctx: &mut Ctx) -> R {
  let d = gen_stream(ctx);
  ctx.note(d.text());
  let Ok(g) = d.built() else {
    ctx.count("skipped", 1);
    return Ok(());
  };
  let Ok(ps) = prods(&g, &d) else {
    ctx.count("skipped", 1);
    return Ok(());
  };
  let all_syms: Vec<S> = d
    .terminals()
    .into_iter()
    .chain([424_242])
    .map(S::T)
    .chain(d.heads().into_iter().map(S::N))
    .collect();
  let mut states: Vec<((usize, usize), PS)> = Vec::new();
  for (pi, (p, pd)) in ps.iter().enumerate() {
    let mut s: PS = ProdState::from_start(*p);
    let len = pd.elems.len();
    for i in 0..=len {
      let show = |j: usize| pd.elems.get(j).map(|e| (e.id.clone(), e.s));
      ensure!(s.prod() == *p, "a position changes its production");
      ensure!(
        s.action_key().0 == pd.ak,
        "the action key of a position of k{} is k{}",
        pd.ak,
        s.action_key().0
      );
      ensure!(
        s.is_complete() == (i == len),
        "k{} at {} of {}: complete is {}",
        pd.ak,
        i,
        len,
        s.is_complete()
      );
      let offs: Vec<usize> = if len < 12 {
        (0..len + 3).collect()
      } else {
        vec![0, 1, 2, ctx.rng.below(len), len - i.min(len), len + 1]
      };
      for o in offs.into_iter().chain([usize::MAX - len, usize::MAX]) {
        let want = i.checked_add(o).and_then(show);
        let got = s
          .offset_prod_elem(o)
          .map(|e| (e.id().map(|n| n.str().to_string()), s_of(e.elem())));
        ensure!(
          got == want,
          "k{} at {}, {} further: {:?} instead of {:?}",
          pd.ak,
          i,
          o,
          got,
          want
        );
        let got = s.offset_elem(o).map(s_of);
        ensure!(
          got == want.as_ref().map(|w| w.1),
          "k{} at {}, element {} further: {:?} instead of {:?}",
          pd.ak,
          i,
          o,
          got,
          want
        );
        ctx.count("look_aheads", 1);
      }
      let got = s
        .next_prod_elem()
        .map(|e| (e.id().map(|n| n.str().to_string()), s_of(e.elem())));
      ensure!(got == show(i), "k{} at {}: next is {:?}", pd.ak, i, got);
      let got = s.next_elem().map(s_of);
      ensure!(
        got == show(i).map(|w| w.1),
        "k{} at {}: next element is {:?}",
        pd.ak,
        i,
        got
      );
      let next = s.next_elem_state();
      ensure!(
        next.is_some() == (i < len),
        "k{} at {} of {}: {} step",
        pd.ak,
        i,
        len,
        if i < len { "no" } else { "a" }
      );
      let syms: Vec<S> = if all_syms.len() < 12 {
        all_syms.clone()
      } else {
        let mut v: Vec<S> =
          (0..6).map(|_| *ctx.rng.pick(&all_syms)).collect();
        v.extend(show(i).map(|w| w.1));
        v
      };
      for y in syms {
        let want = show(i).map(|w| w.1) == Some(y);
        let got = s.advance_if(&elem_of(y));
        ensure!(
          got.is_some() == want,
          "k{} at {}: a step over {:?} {}",
          pd.ak,
          i,
          y,
          if want { "fails" } else { "succeeds" }
        );
        if let (Some(a), Some((_, b))) = (&got, &next) {
          ensure!(
            a == b,
            "k{} at {}: a conditional step leads elsewhere",
            pd.ak,
            i
          );
        }
        ctx.count("conditional_steps", 1);
      }
      if len < 12 || i < 3 || i + 3 > len {
        states.push(((pi, i), s.clone()));
      }
      match next {
        Some((e, n)) => {
          let got = (e.id().map(|n| n.str().to_string()), s_of(e.elem()));
          ensure!(
            Some(&got) == show(i).as_ref(),
            "k{} at {}: steps over {:?}",
            pd.ak,
            i,
            got
          );
          s = n;
        }
        None => break,
      }
      ctx.count("steps", 1);
    }
    if len >= 2 {
      ctx.nontrivial(d.sig() ^ hash_u64s([pi as u64]));
    }
  }
  // Fresh handles of the same positions, and all pairs.
  let take = states.len().min(60);
  let start = ctx.rng.below(states.len() - take + 1);
  let some = &states[start..start + take];
  let mut less = vec![0usize; take];
  for (i, (ka, a)) in some.iter().enumerate() {
    let mut again: PS = ProdState::from_start(ps[ka.0].0);
    for _ in 0..ka.1 {
      match again.next_elem_state() {
        Some((_, n)) => again = n,
        None => break,
      }
    }
    ensure!(
      again == *a && again.cmp(a) == Ordering::Equal,
      "the same position reached again is not equal"
    );
    for (kb, b) in some.iter() {
      let eq = ka == kb;
      ensure!(
        (a == b) == eq && (a != b) == !eq,
        "positions {:?} and {:?} are {}equal",
        ka,
        kb,
        if a == b { "" } else { "not " }
      );
      let c = a.cmp(b);
      ensure!(
        (c == Ordering::Equal) == eq
          && b.cmp(a) == c.reverse()
          && a.partial_cmp(b) == Some(c),
        "positions {:?} and {:?}: the order is {:?}, reversed {:?}",
        ka,
        kb,
        c,
        b.cmp(a)
      );
      if c == Ordering::Greater {
        less[i] += 1;
      }
      ctx.count("pairs_compared", 1);
    }
  }
  // A total order has ranks.
  let mut ranks = less.clone();
  ranks.sort();
  ensure!(
    ranks.iter().enumerate().all(|(i, r)| i == *r),
    "the order of positions is not transitive"
  );
  Ok(())
}

// ------------------------------------------------------------------- S02

pub const S02: Prop = Prop {
  id: "S02",
  streams: &[
    st("tiny2", 500, 5000),
    st("small", 3000, 80_000),
    st("medium", 2000, 50_000),
    st("sizes", 3, 200),
  ],
  run: s02,
  rule: "random sets of positions built in different orders, their complete positions, successors, equality and closures under random and grammar-derived steps against sets of (production, index); non-trivial: a set of two positions with a successor; distinct by grammar and set",
};

type K2 = (usize, usize);

fn state_at<'g>(ps: &[(Prod<'g, Tm, Nt, Ak, Av>, PD)], k: K2) -> PS<'g> {
  let mut s: PS = ProdState::from_start(ps[k.0].0);
  for _ in 0..k.1 {
    s = s.next_elem_state().expect("harness: no such position").1;
  }
  s
}

fn s02(ctx: &mut Ctx) -> R {
  let d = gen_stream(ctx);
  ctx.note(d.text());
  let Ok(g) = d.built() else {
    ctx.count("skipped", 1);
    return Ok(());
  };
  let Ok(ps) = prods(&g, &d) else {
    ctx.count("skipped", 1);
    return Ok(());
  };
  let keys: Vec<K2> = ps
    .iter()
    .enumerate()
    .flat_map(|(i, (_, pd))| (0..=pd.elems.len()).map(move |j| (i, j)))
    .collect();
  let sts: BTreeMap<K2, PS> = match guard(|| {
    keys.iter().map(|k| (*k, state_at(&ps, *k))).collect()
  }) {
    Ok(m) => m,
    Err(_) => {
      ctx.count("skipped", 1);
      return Ok(());
    }
  };
  // Which one a state is: positions themselves are for S01 to judge.
  let known = guard(|| {
    sts
      .iter()
      .all(|(k, s)| sts.iter().all(|(l, t)| (k == l) == (s == t)))
  });
  if !matches!(known, Ok(true)) {
    ctx.count("skipped", 1);
    return Ok(());
  }
  let which = |s: &PS| -> Option<K2> {
    sts.iter().find(|(_, t)| *t == s).map(|(k, _)| *k)
  };
  let from_model = |m: &BTreeSet<K2>, rng: &mut Rng| -> PSS {
    let mut v: Vec<PS> = m.iter().map(|k| sts[k].clone()).collect();
    // Repeat some, in any order.
    for _ in 0..rng.below(3) {
      if !v.is_empty() {
        let x = rng.pick(&v).clone();
        v.push(x);
      }
    }
    rng.shuffle(&mut v);
    if rng.chance(1, 2) {
      v.into_iter().collect()
    } else {
      let mut s = ProdStateSet::new_empty();
      for x in v {
        s.add(x);
      }
      s
    }
  };
  let mut all: Vec<(PSS, BTreeSet<K2>)> = Vec::new();
  for _ in 0..4 {
    let n = ctx.rng.range(0, keys.len().min(12));
    let mut m: BTreeSet<K2> =
      (0..n).map(|_| *ctx.rng.pick(&keys)).collect();
    if ctx.rng.chance(1, 6) {
      m = keys.iter().copied().collect();
    }
    ctx.note(format!("set {:?}", m));
    let s = from_model(&m, &mut ctx.rng);
    let t = from_model(&m, &mut ctx.rng);
    ensure!(s == t, "two sets of the same positions are not equal");
    // A set with another one, or without one.
    let x = *ctx.rng.pick(&keys);
    let mut m2 = m.clone();
    if !m2.insert(x) {
      m2.remove(&x);
    }
    let u = from_model(&m2, &mut ctx.rng);
    ensure!(s != u && u != s, "sets that differ in {:?} are equal", x);
    let mut v = s.clone();
    v.add(sts[&x].clone());
    let mut m3 = m.clone();
    m3.insert(x);
    ensure!(
      v == from_model(&m3, &mut ctx.rng),
      "adding {:?} gives another set",
      x
    );
    ensure!(s == t, "adding to a clone changes the set");
    // Complete ones.
    let mut got: Vec<K2> = Vec::new();
    for c in s.complete() {
      match which(&c) {
        Some(k) => got.push(k),
        None => return Err("a complete position of no production".into()),
      }
    }
    got.sort();
    let want: Vec<K2> = m
      .iter()
      .copied()
      .filter(|(p, i)| ps[*p].1.elems.len() == *i)
      .collect();
    ensure!(
      got == want,
      "the complete positions are {:?} instead of {:?}",
      got,
      want
    );
    // Successors.
    let mut want: BTreeMap<(Option<String>, S), BTreeSet<K2>> =
      BTreeMap::new();
    for (p, i) in &m {
      if let Some(e) = ps[*p].1.elems.get(*i) {
        want
          .entry((e.id.clone(), e.s))
          .or_default()
          .insert((*p, *i + 1));
      }
    }
    let mut groups = 0;
    for (e, next) in s.nexts() {
      let key = (e.id().map(|n| n.str().to_string()), s_of(e.elem()));
      let Some(w) = want.remove(&key) else {
        return Err(format!("there are successors over {:?}, or twice", key));
      };
      ensure!(
        next == from_model(&w, &mut ctx.rng),
        "the successors over {:?} are not {:?}",
        key,
        w
      );
      groups += 1;
    }
    ensure!(
      want.is_empty(),
      "no successors over {:?}",
      want.keys().next()
    );
    ctx.count("successor_groups", groups);
    // Closures.
    let step: BTreeMap<K2, Vec<K2>> = match ctx.rng.below(3) {
      0 => keys
        .iter()
        .map(|k| {
          // As a parser would: the productions of the next nonterminal.
          let v = match ps[k.0].1.elems.get(k.1).map(|e| e.s) {
            Some(S::N(n)) => ps
              .iter()
              .enumerate()
              .filter(|(_, (p, _))| p.head().0 == n)
              .map(|(i, _)| (i, 0))
              .collect(),
            _ => vec![],
          };
          (*k, v)
        })
        .collect(),
      1 => {
        // A chain through all positions.
        let mut order = keys.clone();
        ctx.rng.shuffle(&mut order);
        (0..order.len())
          .map(|i| (order[i], vec![order[(i + 1) % order.len()]]))
          .collect()
      }
      _ => keys
        .iter()
        .map(|k| {
          let n = ctx.rng.below(3);
          (*k, (0..n).map(|_| *ctx.rng.pick(&keys)).collect())
        })
        .collect(),
    };
    let mut want = m.clone();
    let mut todo: Vec<K2> = m.iter().copied().collect();
    while let Some(k) = todo.pop() {
      for l in &step[&k] {
        if want.insert(*l) {
          todo.push(*l);
        }
      }
    }
    let mut c = s.clone();
    let calls = Cell::new(0u64);
    c.take_closure(|x| {
      calls.set(calls.get() + 1);
      if calls.get() > 10_000_000 {
        panic!("{}", BUDGET_MSG);
      }
      let k = which(x).unwrap_or((usize::MAX, 0));
      step
        .get(&k)
        .cloned()
        .unwrap_or_default()
        .into_iter()
        .map(|l| sts[&l].clone())
        .collect::<Vec<_>>()
        .into_iter()
    });
    ensure!(
      c == from_model(&want, &mut ctx.rng),
      "the closure of {:?} is not the {} positions reachable",
      m,
      want.len()
    );
    ctx.count("closures", 1);
    ctx.count("positions_added_by_closures", (want.len() - m.len()) as u64);
    all.extend([(s.clone(), m.clone()), (t, m.clone()), (u, m2), (v, m3)]);
    all.push((c, want));
    if m.len() >= 2 && groups > 0 {
      ctx.nontrivial(hash_u64s(
        [d.sig()]
          .into_iter()
          .chain(m.iter().map(|(a, b)| (*a * 1000 + *b) as u64)),
      ));
    }
  }
  // Sets of all these sets.
  ctx.count("pairs_of_sets_compared", crate::m_values::ordered("set", &all)?);
  Ok(())
}

// ------------------------------------------------------------------- K01

pub const K01: Prop = Prop {
  id: "K01",
  streams: &[
    st("seq", 6000, 150_000),
    st("long", 200, 3000),
    st("huge", 1, 100),
  ],
  run: k01,
  rule: "token sequences, read forwards and re-read from saved positions in random order; tokens are looked at by parsing each alone; non-trivial: at least two tokens; distinct by the tokens",
};

fn k01(ctx: &mut Ctx) -> R {
  let kinds = ctx.rng.range(1, 4);
  let n = match ctx.stream {
    "huge" => ctx.rng.range(65_530, 70_000),
    "long" => ctx.rng.range(50, 400),
    _ => ctx.rng.spread(0, 12, 500),
  };
  let huge = ctx.stream == "huge";
  let mut tag = ctx.rng.next() as u32 & 0xffff;
  let toks: Vec<(u32, u32)> = (0..n)
    .map(|_| {
      if ctx.rng.chance(2, 3) {
        tag += 1;
      }
      (ctx.rng.below(kinds) as u32, tag)
    })
    .collect();
  if huge {
    ctx.note(format!("{} tokens", n));
  } else {
    ctx.note(format!("{:?}", toks));
  }
  // start -> any kind
  let d = Desc {
    start: 0,
    rules: vec![RD {
      head: 0,
      prods: (0..kinds as u32)
        .map(|k| PD {
          ak: k,
          av: k,
          elems: vec![ED::new(S::T(k))],
        })
        .collect(),
    }],
  };
  let Ok(sg) = wrapped(&d) else {
    ctx.count("skipped", 1);
    return Ok(());
  };
  let look = |t: Token<Tm, Vl>| -> Option<(u32, u32)> {
    guard(|| {
      let owner = Owner::new();
      let h = owner.handle();
      let n = parse(&sg, &h, vec![t])?;
      let a = take_only(n.alts())?;
      let NodeContent::Branch(b) = a.content() else {
        return None;
      };
      let m = take_only(b.nodes())?;
      let a = take_only(m.alts())?;
      match a.content() {
        NodeContent::Leaf(l) => Some((l.kind().0, l.value().0)),
        _ => None,
      }
    })
    .ok()
    .flatten()
  };
  // Known tokens must be readable that way.
  for (k, v) in toks.iter().take(2) {
    if look(Token::new(Tm(*k), Vl(*v))) != Some((*k, *v)) {
      ctx.count("skipped", 1);
      return Ok(());
    }
  }
  let items = toks.iter().map(|(k, v)| Token::new(Tm(*k), Vl(*v)));
  let s0: VecTokenStream<Tm, Vl> = match ctx.rng.below(3) {
    0 => VecTokenStream::from_into_iter(items.collect::<Vec<_>>()),
    1 => VecTokenStream::from_into_iter(items),
    _ => VecTokenStream::from_into_iter(
      items.collect::<std::collections::VecDeque<_>>(),
    ),
  };
  let mut saved = vec![s0.clone()];
  let mut cur = s0;
  for (i, want) in toks.iter().enumerate() {
    let Some((t, next)) = cur.next() else {
      return Err(format!("the stream ends at {} of {}", i, n));
    };
    if !huge || i % 64 == 0 || i + 8 > n || (65_530..65_540).contains(&i) {
      let got = look(t);
      ensure!(
        got == Some(*want),
        "token {} is {:?} instead of {:?}",
        i,
        got,
        want
      );
    }
    saved.push(next.clone());
    cur = if ctx.rng.chance(1, 2) { next } else { next.clone() };
    ctx.count("tokens_read", 1);
  }
  for _ in 0..3 {
    ensure!(cur.next().is_none(), "a token after the end of {}", n);
    ctx.count("ends_seen", 1);
  }
  // Re-read from anywhere.
  for _ in 0..12 {
    let i = ctx.rng.below(saved.len());
    let mut s = saved[i].clone();
    let mut at = i;
    for _ in 0..ctx.rng.range(1, 6) {
      match s.next() {
        None => {
          ensure!(at == n, "re-read from {}: ends at {} of {}", i, at, n);
          ctx.count("ends_seen", 1);
        }
        Some((t, next)) => {
          ensure!(at < n, "re-read from {}: a token after the end", i);
          let got = look(t);
          ensure!(
            got == Some(toks[at]),
            "re-read from {}: token {} is {:?} instead of {:?}",
            i,
            at,
            got,
            toks[at]
          );
          ctx.count("tokens_re_read", 1);
          // Read the old one again, or go on.
          if ctx.rng.chance(2, 3) {
            s = next;
            at += 1;
          }
        }
      }
    }
  }
  if n >= 2 {
    ctx.nontrivial(hash_u64s(
      toks.iter().map(|(k, v)| (*k as u64) << 32 | *v as u64),
    ));
  }
  Ok(())
}

// ------------------------------------------------------------------- B01

pub const B01: Prop = Prop {
  id: "B01",
  streams: &[
    st("exh", 1555, 1555),
    st("text", 5000, 150_000),
    st("huge", 1, 60),
  ],
  run: b01,
  rule: "all texts of up to four of six characters of 1-4 bytes, and random ones; random reads, advances, clones and suffix removals on several ranges of one buffer against a string and two offsets; non-trivial: at least 3 characters, one of them wide; distinct by text",
};

const PIECES: [&str; 30] = [
  "a", "b", " ", "x", "é", "e\u{301}", "ß", "あ", "名", "\u{1F600}",
  "\u{1F468}\u{200D}\u{1F469}\u{200D}\u{1F467}", "\u{1F1E9}\u{1F1EA}",
  "각", "\u{1112}\u{1161}\u{11ab}", "\u{0}", "\t", "\u{2028}", "\u{85}",
  "\u{feff}", "\u{200d}", "\u{301}", "नि", "\u{b}", "z", "\u{10ffff}",
  "word", "  ", "ok", "\u{7f}", "q",
];

const BREAKS: [&str; 8] =
  ["\n", "\r", "\r\n", "\n\n", "\r\r", "\n\r", "\r\n\r\n", "\r\r\n"];

fn text(rng: &mut Rng, max: usize, breaks: usize) -> String {
  let mut s = String::new();
  for _ in 0..rng.range(0, max) {
    if rng.below(100) < breaks {
      s += rng.pick(&BREAKS);
    } else if rng.chance(1, 12) {
      s += rng.word();
    } else if rng.chance(1, 40) {
      s.push(char::from_u32(rng.below(0x3100) as u32).unwrap_or('z'));
    } else {
      s += rng.pick(&PIECES);
    }
  }
  s
}

/// All strings over the alphabet, by length.
fn exh_text(mut idx: u64, alphabet: &[char]) -> String {
  let a = alphabet.len() as u64;
  let mut len = 0;
  let mut n = 1;
  while idx >= n {
    idx -= n;
    n *= a;
    len += 1;
  }
  let mut s = String::new();
  for _ in 0..len {
    s.push(alphabet[(idx % a) as usize]);
    idx /= a;
  }
  s
}

#[derive(Clone)]
struct Ran {
  r: BufferRange,
  a: usize,
  b: usize,
}

fn ran_ok(text: &str, x: &Ran) -> R {
  let want = &text[x.a..x.b];
  ensure!(
    x.r.as_str() == want,
    "a range is {:?} instead of {:?}",
    x.r.as_str(),
    want
  );
  ensure!(
    x.r.byte_len() == want.len() && x.r.empty() == want.is_empty(),
    "the range {:?} reports a length of {}, empty {}",
    want,
    x.r.byte_len(),
    x.r.empty()
  );
  Ok(())
}

/// More than 16 bits can count: lines, characters of a line, or bytes.
fn huge_text(rng: &mut Rng) -> String {
  let mut s = text(rng, 6, 30);
  let unit = match rng.below(4) {
    0 => "a".to_string(),
    1 => "\n".to_string(),
    2 => format!("é{}", rng.pick(&BREAKS)),
    _ => rng.pick(&PIECES).to_string(),
  };
  s += &unit.repeat(rng.range(65_530, 67_000));
  s += &text(rng, 8, 30);
  s
}

fn b01(ctx: &mut Ctx) -> R {
  let t = if ctx.stream == "huge" {
    huge_text(&mut ctx.rng)
  } else if ctx.stream == "exh" {
    exh_text(
      ctx.idx,
      &['a', '\r', '\n', 'é', '名', '\u{1F600}'],
    )
  } else {
    let n = ctx.rng.spread(2, 14, 300);
    text(&mut ctx.rng, n, 20)
  };
  if t.len() < 10_000 {
    ctx.note(format!("{:?}", t));
  }
  // Another buffer with the same text, and perhaps the same name.
  let other =
    BufferRange::new(*ctx.rng.pick(&["other", "src"]), &t);
  let root = Ran {
    r: BufferRange::new("src", &t),
    a: 0,
    b: t.len(),
  };
  ran_ok(&t, &root)?;
  // From start to end, both ways.
  let mut m = root.r.clone();
  let mut p = root.r.clone();
  let long = t.len() > 10_000;
  for (i, c) in t.chars().enumerate() {
    let got = m.read_char_mut();
    ensure!(got == Some(c), "read {:?} instead of {:?}", got, c);
    if long && i % 1000 != 0 {
      p.read_char_mut();
      continue;
    }
    match p.read_char() {
      Some((x, next)) => {
        ensure!(x == c, "read {:?} instead of {:?}", x, c);
        p = next;
      }
      None => return Err(format!("nothing read instead of {:?}", c)),
    }
    ensure!(
      m.as_str() == p.as_str(),
      "the two ways of reading differ"
    );
    ctx.count("characters_read", 1);
  }
  for _ in 0..2 {
    ensure!(
      m.read_char_mut().is_none() && p.read_char().is_none() && m.empty(),
      "reading goes on after the end"
    );
  }
  let mut rs = vec![root];
  for _ in 0..ctx.rng.range(6, 30) {
    let i = ctx.rng.below(rs.len());
    let x = rs[i].clone();
    let here = &t[x.a..x.b];
    let nchars = here.chars().count();
    let k = match ctx.rng.below(12) {
      0 => usize::MAX,
      1 => nchars + 1,
      2 => nchars,
      3 => 0,
      4..=6 if long => nchars.saturating_sub(ctx.rng.below(20)),
      _ => ctx.rng.range(0, nchars + 2),
    };
    let cut = here.char_indices().nth(k).map_or(here.len(), |(o, _)| o);
    let fits = k <= nchars;
    match ctx.rng.below(6) {
      0 => {
        let got = x.r.read_char();
        match (got, here.chars().next()) {
          (None, None) => {}
          (Some((c, next)), Some(d)) => {
            ensure!(c == d, "read {:?} instead of {:?}", c, d);
            let y = Ran {
              r: next,
              a: x.a + d.len_utf8(),
              b: x.b,
            };
            ran_ok(&t, &y)?;
            rs.push(y);
          }
          (g, w) => {
            return Err(format!(
              "read {:?} instead of {:?}",
              g.map(|g| g.0),
              w
            ))
          }
        }
      }
      1 => {
        let got = rs[i].r.read_char_mut();
        let want = here.chars().next();
        ensure!(got == want, "read {:?} instead of {:?}", got, want);
        rs[i].a += want.map_or(0, |c| c.len_utf8());
        ran_ok(&t, &rs[i])?;
      }
      2 => {
        let got = x.r.advance_n(k);
        match got {
          Some((s, next)) if fits => {
            ensure!(
              s == &here[..cut],
              "advancing by {} yields {:?} instead of {:?}",
              k,
              s,
              &here[..cut]
            );
            let y = Ran {
              r: next,
              a: x.a + cut,
              b: x.b,
            };
            ran_ok(&t, &y)?;
            rs.push(y);
          }
          None if !fits => ctx.count("refused_advances", 1),
          g => {
            return Err(format!(
              "advancing by {} of {}: {:?}",
              k,
              nchars,
              g.map(|g| g.0.to_string())
            ))
          }
        }
        ran_ok(&t, &rs[i])?;
      }
      3 => {
        let got = rs[i].r.advance_n_mut(k).map(|s| s.to_string());
        let want = if fits { Some(here[..cut].to_string()) } else { None };
        ensure!(
          got == want,
          "advancing by {} of {} yields {:?} instead of {:?}",
          k,
          nchars,
          got,
          want
        );
        if fits {
          rs[i].a += cut;
        } else {
          ctx.count("refused_advances", 1);
        }
        ran_ok(&t, &rs[i])?;
      }
      4 => {
        let j = ctx.rng.below(rs.len());
        let y = rs[j].clone();
        let legal = x.b == y.b && x.a <= y.a;
        let got = guard(|| x.r.remove_suffix(&y.r));
        match got {
          Ok(r) => {
            ensure!(
              legal,
              "the suffix {}..{} of {}..{} is not refused",
              y.a,
              y.b,
              x.a,
              x.b
            );
            let z = Ran {
              r,
              a: x.a,
              b: y.a,
            };
            ran_ok(&t, &z)?;
            rs.push(z);
            ctx.count("suffixes_removed", 1);
          }
          Err(m) => {
            ensure!(
              !legal,
              "the suffix {}..{} of {}..{} is refused: {}",
              y.a,
              y.b,
              x.a,
              x.b,
              m
            );
            ctx.count("suffixes_refused", 1);
          }
        }
      }
      _ => {
        // The same place in another buffer with the same text.
        let mut o = other.clone();
        for _ in 0..t[..x.a].chars().count() {
          o.read_char_mut();
        }
        if x.b == t.len() {
          ensure!(
            guard(|| x.r.remove_suffix(&o)).is_err(),
            "a suffix of another buffer is not refused"
          );
          ctx.count("suffixes_refused", 1);
        }
      }
    }
    if rs.len() > 24 {
      let i = ctx.rng.below(rs.len());
      rs.swap_remove(i);
    }
    for x in &rs {
      ran_ok(&t, x)?;
    }
    ctx.count("operations", 1);
  }
  if t.chars().count() >= 3 && t.len() > t.chars().count() {
    ctx.nontrivial(hash_str(&t));
  }
  Ok(())
}

// ------------------------------------------------------------------- B02

pub const B02: Prop = Prop {
  id: "B02",
  streams: &[
    st("exh", 5461, 5461),
    st("text", 6000, 200_000),
    st("lines", 1500, 40_000),
    st("huge", 1, 60),
  ],
  run: b02,
  rule: "all texts of up to six of four characters (letter, combining mark, carriage return, line feed), and random ones; the position of every start and end reachable by reading and suffix removal (read through the hook) against a scan for terminators and a grapheme count; non-trivial: a line break; distinct by text",
};

#[cfg(not(bongo_verif))]
fn b02(_: &mut Ctx) -> R {
  panic!("harness: built without the hooks");
}

/// Line, column, offset.
#[cfg(bongo_verif)]
fn position(t: &str, off: usize) -> (usize, usize, usize) {
  use unicode_segmentation::UnicodeSegmentation;
  // Terminators, as (begin, end).
  let b = t.as_bytes();
  let mut terms = Vec::new();
  let mut i = 0;
  while i < b.len() {
    if b[i] == b'\r' {
      let e = if b.get(i + 1) == Some(&b'\n') { i + 2 } else { i + 1 };
      terms.push((i, e));
      i = e;
    } else {
      if b[i] == b'\n' {
        terms.push((i, i + 1));
      }
      i += 1;
    }
  }
  let line = terms.iter().filter(|(_, e)| *e <= off).count();
  let from = if line == 0 { 0 } else { terms[line - 1].1 };
  let to = terms.get(line).map_or(t.len(), |x| x.0);
  let column = t[from..to]
    .grapheme_indices(true)
    .filter(|(o, _)| from + o < off)
    .count();
  (line, column, off)
}

#[cfg(bongo_verif)]
fn b02(ctx: &mut Ctx) -> R {
  let t = match ctx.stream {
    "huge" => huge_text(&mut ctx.rng),
    "exh" => exh_text(ctx.idx, &['a', '\u{301}', '\r', '\n']),
    "lines" => {
      let mut s = String::new();
      for _ in 0..ctx.rng.range(1, 30) {
        let p = text(&mut ctx.rng, 5, 0);
        s += &p;
        s += ctx.rng.pick(&BREAKS);
      }
      s
    }
    _ => {
      let n = ctx.rng.spread(2, 16, 100);
      let b = *ctx.rng.pick(&[35, 35, 35, 3, 80]);
      text(&mut ctx.rng, n, b)
    }
  };
  let huge = ctx.stream == "huge";
  if !huge {
    ctx.note(format!("{:?}", t));
  }
  let root = BufferRange::new("src", &t);
  let check = |r: &BufferRange, a: usize, b: usize| -> R {
    let got = r.start_pos().verif_parts();
    let want = position(&t, a);
    ensure!(
      got == want,
      "(line, column, offset) of offset {} is {:?} instead of {:?}",
      a,
      got,
      want
    );
    let got = r.end_pos().verif_parts();
    let want = position(&t, b);
    ensure!(
      got == want,
      "(line, column, offset) of offset {} at an end is {:?} instead of {:?}",
      b,
      got,
      want
    );
    Ok(())
  };
  let mut r = root.clone();
  let mut at = 0;
  let mut n = 0;
  if huge {
    let chars = t.chars().count();
    for i in 0..14 {
      let k = if i % 2 == 0 {
        chars - ctx.rng.below(24)
      } else {
        ctx.rng.below(chars)
      };
      at = t.char_indices().nth(k).map_or(t.len(), |x| x.0);
      match guard(|| root.advance_n(k)) {
        Ok(Some((_, r))) if r.as_str() == &t[at..] => {
          check(&r, at, t.len())?;
          if let Ok(cut) = guard(|| root.remove_suffix(&r)) {
            check(&cut, 0, at)?;
          }
          n += 4;
        }
        _ => {
          // For B01 to judge.
          ctx.count("skipped", 1);
          return Ok(());
        }
      }
    }
    ctx.count("positions", n);
    ctx.nontrivial(hash_str(&t));
    return Ok(());
  }
  loop {
    check(&r, at, t.len())?;
    n += 2;
    if let Ok(cut) = guard(|| root.remove_suffix(&r)) {
      check(&cut, 0, at)?;
      n += 2;
    }
    let Some(c) = t[at..].chars().next() else { break };
    match guard(|| r.read_char()) {
      Ok(Some((_, next))) => r = next,
      _ => {
        // For B01 to judge.
        ctx.count("skipped", 1);
        return Ok(());
      }
    }
    at += c.len_utf8();
    if r.as_str() != &t[at..] {
      ctx.count("skipped", 1);
      return Ok(());
    }
  }
  ctx.count("positions", n);
  if t.contains(['\r', '\n']) {
    ctx.nontrivial(hash_str(&t));
  }
  Ok(())
}

// ------------------------------------------------------------------- U01

pub const U01: Prop = Prop {
  id: "U01",
  streams: &[st("ops", 6000, 200_000), st("long", 300, 8000)],
  run: u01,
  rule: "random insertions, reads, changes and merges on two type maps with eight key types (numbers and texts that coincide across types, types of the same name) against a map from (type, key); every value and key counts its drops; non-trivial: keys of two types and a replaced value; distinct by the operations",
};

#[derive(PartialEq, Eq, PartialOrd, Ord, Clone)]
struct KA(u32);
#[derive(PartialEq, Eq, PartialOrd, Ord, Clone)]
struct KB(u32);
#[derive(PartialEq, Eq, PartialOrd, Ord, Clone)]
struct KC(String);
#[derive(PartialEq, Eq, PartialOrd, Ord, Clone)]
struct KU;
#[derive(PartialEq, Eq, PartialOrd, Ord, Clone)]
struct KG<T>(T);

type Drops = Rc<RefCell<Vec<u32>>>;

/// Two types that differ in nothing but being two: even their names are alike.
mod alike {
  use super::{TypeKey, Val};
  pub fn keys(x: u32) -> (impl TypeKey<ValueType = Val>, impl TypeKey<ValueType = Val>) {
    let a = {
      #[derive(PartialEq, Eq, PartialOrd, Ord, Clone)]
      struct Same(u32);
      impl TypeKey for Same {
        type ValueType = Val;
      }
      Same(x)
    };
    let b = {
      #[derive(PartialEq, Eq, PartialOrd, Ord, Clone)]
      struct Same(u32);
      impl TypeKey for Same {
        type ValueType = Val;
      }
      Same(x)
    };
    (a, b)
  }
}

/// A value that counts its drops under its number.
struct Val {
  id: usize,
  extra: u64,
  drops: Drops,
}
impl Drop for Val {
  fn drop(&mut self) {
    if let Ok(mut d) = self.drops.try_borrow_mut() {
      if let Some(x) = d.get_mut(self.id) {
        *x += 1;
      }
    }
  }
}
/// Another type of value.
struct Val2(Val, #[allow(dead_code)] [u64; 3]);
impl TypeKey for KA {
  type ValueType = Val;
}
impl TypeKey for KB {
  type ValueType = Val2;
}
impl TypeKey for KC {
  type ValueType = Box<Val>;
}
impl TypeKey for KU {
  type ValueType = Val;
}
impl TypeKey for KG<u32> {
  type ValueType = Vec<Val>;
}
impl TypeKey for KG<String> {
  type ValueType = Val;
}

type MK = (u8, u32);

fn tm_insert(m: &mut TypeMap, k: MK, v: Val) {
  match k.0 {
    0 => m.insert(KA(k.1), v),
    1 => m.insert(KB(k.1), Val2(v, [1, 2, 3])),
    2 => m.insert(KC(k.1.to_string()), Box::new(v)),
    3 => m.insert(KU, v),
    4 => m.insert(KG(k.1), vec![v]),
    6 => m.insert(alike::keys(k.1).0, v),
    7 => m.insert(alike::keys(k.1).1, v),
    _ => m.insert(KG(k.1.to_string()), v),
  }
}
fn tm_get(m: &TypeMap, k: MK) -> Option<(usize, u64)> {
  let f = |v: &Val| (v.id, v.extra);
  match k.0 {
    0 => m.get(&KA(k.1)).map(f),
    1 => m.get(&KB(k.1)).map(|v| f(&v.0)),
    2 => m.get(&KC(k.1.to_string())).map(|v| f(v)),
    3 => m.get(&KU).map(f),
    4 => m.get(&KG(k.1)).map(|v| f(&v[0])),
    6 => m.get(&alike::keys(k.1).0).map(f),
    7 => m.get(&alike::keys(k.1).1).map(f),
    _ => m.get(&KG(k.1.to_string())).map(f),
  }
}
fn tm_change(m: &mut TypeMap, k: MK, x: u64) -> Option<usize> {
  let f = |v: &mut Val| {
    v.extra = x;
    v.id
  };
  match k.0 {
    0 => m.get_mut(&KA(k.1)).map(f),
    1 => m.get_mut(&KB(k.1)).map(|v| f(&mut v.0)),
    2 => m.get_mut(&KC(k.1.to_string())).map(|v| f(v)),
    3 => m.get_mut(&KU).map(f),
    4 => m.get_mut(&KG(k.1)).map(|v| f(&mut v[0])),
    6 => m.get_mut(&alike::keys(k.1).0).map(f),
    7 => m.get_mut(&alike::keys(k.1).1).map(f),
    _ => m.get_mut(&KG(k.1.to_string())).map(f),
  }
}

fn u01(ctx: &mut Ctx) -> R {
  let steps = if ctx.stream == "long" {
    ctx.rng.range(100, 500)
  } else {
    ctx.rng.spread(3, 30, 300)
  };
  let space = ctx.rng.range(1, if ctx.stream == "long" { 40 } else { 5 });
  let drops: Drops = Rc::new(RefCell::new(Vec::new()));
  let mut maps = [TypeMap::new(), TypeMap::new()];
  let mut model: [BTreeMap<MK, (usize, u64)>; 2] = Default::default();
  let mut sig = Vec::new();
  let mut types = BTreeSet::new();
  let mut replaced = 0;
  let key = |rng: &mut Rng| -> MK {
    let t = rng.below(8) as u8;
    (t, if t == 3 { 0 } else { rng.below(space) as u32 })
  };
  for _ in 0..steps {
    let w = ctx.rng.below(2);
    let k = key(&mut ctx.rng);
    let op = ctx.rng.below(12);
    sig.extend([w as u64, k.0 as u64, k.1 as u64, op as u64]);
    match op {
      0..=4 => {
        let id = drops.borrow().len();
        drops.borrow_mut().push(0);
        tm_insert(
          &mut maps[w],
          k,
          Val {
            id,
            extra: 0,
            drops: drops.clone(),
          },
        );
        types.insert(k.0);
        if model[w].insert(k, (id, 0)).is_some() {
          replaced += 1;
        }
        ctx.count("insertions", 1);
      }
      5 | 6 => {
        let x = ctx.rng.next();
        let got = tm_change(&mut maps[w], k, x);
        let want = model[w].get_mut(&k).map(|v| {
          v.1 = x;
          v.0
        });
        ensure!(
          got == want,
          "changing {:?}: value {:?} instead of {:?}",
          k,
          got,
          want
        );
        ctx.count("changes", 1);
      }
      7 => {
        let (a, b) = maps.split_at_mut(1);
        let (into, from) = if w == 0 {
          (&mut a[0], &mut b[0])
        } else {
          (&mut b[0], &mut a[0])
        };
        into.merge(from);
        let taken = std::mem::take(&mut model[1 - w]);
        for (k, v) in taken {
          if model[w].insert(k, v).is_some() {
            replaced += 1;
          }
        }
        ctx.count("merges", 1);
      }
      8 if ctx.rng.chance(1, 4) => {
        // Drop one map, and begin again.
        maps[w] = TypeMap::new();
        model[w].clear();
      }
      _ => {}
    }
    for w in 0..2 {
      for t in 0..8u8 {
        for x in 0..space as u32 {
          if t == 3 && x > 0 {
            continue;
          }
          if space > 8 && !ctx.rng.chance(1, 8) {
            continue;
          }
          let got = tm_get(&maps[w], (t, x));
          let want = model[w].get(&(t, x)).copied();
          ensure!(
            got == want,
            "map {}, key {} of type {}: {:?} instead of {:?}",
            w,
            x,
            t,
            got,
            want
          );
          ctx.count("lookups", 1);
        }
      }
    }
    // What is still in a map has not been dropped.
    for m in &model {
      for (id, _) in m.values() {
        ensure!(
          drops.borrow()[*id] == 0,
          "a value that is still in the map was dropped"
        );
      }
    }
  }
  drop(maps);
  for (i, n) in drops.borrow().iter().enumerate() {
    ensure!(*n == 1, "value {} was dropped {} times", i, n);
  }
  ctx.count("values_dropped", drops.borrow().len() as u64);
  if types.len() >= 2 && replaced > 0 {
    ctx.nontrivial(hash_u64s(sig));
  }
  Ok(())
}

// ------------------------------------------------------------------- U02

pub const U02: Prop = Prop {
  id: "U02",
  streams: &[
    st("bfs", 4000, 100_000),
    st("fixed", 4000, 100_000),
    st("propagate", 4000, 120_000),
    st("chain", 150, 3000),
    st("wide", 40, 1000),
    st("vast", 2, 60),
  ],
  run: u02,
  rule: "random, cyclic and long graphs (some of tens of thousands of steps), random functions with a fixed point, and random monotone propagation problems over maps of bit sets, against plain reachability and iteration; calls are counted; non-trivial: something beyond the initial items is found; distinct by the problem",
};

struct Prog {
  /// (from, to, mask, gen)
  edges: Vec<(u32, u32, u64, u64)>,
  calls: Cell<u64>,
}

impl FixedPointProcessor<Nt, Vl64> for Prog {
  fn next(&self, key: &Nt, value: &Vl64) -> Vec<(Nt, Vl64)> {
    self.calls.set(self.calls.get() + 1);
    if self.calls.get() > 3_000_000 {
      panic!("{}", BUDGET_MSG);
    }
    self
      .edges
      .iter()
      .filter(|e| e.0 == key.0)
      .map(|e| (Nt(e.1), Vl64(value.0 & e.2 | e.3)))
      .collect()
  }
  fn merge(&self, target: &mut Vl64, other: Vl64) -> WasChanged {
    let old = target.0;
    target.0 |= other.0;
    WasChanged::from_changed(target.0 != old)
  }
}

struct Vl64(u64);

/// Long ways: each helper has to go many thousand steps to its end.
fn u02_vast(ctx: &mut Ctx) -> R {
  let cap = *ctx.rng.pick(&[2600usize, 5200, 9000, 70_000]);
  let n = ctx.rng.odd_between(cap / 4, cap) as u64;
  ctx.note(format!("{} steps", n));
  // Items far apart, in an order that jumps: step i is at place i * k mod m.
  let (m, k) = (1_000_003u64, ctx.rng.range(1, 999_999) as u64);
  let place = |i: u64| (i * k % m) as u32;
  let turn: Vec<u64> = match ctx.rng.below(3) {
    0 => vec![],
    _ => (0..ctx.rng.range(1, 40)).map(|_| ctx.rng.below(n as usize) as u64).collect(),
  };
  let mut step: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
  for i in 0..n {
    let v = step.entry(place(i)).or_default();
    if i + 1 < n {
      v.push(place(i + 1));
    }
    if i > 0 {
      // Back, too.
      v.push(place(i - 1));
    }
  }
  for t in &turn {
    // A few short dead ends.
    step.entry(place(*t)).or_default().push(2_000_000 + *t as u32);
  }
  let mut want: BTreeSet<u32> = (0..n).map(place).collect();
  want.extend(turn.iter().map(|t| 2_000_000 + *t as u32));
  let mut calls: BTreeMap<u32, u32> = BTreeMap::new();
  let got: BTreeSet<u32> = breadth_first_search(vec![Nt(place(0))], |x| {
    *calls.entry(x.0).or_default() += 1;
    step.get(&x.0).into_iter().flatten().map(|y| Nt(*y)).collect::<Vec<_>>()
  })
  .into_iter()
  .map(|x| x.0)
  .collect();
  ensure!(
    got == want,
    "found {} items of a way of {} steps ({} items)",
    got.len(),
    n,
    want.len()
  );
  ensure!(
    calls.len() == want.len() && calls.values().all(|c| *c == 1),
    "not every item is expanded once"
  );
  let mut calls = 0u64;
  let got = fixed_point(Nt(0), |x| {
    calls += 1;
    if calls > 2 * n + 10 {
      panic!("{}", BUDGET_MSG);
    }
    Nt((x.0 as u64 + 1).min(n) as u32)
  });
  ensure!(got.0 as u64 == n, "the fixed point is {} instead of {}", got.0, n);
  let mut seen = 0u64;
  change_loop(|| {
    seen += 1;
    if seen > 2 * n + 10 {
      panic!("{}", BUDGET_MSG);
    }
    WasChanged::from_changed(seen <= n)
  });
  ensure!(
    seen == n + 1,
    "a change loop ran {} rounds instead of {}",
    seen,
    n + 1
  );
  // Along a chain the wrong way round, so that each round does one step.
  let len = n.min(9000) as u32;
  let up = ctx.rng.chance(1, 2);
  let at = |i: u32| if up { len - i } else { i };
  let late = ctx.rng.below(len as usize) as u32;
  let prog = Way {
    next: (0..len).map(|i| (at(i), at(i + 1))).collect(),
    late: at(late),
    calls: Cell::new(0),
  };
  let mut target: BTreeMap<Nt, Vl64> = BTreeMap::new();
  target.insert(Nt(at(0)), Vl64(1));
  apply_fixed_point(&prog, &mut target);
  ensure!(
    target.len() == len as usize + 1,
    "the solution has {} keys instead of {}",
    target.len(),
    len + 1
  );
  for i in 0..=len {
    let want = if i > late { 3 } else { 1 };
    let got = target.get(&Nt(at(i))).map(|v| v.0);
    ensure!(
      got == Some(want),
      "step {} of {} has {:?} instead of {}",
      i,
      len,
      got,
      want
    );
  }
  ctx.hi("longest_way", n);
  ctx.nontrivial(hash_u64s([n, k, late as u64, up as u64]));
  Ok(())
}

/// What one has goes to the next; one of them adds something.
struct Way {
  next: BTreeMap<u32, u32>,
  late: u32,
  calls: Cell<u64>,
}

impl FixedPointProcessor<Nt, Vl64> for Way {
  fn next(&self, key: &Nt, value: &Vl64) -> Vec<(Nt, Vl64)> {
    self.calls.set(self.calls.get() + 1);
    if self.calls.get() > 3_000_000 {
      panic!("{}", BUDGET_MSG);
    }
    let more = if key.0 == self.late { 2 } else { 0 };
    self
      .next
      .get(&key.0)
      .map(|n| (Nt(*n), Vl64(value.0 | more)))
      .into_iter()
      .collect()
  }
  fn merge(&self, target: &mut Vl64, other: Vl64) -> WasChanged {
    let old = target.0;
    target.0 |= other.0;
    WasChanged::from_changed(target.0 != old)
  }
}

fn u02(ctx: &mut Ctx) -> R {
  match ctx.stream {
    "vast" => u02_vast(ctx),
    "bfs" | "chain" | "wide" => {
      let n = if ctx.stream == "chain" {
        ctx.rng.range(50, 400)
      } else if ctx.stream == "wide" {
        let cap = *ctx.rng.pick(&[140usize, 700, 2600]);
        ctx.rng.odd_between(9, cap) + 1
      } else {
        ctx.rng.spread(1, 14, 130)
      };
      let nl = labels(&mut ctx.rng, n);
      let succ: Vec<Vec<usize>> = (0..n)
        .map(|i| {
          let k = ctx.rng.below(4);
          let mut v: Vec<usize> = (0..k)
            .map(|_| {
              if ctx.stream == "chain" {
                // Nearby only, so that it is deep.
                (i + n - ctx.rng.below(3)) % n
              } else {
                ctx.rng.below(n)
              }
            })
            .collect();
          if ctx.stream == "chain" && !ctx.rng.chance(1, 200) {
            v.push((i + 1) % n);
          }
          if ctx.stream == "wide" {
            // From the first to all of a layer, and from each to its own.
            v = if i == 0 {
              (1..=n / 2).collect()
            } else if i <= n / 2 && i + n / 2 < n {
              vec![i + n / 2]
            } else {
              v
            };
          }
          v
        })
        .collect();
      let mut init: Vec<usize> = (0..ctx.rng.below(4))
        .map(|_| ctx.rng.below(n))
        .collect();
      if ctx.stream == "wide" {
        init = if ctx.rng.chance(1, 2) {
          vec![0]
        } else {
          (1..n / 2 + 1).collect()
        };
      }
      ctx.note(format!("initial {:?}, steps {:?}", init, succ));
      let mut want: BTreeSet<usize> = init.iter().copied().collect();
      let mut todo = init.clone();
      while let Some(x) = todo.pop() {
        for y in &succ[x] {
          if want.insert(*y) {
            todo.push(*y);
          }
        }
      }
      let index: BTreeMap<u32, usize> =
        nl.iter().enumerate().map(|(i, l)| (*l, i)).collect();
      let mut calls = vec![0u32; n];
      let got = breadth_first_search(
        init.iter().map(|i| Nt(nl[*i])).collect::<Vec<_>>(),
        |x| {
          let i = index[&x.0];
          calls[i] += 1;
          if calls[i] > 100_000 {
            panic!("{}", BUDGET_MSG);
          }
          succ[i].iter().map(|j| Nt(nl[*j])).collect::<Vec<_>>()
        },
      );
      let got: BTreeSet<usize> = got.iter().map(|x| index[&x.0]).collect();
      ensure!(got == want, "found {:?} instead of {:?}", got, want);
      for (i, c) in calls.iter().enumerate() {
        let exp = want.contains(&i) as u32;
        ensure!(*c == exp, "item {} was expanded {} times", i, c);
      }
      ctx.count("items_found", want.len() as u64);
      if want.len() > init.len() {
        ctx.nontrivial(hash_u64s(
          succ
            .iter()
            .flat_map(|v| {
              v.iter().map(|x| *x as u64).chain([1 << 40])
            })
            .chain(init.iter().map(|x| *x as u64)),
        ));
      }
      Ok(())
    }
    "fixed" => {
      // A function on 0..n whose iteration from the start ends.
      let n = ctx.rng.spread(1, 40, 2600);
      let mut f: Vec<usize> = (0..n).map(|_| ctx.rng.below(n)).collect();
      let start = ctx.rng.below(n);
      let mut path = vec![start];
      loop {
        let x = *path.last().unwrap();
        if f[x] == x {
          break;
        }
        if path.contains(&f[x]) {
          f[x] = x;
          break;
        }
        path.push(f[x]);
      }
      ctx.note(format!("from {} {:?}", start, f));
      let mut calls = 0u64;
      let got = fixed_point(Nt(start as u32), |x| {
        calls += 1;
        if calls > 100_000 {
          panic!("{}", BUDGET_MSG);
        }
        Nt(f[x.0 as usize] as u32)
      });
      let want = *path.last().unwrap();
      ensure!(
        got.0 as usize == want,
        "the fixed point is {} instead of {}",
        got.0,
        want
      );
      // change_loop: rounds until the first without change.
      let rounds = ctx.rng.spread(0, 12, 2600) as u64;
      let mut seen = 0u64;
      change_loop(|| {
        seen += 1;
        if seen > 100_000 {
          panic!("{}", BUDGET_MSG);
        }
        WasChanged::from_changed(seen != rounds + 1)
      });
      ensure!(
        seen == rounds + 1,
        "a change loop ran {} rounds instead of {}",
        seen,
        rounds + 1
      );
      ctx.count("iterations", path.len() as u64);
      if path.len() > 1 {
        ctx.nontrivial(hash_u64s(
          f.iter().map(|x| *x as u64).chain([start as u64]),
        ));
      }
      Ok(())
    }
    "propagate" => {
      let n = ctx.rng.spread(1, 10, 300);
      let nl = labels(&mut ctx.rng, n);
      let edges: Vec<(u32, u32, u64, u64)> = (0..ctx.rng.range(0, 2 * n))
        .map(|_| {
          let mask = match ctx.rng.below(3) {
            0 => u64::MAX,
            1 => ctx.rng.next(),
            _ => ctx.rng.next() & ctx.rng.next(),
          };
          let gen = if ctx.rng.chance(1, 3) {
            1 << ctx.rng.below(64)
          } else {
            0
          };
          (*ctx.rng.pick(&nl), *ctx.rng.pick(&nl), mask, gen)
        })
        .collect();
      let mut init: BTreeMap<u32, u64> = BTreeMap::new();
      for _ in 0..ctx.rng.below(4) {
        let b =
          if ctx.rng.chance(1, 5) { 0 } else { 1 << ctx.rng.below(64) };
        init.insert(*ctx.rng.pick(&nl), b);
      }
      ctx.note(format!("initial {:?} edges {:x?}", init, edges));
      let mut want = init.clone();
      loop {
        let mut changed = false;
        for (a, b, m, g) in &edges {
          if let Some(v) = want.get(a).copied() {
            let new = v & m | g;
            match want.get_mut(b) {
              None => {
                want.insert(*b, new);
                changed = true;
              }
              Some(x) => {
                if *x | new != *x {
                  *x |= new;
                  changed = true;
                }
              }
            }
          }
        }
        if !changed {
          break;
        }
      }
      let prog = Prog {
        edges: edges.clone(),
        calls: Cell::new(0),
      };
      let mut target: BTreeMap<Nt, Vl64> =
        init.iter().map(|(k, v)| (Nt(*k), Vl64(*v))).collect();
      apply_fixed_point(&prog, &mut target);
      let got: BTreeMap<u32, u64> =
        target.iter().map(|(k, v)| (k.0, v.0)).collect();
      ensure!(
        got == want,
        "the solution is {:x?} instead of {:x?}",
        got,
        want
      );
      ctx.count("propagations", prog.calls.get());
      if want != init {
        ctx.nontrivial(hash_u64s(
          edges
            .iter()
            .flat_map(|e| [e.0 as u64, e.1 as u64, e.2, e.3])
            .chain(init.iter().flat_map(|(k, v)| [*k as u64, *v])),
        ));
      }
      Ok(())
    }
    s => panic!("harness: unknown stream {}", s),
  }
}

// ------------------------------------------------------------------- U03

pub const U03: Prop = Prop {
  id: "U03",
  streams: &[
    st("ops", 8000, 250_000),
    st("pairs", 3000, 80_000),
    st("large", 10, 600),
  ],
  run: u03,
  rule: "random insertions (single, bulk, from another key, from a seed) against a map of sets, every reported change compared; pair merging, change joining and taking the only item; non-trivial: an insertion that changes nothing and one that changes something; distinct by the operations",
};

/// Many keys or many values for one key.
fn u03_large(ctx: &mut Ctx) -> R {
  let cap = *ctx.rng.pick(&[700usize, 2600, 5000, 66_000]);
  let n = ctx.rng.odd_between(9, cap) as u32;
  let per = *ctx.rng.pick(&[1u32, 2, 7, u32::MAX]);
  ctx.note(format!("{} insertions, {} per key", n, per));
  let mut m: CollectMap<Nt, Vl> = CollectMap::new();
  let mut order: Vec<u32> = (0..n).collect();
  if ctx.rng.chance(1, 2) {
    ctx.rng.shuffle(&mut order);
  }
  for i in &order {
    for again in [false, true] {
      let got = m.insert(Nt(i / per), Vl(i % per));
      ensure!(
        (got == WasChanged::Changed) != again,
        "inserting {} for {} reports {:?}",
        i % per,
        i / per,
        got
      );
    }
  }
  // All that is there and one more, anywhere.
  let key = ctx.rng.below((n - 1) as usize / per as usize + 1) as u32;
  let here: Vec<u32> = (0..n).filter(|i| i / per == key).map(|i| i % per).collect();
  let mut more: Vec<Vl> = here.iter().map(|v| Vl(*v)).collect();
  let got = m.insert_iter(Nt(key), more.iter().map(|v| Vl(v.0)).collect::<Vec<_>>());
  ensure!(
    got == WasChanged::Unchanged,
    "inserting {} values again reports a change",
    more.len()
  );
  let at = if ctx.rng.chance(1, 2) {
    more.len()
  } else {
    ctx.rng.range(0, more.len())
  };
  more.insert(at, Vl(u32::MAX));
  let got = m.insert_iter(Nt(key), more);
  ensure!(
    got == WasChanged::Changed,
    "inserting {} values again and a new one reports no change",
    here.len()
  );
  // Copied to a key that has some of it, and again.
  let to = n / per + 5;
  for v in &here {
    if ctx.rng.chance(1, 2) {
      m.insert(Nt(to), Vl(*v));
    }
  }
  for again in [false, true] {
    let got = m.insert_from_key_set(Nt(to), Nt(key));
    ensure!(
      (got == WasChanged::Changed) != again,
      "copying {} values reports {:?}",
      here.len() + 1,
      got
    );
  }
  let mut model: BTreeMap<u32, BTreeSet<u32>> = BTreeMap::new();
  for i in 0..n {
    model.entry(i / per).or_default().insert(i % per);
  }
  for k in [key, to] {
    let s = model.entry(k).or_default();
    s.extend(here.iter().copied());
    s.insert(u32::MAX);
  }
  let got: BTreeMap<u32, BTreeSet<u32>> = m
    .iter()
    .map(|(k, s)| (k.0, s.iter().map(|v| v.0).collect()))
    .collect();
  ensure!(got == model, "not what was put in ({} insertions)", n);
  for (k, s) in &model {
    let got = m.get(&Nt(*k)).map_or(0, |s| s.len());
    ensure!(got == s.len(), "key {} has {} values, not {}", k, got, s.len());
  }
  let pairs: Vec<(Nt, Vl)> =
    order.iter().map(|i| (Nt(i / per), Vl(i % per))).collect();
  let mut merged = 0;
  for (k, s) in merge_value_pairs(pairs) {
    for v in s {
      ensure!(
        k.0 as u64 * per as u64 + (v.0 as u64) < n as u64,
        "a pair that was not there"
      );
      merged += 1;
    }
  }
  ensure!(merged == n, "{} pairs merge to {}", n, merged);
  ctx.hi("most_insertions", n as u64);
  ctx.nontrivial(hash_u64s([n as u64, per as u64, key as u64, at as u64]));
  Ok(())
}

fn u03(ctx: &mut Ctx) -> R {
  if ctx.stream == "pairs" {
    return u03_pairs(ctx);
  }
  if ctx.stream == "large" {
    return u03_large(ctx);
  }
  let nk = ctx.rng.spread(1, 4, 70);
  let nv = ctx.rng.spread(1, 6, 300);
  let mut model: BTreeMap<u32, BTreeSet<u32>> = BTreeMap::new();
  let mut sig = Vec::new();
  let mut m: CollectMap<Nt, Vl> = match ctx.rng.below(3) {
    0 => CollectMap::new(),
    1 => CollectMap::default(),
    _ => {
      let mut seed = BTreeMap::new();
      for k in 0..nk as u32 {
        if ctx.rng.chance(1, 2) {
          let s: BTreeSet<u32> = (0..ctx.rng.spread(0, 2, 2 * nv))
            .map(|_| ctx.rng.below(nv) as u32)
            .collect();
          sig.extend(s.iter().map(|x| *x as u64));
          seed.insert(Nt(k), s.iter().map(|x| Vl(*x)).collect());
          model.insert(k, s);
        }
      }
      CollectMap::from_seed(seed)
    }
  };
  let (mut yes, mut no) = (0, 0);
  for _ in 0..ctx.rng.spread(1, 25, 100) {
    let k = ctx.rng.below(nk) as u32;
    let op = ctx.rng.below(3);
    sig.extend([1 << 40, k as u64, op as u64]);
    let (got, want, what) = match op {
      0 => {
        let v = ctx.rng.below(nv) as u32;
        sig.push(v as u64);
        (
          m.insert(Nt(k), Vl(v)),
          model.entry(k).or_default().insert(v),
          format!("inserting {} for {}", v, k),
        )
      }
      1 => {
        let vs: Vec<u32> = (0..ctx.rng.spread(0, 4, 2 * nv))
          .map(|_| ctx.rng.below(nv) as u32)
          .collect();
        sig.extend(vs.iter().map(|x| *x as u64));
        let set = model.entry(k).or_default();
        let before = set.len();
        set.extend(vs.iter().copied());
        let want = set.len() != before;
        let what = format!("inserting {:?} for {}", vs, k);
        let got = if ctx.rng.chance(1, 2) {
          m.insert_iter(Nt(k), vs.into_iter().map(Vl))
        } else {
          m.insert_iter(Nt(k), vs.iter().map(|v| Vl(*v)).collect::<Vec<_>>())
        };
        (got, want, what)
      }
      _ => {
        let s = ctx.rng.below(nk) as u32;
        sig.push(s as u64);
        let from = model.get(&s).cloned().unwrap_or_default();
        let set = model.entry(k).or_default();
        let before = set.len();
        set.extend(from);
        (
          m.insert_from_key_set(Nt(k), Nt(s)),
          set.len() != before,
          format!("copying from {} to {}", s, k),
        )
      }
    };
    ctx.note(&what);
    ensure!(
      (got == WasChanged::Changed) == want,
      "{} reports {:?}",
      what,
      got
    );
    if want {
      yes += 1;
    } else {
      no += 1;
    }
    ctx.count("insertions", 1);
    u03_same(&m, &model, nk)?;
  }
  if yes > 0 && no > 0 {
    ctx.nontrivial(hash_u64s(sig));
  }
  // All of it.
  let inner: BTreeMap<u32, BTreeSet<u32>> = m
    .into_inner()
    .into_iter()
    .map(|(k, v)| (k.0, v.into_iter().map(|x| x.0).collect()))
    .filter(|(_, v): &(u32, BTreeSet<u32>)| !v.is_empty())
    .collect();
  model.retain(|_, v| !v.is_empty());
  ensure!(
    inner == model,
    "the inner map is {:?} instead of {:?}",
    inner,
    model
  );
  Ok(())
}

fn u03_same(
  m: &CollectMap<Nt, Vl>,
  model: &BTreeMap<u32, BTreeSet<u32>>,
  nk: usize,
) -> R {
  for k in 0..=nk as u32 {
    let got: BTreeSet<u32> = m
      .get(&Nt(k))
      .map(|s| s.iter().map(|v| v.0).collect())
      .unwrap_or_default();
    let want = model.get(&k).cloned().unwrap_or_default();
    ensure!(
      got == want,
      "key {} has {:?} instead of {:?}",
      k,
      got,
      want
    );
  }
  let mut seen = BTreeMap::new();
  for (k, s) in m.iter() {
    let s: BTreeSet<u32> = s.iter().map(|v| v.0).collect();
    ensure!(
      seen.insert(k.0, s).is_none(),
      "iteration yields key {} twice",
      k.0
    );
  }
  seen.retain(|_, v| !v.is_empty());
  let want: BTreeMap<u32, BTreeSet<u32>> = model
    .iter()
    .filter(|(_, v)| !v.is_empty())
    .map(|(k, v)| (*k, v.clone()))
    .collect();
  ensure!(seen == want, "iteration yields {:?}, not {:?}", seen, want);
  Ok(())
}

fn u03_pairs(ctx: &mut Ctx) -> R {
  let n = ctx.rng.spread(0, 19, 1100);
  let pairs: Vec<(u32, u32)> = (0..n)
    .map(|_| (ctx.rng.below(4) as u32, ctx.rng.below(5) as u32))
    .collect();
  ctx.note(format!("{:?}", pairs));
  let mut want: BTreeMap<u32, BTreeSet<u32>> = BTreeMap::new();
  for (k, v) in &pairs {
    want.entry(*k).or_default().insert(*v);
  }
  let got: BTreeMap<u32, BTreeSet<u32>> =
    merge_value_pairs(pairs.iter().map(|(k, v)| (Nt(*k), Vl(*v))))
      .into_iter()
      .map(|(k, v)| (k.0, v.into_iter().map(|x| x.0).collect()))
      .collect();
  ensure!(got == want, "merged to {:?} instead of {:?}", got, want);
  // Change reports.
  let n = if ctx.rng.chance(1, 300) {
    ctx.rng.range(2000, 70_000)
  } else {
    ctx.rng.spread(0, 5, 4200)
  };
  let style = ctx.rng.below(4);
  let mut flags: Vec<bool> =
    (0..n).map(|_| style == 0 && ctx.rng.chance(1, 4)).collect();
  if n > 0 {
    // A single one, anywhere or at the end.
    match style {
      1 => flags[n - 1] = true,
      2 => {
        let i = ctx.rng.below(n);
        flags[i] = true;
      }
      _ => {}
    }
  }
  let any = flags.iter().any(|x| *x);
  let w = |b: bool| {
    if b {
      WasChanged::Changed
    } else {
      WasChanged::Unchanged
    }
  };
  let mut seen = Vec::new();
  let got = change_iter(flags.iter().enumerate(), |(i, f)| {
    seen.push(i);
    WasChanged::from_changed(*f)
  });
  ensure!(
    got == w(any),
    "{} reports, those of change at {:?}, join to {:?}",
    n,
    (0..n).filter(|i| flags[*i]).collect::<Vec<_>>(),
    got
  );
  ensure!(
    seen == (0..flags.len()).collect::<Vec<_>>(),
    "a change iteration visits {:?} of {}",
    seen,
    flags.len()
  );
  let mut acc = WasChanged::Unchanged;
  let mut acc2 = WasChanged::Unchanged;
  for f in &flags {
    acc = acc.join(w(*f));
    acc2.merge(w(*f));
  }
  ensure!(
    acc == w(any) && acc2 == w(any),
    "{} reports (of change: {}) join to {:?}, merge to {:?}",
    n,
    any,
    acc,
    acc2
  );
  for a in [false, true] {
    for b in [false, true] {
      ensure!(w(a).join(w(b)) == w(a || b), "join({}, {})", a, b);
      ensure!(WasChanged::from_changed(a) == w(a), "from_changed({})", a);
    }
  }
  // The only item.
  let want = if pairs.len() == 1 { Some(pairs[0]) } else { None };
  let got = take_only(pairs.iter().copied());
  ensure!(got == want, "the only item of {:?}: {:?}", pairs, got);
  let mut pulled = 0u64;
  let endless = std::iter::from_fn(|| {
    pulled += 1;
    if pulled > 10_000 {
      panic!("{}", BUDGET_MSG);
    }
    Some(1)
  });
  ensure!(take_only(endless).is_none(), "an endless sequence has one item");
  ensure!(
    take_only(std::iter::empty::<u8>()).is_none()
      && take_only(std::iter::once(5)) == Some(5),
    "the only item of none or one"
  );
  ctx.count("pairs", pairs.len() as u64);
  ctx.count("change_reports", flags.len() as u64);
  if pairs.len() > 1 {
    ctx.nontrivial(hash_u64s(
      pairs.iter().map(|(a, b)| (*a * 10 + *b) as u64),
    ));
  }
  Ok(())
}

// ------------------------------------------------------------------- U04

pub const U04: Prop = Prop {
  id: "U04",
  streams: &[st("names", 6000, 200_000), st("crowd", 30, 1500)],
  run: u04,
  rule: "several names and their clones, changed through mutable references in random order, all compared, hashed, printed and converted against strings after each step; non-trivial: a change to a name with clones; distinct by the texts and operations",
};

fn hash_of(x: impl Hash) -> u64 {
  let mut h = std::collections::hash_map::DefaultHasher::new();
  x.hash(&mut h);
  h.finish()
}

/// One name and very many clones of it.
fn u04_crowd(ctx: &mut Ctx) -> R {
  let cap = *ctx.rng.pick(&[70usize, 300, 1100, 5000]);
  let n = ctx.rng.odd_between(9, cap);
  let mut text = ctx.rng.pick(&SPACED).to_string();
  if ctx.rng.chance(1, 3) {
    text += ctx.rng.word();
    text += *ctx.rng.pick(&SPACED);
  }
  if ctx.rng.chance(1, 3) {
    text = text.repeat(ctx.rng.odd_size(2600).max(1));
  }
  ctx.note(format!("{} clones of {:?}", n, &text));
  let mut names: Vec<(Name, String)> = vec![(Name::new(&text), text.clone())];
  for _ in 0..n {
    let i = ctx.rng.below(names.len());
    let c = names[i].clone();
    names.push(c);
    if ctx.rng.chance(1, 1 + n / 6) {
      let i = ctx.rng.below(names.len());
      let (name, s) = &mut names[i];
      match ctx.rng.below(4) {
        0 => {
          name.make_mut().push('+');
          s.push('+');
        }
        1 => {
          name.make_mut().insert(0, ' ');
          s.insert(0, ' ');
        }
        2 => {
          name.make_mut().pop();
          s.pop();
        }
        _ => {
          // Asked for, but not changed.
          let got: &String = name.make_mut();
          ensure!(got == s, "a name to change reads {:?} instead of {:?}", got, s);
        }
      }
      ctx.count("changes", 1);
    }
  }
  for _ in 0..2 {
    for (name, s) in &names {
      ensure!(
        name.str() == s && format!("{}", name) == *s,
        "one of {} names reads {:?} instead of {:?}",
        names.len(),
        name.str(),
        s
      );
    }
    for _ in 0..200 {
      let (a, b) = (ctx.rng.below(names.len()), ctx.rng.below(names.len()));
      let ((x, s), (y, t)) = (&names[a], &names[b]);
      ensure!(
        (x == y) == (s == t) && x.cmp(y) == s.cmp(t),
        "{:?} and {:?} compare as {:?}, equal {}",
        s,
        t,
        x.cmp(y),
        x == y
      );
      ctx.count("pairs_compared", 1);
    }
    // Fewer of them, from any end.
    for _ in 0..names.len() / 2 {
      let i = ctx.rng.below(names.len());
      names.swap_remove(i);
    }
    let i = ctx.rng.below(names.len());
    names[i].0.make_mut().push('!');
    names[i].1.push('!');
  }
  ctx.hi("most_clones", n as u64);
  let end = names.iter().fold(0, |h, x| hash_u64s([h, hash_str(&x.1)]));
  ctx.nontrivial(hash_u64s([n as u64, hash_str(&text), end]));
  Ok(())
}

/// With white space and the like where it is easily lost.
const SPACED: [&str; 10] = [
  "a ", " a", "a\n", "\ta", " ", "\r\n", "a\u{0}", "\u{feff}a", "e\u{301}", "\u{a0}x\u{3000}",
];

fn u04(ctx: &mut Ctx) -> R {
  if ctx.stream == "crowd" {
    return u04_crowd(ctx);
  }
  let fixed = ["", "a", "ab", "b", "é", "名前", "a b", "A", "\"q\"", "x\ny"];
  let mut pool: Vec<String> = fixed.iter().map(|s| s.to_string()).collect();
  for _ in 0..2 {
    pool.push(ctx.rng.word().to_string());
    let t = *ctx.rng.pick(&SPACED);
    if !t.contains(['\n', '\r']) {
      pool.push(t.to_string());
    }
    // Texts that agree for long.
    let mut s = pool[ctx.rng.below(pool.len())].repeat(ctx.rng.odd_size(300));
    pool.push(s.clone());
    s.push('x');
    pool.push(s);
  }
  let mut names: Vec<(Name, String, usize)> = Vec::new();
  let mut sig = Vec::new();
  let mut origin = 0;
  let mut shared_change = false;
  for _ in 0..ctx.rng.range(2, 16) {
    let op = ctx.rng.below(6);
    sig.push(op as u64);
    match op {
      0 | 1 => {
        let s = ctx.rng.pick(&pool).to_string();
        sig.push(hash_str(&s));
        let n = match ctx.rng.below(4) {
          0 => Name::new(&s),
          1 => Name::new(s.as_str()),
          2 => Name::new(&std::borrow::Cow::Borrowed(s.as_str())),
          _ => Name::new(&Name::new(&s)),
        };
        origin += 1;
        names.push((n, s, origin));
      }
      2 | 3 if !names.is_empty() => {
        let i = ctx.rng.below(names.len());
        sig.push(i as u64);
        let c = names[i].clone();
        names.push(c);
      }
      4 if !names.is_empty() => {
        let i = ctx.rng.below(names.len());
        sig.push(i as u64);
        let o = names[i].2;
        shared_change |= names.iter().filter(|x| x.2 == o).count() > 1;
        let (n, s, _) = &mut names[i];
        match ctx.rng.below(3) {
          0 => {
            n.make_mut().push('+');
            s.push('+');
          }
          1 => {
            n.make_mut().clear();
            s.clear();
          }
          _ => {
            let w = ctx.rng.pick(&pool).clone();
            *n.make_mut() = w.clone();
            *s = w;
          }
        }
        ctx.count("changes", 1);
      }
      _ => {
        if names.len() > 6 {
          let i = ctx.rng.below(names.len());
          names.swap_remove(i);
        }
      }
    }
    for (n, s, _) in &names {
      ensure!(n.str() == s, "a name reads {:?} instead of {:?}", n.str(), s);
      let r: &str = n.as_ref();
      ensure!(r == s, "a name converts to {:?}, not {:?}", r, s);
      ensure!(
        format!("{}", n) == *s && format!("{:?}", n) == *s,
        "{:?} prints as {} and {:?}",
        s,
        n,
        n
      );
      if !s.contains('\n') {
        ensure!(doc_text(n) == *s, "{:?} as a document: {}", s, doc_text(n));
      }
      ensure!(
        hash_of(n) == hash_of(s.as_str()),
        "{:?} does not hash as its text",
        s
      );
      for (m, t, _) in &names {
        ensure!(
          (n == m) == (s == t)
            && n.cmp(m) == s.cmp(t)
            && n.partial_cmp(m) == s.partial_cmp(t)
            && (n < m) == (s < t),
          "{:?} and {:?} compare as {:?}, equal {}",
          s,
          t,
          n.cmp(m),
          n == m
        );
        ctx.count("pairs_compared", 1);
      }
    }
  }
  if shared_change {
    ctx.nontrivial(hash_u64s(sig));
  }
  Ok(())
}

// ------------------------------------------------------------------- U05

pub const U05: Prop = Prop {
  id: "U05",
  streams: &[st("fmt", 3000, 80_000)],
  run: u05,
  rule: "random sequences of items (numbers, texts, nested lists) formatted as list, set, tuple and structure, plain and pretty, against the formatter of the standard library; non-trivial: at least one item; distinct by the items",
};

/// Prints its text as it is.
#[derive(Clone)]
struct Raw(String);
impl std::fmt::Debug for Raw {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.write_str(&self.0)
  }
}

fn u05(ctx: &mut Ctx) -> R {
  let n = if ctx.rng.chance(1, 200) {
    ctx.rng.odd_between(600, 5000)
  } else {
    ctx.rng.spread(0, 5, 600)
  };
  let mut items: Vec<(String, i64, Vec<u8>)> = (0..n)
    .map(|i| {
      (
        if ctx.rng.chance(1, 5) {
          ctx.rng.word().to_string()
        } else {
          format!("f{}{}", i, ctx.rng.pick(&["", "x", "_y"]))
        },
        ctx.rng.below(2000) as i64 - 1000,
        (0..ctx.rng.below(3)).map(|_| ctx.rng.below(256) as u8).collect(),
      )
    })
    .collect();
  // Some are there again, next to each other or not.
  for _ in 0..ctx.rng.below(3).min(n) {
    let (i, j) = (ctx.rng.below(n), ctx.rng.below(n));
    let j = if ctx.rng.chance(1, 2) { (i + 1) % n } else { j };
    items[j] = items[i].clone();
  }
  ctx.note(format!("{:?}", items));
  let name = if ctx.rng.chance(1, 4) {
    ctx.rng.word()
  } else {
    *ctx.rng.pick(&["", "Name", "Two Words"])
  };
  struct L<'a>(&'a [(String, i64, Vec<u8>)], &'a str, u8);
  impl std::fmt::Debug for L<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
      match self.2 {
        0 => f.debug_list().entries(self.0.iter()).finish(),
        1 => f.debug_set().entries(self.0.iter()).finish(),
        2 => {
          let mut t = f.debug_tuple(self.1);
          for x in self.0 {
            t.field(x);
          }
          t.finish()
        }
        _ => {
          let mut t = f.debug_struct(self.1);
          for x in self.0 {
            t.field(&x.0, &x.2);
          }
          t.finish()
        }
      }
    }
  }
  let check = |got: (String, String), kind: u8| -> R {
    let l = L(&items, name, kind);
    let want = (format!("{:?}", l), format!("{:#?}", l));
    ensure!(got == want, "printed {:?} instead of {:?}", got, want);
    Ok(())
  };
  let p = |d: &dyn std::fmt::Debug| {
    // Printing must not use anything up.
    let _ = format!("{:?}", d);
    (format!("{:?}", d), format!("{:#?}", d))
  };
  check(p(&list_fmt(items.iter())), 0)?;
  check(p(&set_fmt(items.clone())), 1)?;
  check(p(&tuple_fmt(name, items.iter())), 2)?;
  check(p(&struct_fmt(name, items.iter().map(|x| (&x.0, &x.2)))), 3)?;
  ctx.count("printed", 8);
  // Items that print as they like, and items that are such lists themselves.
  let raw: Vec<Raw> = items
    .iter()
    .map(|x| {
      let a = if ctx.rng.chance(1, 2) { &x.0[..] } else { *ctx.rng.pick(&SPACED) };
      Raw(format!("{}{}", a, ctx.rng.pick(&["", ",", "}", "\n", "\n\n b", "(", "]"])))
    })
    .collect();
  let both = |d: &dyn std::fmt::Debug| (format!("{:?}", d), format!("{:#?}", d));
  struct T<'a>(&'a str, &'a [Raw]);
  impl std::fmt::Debug for T<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
      let mut t = f.debug_tuple(self.0);
      for x in self.1 {
        t.field(x);
      }
      t.finish()
    }
  }
  struct S<'a>(&'a str, &'a [Raw]);
  impl std::fmt::Debug for S<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
      let mut t = f.debug_struct(self.0);
      for x in self.1 {
        t.field(&x.0, &T(&x.0, self.1.get(..2).unwrap_or(&[])));
      }
      t.finish()
    }
  }
  struct Set<'a>(&'a [Raw]);
  impl std::fmt::Debug for Set<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
      f.debug_set().entries(self.0).finish()
    }
  }
  // A list within a list.
  struct Inner<'a>(&'a [Raw]);
  impl std::fmt::Debug for Inner<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
      list_fmt(self.0.iter()).fmt(f)
    }
  }
  let few = raw.get(..2).unwrap_or(&[]);
  for (got, want) in [
    (both(&list_fmt(raw.iter())), both(&raw)),
    (both(&set_fmt(raw.iter())), both(&Set(&raw))),
    (both(&tuple_fmt(name, raw.iter())), both(&T(name, &raw))),
    (
      both(&struct_fmt(
        name,
        raw.iter().map(|x| (&x.0, tuple_fmt(&x.0, few.iter()))),
      )),
      both(&S(name, &raw)),
    ),
    (
      both(&list_fmt([Inner(&raw), Inner(few)].iter())),
      both(&vec![&raw[..], few]),
    ),
  ] {
    ensure!(got == want, "printed {:?} instead of {:?}", got, want);
    ctx.count("printed", 2);
  }
  if n > 0 {
    ctx.nontrivial(hash_str(&format!("{:?}", items)));
  }
  Ok(())
}
