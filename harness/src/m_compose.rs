//! P01: grammars made by the library are grammars like any other.

use crate::core::*;
use crate::desc::*;
use crate::m_earley::{unsound, Chart, Derivs, Forest, Tok};
use crate::m_earley::{all_strings, alphabet, give_values, mutate, sentence};
use crate::m_grammar::match_pretty;
use crate::sy::*;
use bongo::grammar::passes::firsts::Firsts;
use bongo::grammar::passes::nullable::Nullable;
use bongo::grammar::passes::PassContext;
use bongo::grammar::transform::nonnull::transform_to_nonnull;
use bongo::grammar::{Elem, Grammar};
use bongo::parsers::earley::parse;
use bongo::parsers::tree::TreeOwner;
use bongo::parsers::Token;
use bongo::start_grammar::{
  wrap_grammar_with_start, StartNonTerminal, StreamTerminal,
};
use bongo::utils::ToDoc;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

pub const P01: Prop = Prop {
  id: "P01",
  streams: &[
    st("tiny2", 1500, 40_000),
    st("friendly", 2500, 80_000),
    st("nully", 1500, 40_000),
    st("small", 800, 20_000),
    st("medium", 300, 8000),
  ],
  run: p01,
  rule: "random grammars, wrapped and transformed up to three times in all orders; each result is read back and judged as a grammar of its own (analyses, printed form, parses), and its parses are compared with derivations of the original; non-trivial: something is nullable; distinct by rule structure",
};

/// A symbol of a made grammar as a number, and back.
trait Label: Ord + Clone + Debug + ToDoc + 'static {
  fn label(&self) -> u32;
  fn from_label(n: u32) -> Self;
}
/// Labels of the added symbols: of the outermost wrapper the highest.
const ADDED: u32 = 4_000_000_000;
impl Label for Tm {
  fn label(&self) -> u32 {
    self.0
  }
  fn from_label(n: u32) -> Self {
    Tm(n)
  }
}
impl Label for Nt {
  fn label(&self) -> u32 {
    self.0
  }
  fn from_label(n: u32) -> Self {
    Nt(n)
  }
}
trait Depth {
  const DEPTH: u32;
}
impl Depth for Tm {
  const DEPTH: u32 = 0;
}
impl Depth for Nt {
  const DEPTH: u32 = 0;
}
impl<X: Depth> Depth for StreamTerminal<X> {
  const DEPTH: u32 = X::DEPTH + 1;
}
impl<X: Depth> Depth for StartNonTerminal<X> {
  const DEPTH: u32 = X::DEPTH + 1;
}
impl<X: Label + Depth> Label for StreamTerminal<X> {
  fn label(&self) -> u32 {
    match self {
      StreamTerminal::Term(t) => t.label(),
      StreamTerminal::EndOfStream => ADDED + Self::DEPTH,
    }
  }
  fn from_label(n: u32) -> Self {
    if n == ADDED + Self::DEPTH {
      StreamTerminal::EndOfStream
    } else {
      StreamTerminal::Term(X::from_label(n))
    }
  }
}
impl<X: Label + Depth> Label for StartNonTerminal<X> {
  fn label(&self) -> u32 {
    match self {
      StartNonTerminal::NTerm(t) => t.label(),
      StartNonTerminal::Start => ADDED + Self::DEPTH,
    }
  }
  fn from_label(n: u32) -> Self {
    if n == ADDED + Self::DEPTH {
      StartNonTerminal::Start
    } else {
      StartNonTerminal::NTerm(X::from_label(n))
    }
  }
}

/// The grammar as it reports itself. Action keys are numbered.
fn reading<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>) -> (Desc, Vec<AK>)
where
  T: Label,
  NT: Label,
  AK: Ord + Clone,
{
  let mut keys: Vec<AK> = Vec::new();
  let mut rules = Vec::new();
  for r in g.rules() {
    let mut prods = Vec::new();
    for p in r.prods() {
      let k = p.action_key();
      let ak = keys.iter().position(|x| x == k).unwrap_or_else(|| {
        keys.push(k.clone());
        keys.len() - 1
      });
      prods.push(PD {
        ak: ak as u32,
        av: 0,
        elems: p
          .prod_elements()
          .iter()
          .map(|e| ED {
            id: e.id().map(|n| n.str().to_string()),
            s: match e.elem() {
              Elem::Term(t) => S::T(t.label()),
              Elem::NonTerm(n) => S::N(n.label()),
            },
          })
          .collect(),
      });
    }
    rules.push(RD {
      head: r.head().label(),
      prods,
    });
  }
  (
    Desc {
      start: g.start_nt().label(),
      rules,
    },
    keys,
  )
}

/// What is known of an input from the original grammar.
struct Known {
  toks: Vec<Tok>,
  accepted: bool,
  /// The number of derivations, or that there are infinitely many. Not
  /// counted where there are too many.
  trees: Option<Result<u128, ()>>,
}

fn total(f: &Forest) -> Option<Result<u128, ()>> {
  if f.cyclic() {
    return Some(Err(()));
  }
  let c = f.counts(400);
  let n = *c.last()?;
  (n < 1 << 90 && c.len() <= 400).then_some(Ok(n))
}

/// The derivations that matter to a comparison: those of the whole input.
fn derivations(d: &Desc, c: &Chart) -> Option<Result<u128, ()>> {
  let _ = d;
  let f = Derivs::new(c, 3000)?.forest().trimmed();
  total(&f)
}

struct Made<'c> {
  /// How it was made, and of what.
  how: &'static str,
  ended: u32,
  nonempty: bool,
  known: &'c [Known],
}

fn judge<T, NT, AK, AV>(
  ctx: &mut Ctx,
  g: &Grammar<T, NT, AK, AV>,
  made: &Made,
) -> R
where
  T: Label,
  NT: Label,
  AK: Ord + Clone + Debug + ToDoc + 'static,
  AV: Clone + ToDoc,
{
  let how = made.how;
  let (d, keys) = reading(g);
  ctx.count("grammars_judged", 1);
  let at = |m: String| format!("{}: {}", how, m);
  // Analyses.
  let null = d.nullable();
  let ambiguous = d.null_ambiguous();
  {
    let pc = PassContext::new(g);
    match guard(|| pc.get_pass::<Nullable<NT, AK>>()) {
      Err(m) => return Err(at(format!("the nullable analysis panics: {}", m))),
      Ok(Err(e)) => {
        ensure!(ambiguous, "{}: the nullable analysis fails: {}", how, e)
      }
      Ok(Ok(n)) => {
        ensure!(!ambiguous, "{}: an ambiguity is not found", how);
        let got: BTreeSet<u32> =
          n.get_nullable_set().iter().map(|n| n.label()).collect();
        ensure!(got == null, "{}: nullable {:?}, is {:?}", how, got, null);
        if made.nonempty && made.ended == 0 {
          ensure!(got.is_empty(), "{}: still nullable: {:?}", how, got);
        }
      }
    }
    match guard(|| pc.get_pass::<Firsts<T, NT>>()) {
      Err(m) => return Err(at(format!("the first analysis panics: {}", m))),
      Ok(Err(e)) => {
        ensure!(ambiguous, "{}: the first analysis fails: {}", how, e)
      }
      Ok(Ok(f)) => {
        for (n, want) in d.first() {
          let got: BTreeSet<u32> = f
            .get(&NT::from_label(n))
            .map(|s| s.iter().map(|t| t.label()).collect())
            .unwrap_or_default();
          ensure!(
            got == want,
            "{}: first set of {} {:?}, is {:?}",
            how,
            n,
            got,
            want
          );
          ctx.count("sets_compared", 1);
        }
      }
    }
    #[cfg(bongo_verif)]
    {
      use bongo::grammar::passes::follows::Follows;
      match guard(|| pc.get_pass::<Follows<T, NT>>()) {
        Err(m) => {
          return Err(at(format!("the follow analysis panics: {}", m)))
        }
        Ok(Err(e)) => {
          ensure!(ambiguous, "{}: the follow analysis fails: {}", how, e)
        }
        Ok(Ok(f)) => {
          for (n, want) in d.follow() {
            let got: BTreeSet<u32> = f
              .verif_get(&NT::from_label(n))
              .map(|s| s.iter().map(|t| t.label()).collect())
              .unwrap_or_default();
            ensure!(
              got == want,
              "{}: follow set of {} {:?}, is {:?}",
              how,
              n,
              got,
              want
            );
            ctx.count("sets_compared", 1);
          }
        }
      }
    }
  }
  // Printed form. Numbers of added symbols are as high as their order is low.
  if d.prods().all(|(_, p)| p.elems.iter().all(|e| printable(e))) {
    let mut order: Vec<u32> = d.heads().into_iter().collect();
    order.sort_by_key(|n| if *n > ADDED { (0, u32::MAX - n) } else { (1, *n) });
    let text = guard(|| g.to_pretty())
      .map_err(|m| at(format!("printing panics: {}", m)))?;
    match_pretty(
      &text,
      &d,
      &order,
      &|n| {
        if n > ADDED {
          "<START>".into()
        } else {
          format!("n{}", n)
        }
      },
      &|t| {
        if t > ADDED {
          "<EOS>".into()
        } else {
          format!("t{}", t)
        }
      },
    )
    .map_err(|e| at(format!("printed as {}\n{}", e, text)))?;
    ctx.count("texts_matched", 1);
  }
  // Parses.
  let w = match guard(|| wrap_grammar_with_start(g.clone())) {
    Ok(Ok(w)) => w,
    Ok(Err(_)) => return Err(at("it cannot be wrapped".into())),
    Err(m) => return Err(at(format!("wrapping panics: {}", m))),
  };
  for k in made.known {
    let mut toks = k.toks.clone();
    for i in 0..made.ended {
      toks.push((ADDED + 1 + i, 7));
    }
    let expected = k.accepted && !(made.nonempty && k.toks.is_empty());
    let chart = Chart::new(&d, &toks);
    ensure!(
      chart.accepts() == expected,
      "{}: its rules {} the tokens {:?}, the original {}",
      how,
      if expected { "do not derive" } else { "derive" },
      toks,
      if expected { "does" } else { "does not" }
    );
    let derivs = if expected { Derivs::new(&chart, 3000) } else { None };
    if expected && derivs.is_none() {
      ctx.count("too_many_derivations", 1);
      continue;
    }
    let owner: TreeOwner<T, AK, Vl> = TreeOwner::new();
    let tokens: Vec<Token<T, Vl>> = toks
      .iter()
      .map(|(k, v)| Token::new(T::from_label(*k), Vl(*v)))
      .collect();
    let read = guard(|| {
      parse(&w, &owner.handle(), tokens).map(|n| {
        Forest::read_as(
          &n,
          100_000,
          &|t: T| t.label(),
          &|k: AK| {
            keys.iter().position(|x| *x == k).unwrap_or(usize::MAX >> 40) as u32
          },
          &|v: &Vl| v.0,
        )
      })
    })
    .map_err(|m| at(format!("parsing {:?} panics: {}", toks, m)))?;
    ctx.count("parses", 1);
    ensure!(
      read.is_some() == expected,
      "{}: parsing {:?} returns {}",
      how,
      toks,
      if expected { "no tree" } else { "a tree" }
    );
    let Some(Some(f)) = read else { continue };
    let f = f.trimmed();
    let n = unsound(&d, &toks, &f).map_err(|m| at(format!("{:?}: {}", toks, m)))?;
    ctx.count("typed_spans_checked", n);
    let own = derivs.and_then(|x| total(&x.forest().trimmed()));
    let got = total(&f);
    if let (Some(x), Some(y)) = (own, got) {
      ensure!(
        x == y,
        "{}: {:?} has {} derivations but the forest holds {}",
        how,
        toks,
        shown(x),
        shown(y)
      );
      ctx.count("counts_compared", 1);
    }
    if let (Some(x), Some(y)) = (k.trees, got) {
      ensure!(
        x == y,
        "{}: {:?} has {} trees, with the original {}",
        how,
        toks,
        shown(y),
        shown(x)
      );
      ctx.count("counts_compared_with_the_original", 1);
    }
  }
  Ok(())
}

fn shown(x: Result<u128, ()>) -> String {
  x.map_or("infinitely many".into(), |n| n.to_string())
}

fn printable(e: &ED) -> bool {
  e.id.as_ref().map_or(true, |i| !i.contains(['\n', '\r']) && i.trim() == i)
}

/// The productions of each head without their keys, in no order.
fn bodies(d: &Desc) -> BTreeMap<u32, Vec<String>> {
  d.rules
    .iter()
    .map(|r| {
      let mut v: Vec<String> =
        r.prods.iter().map(|p| format!("{:?}", p.elems)).collect();
      v.sort();
      (r.head, v)
    })
    .collect()
}

fn again<T, NT, AK, AV>(
  how: &str,
  g: &Grammar<T, NT, AK, AV>,
) -> R
where
  T: Label,
  NT: Label,
  AK: Ord + Clone + Debug + ToDoc + 'static,
  AV: Clone + ToDoc,
{
  let h = guard(|| transform_to_nonnull(g))
    .map_err(|m| format!("{}: transforming again panics: {}", how, m))?
    .map_err(|e| format!("{}: it cannot be transformed again: {}", how, e))?;
  let (x, y) = (bodies(&reading(g).0), bodies(&reading(&h).0));
  ensure!(
    x == y,
    "{}: transforming again makes {:?} of {:?}",
    how,
    y,
    x
  );
  Ok(())
}

fn p01(ctx: &mut Ctx) -> R {
  let d = if ctx.stream == "friendly" {
    crate::m_analysis::gen_friendly(&mut ctx.rng)
  } else {
    gen_stream(ctx)
  };
  ctx.note(d.text());
  let null = d.nullable();
  let many = d.prods().any(|(_, p)| {
    p.elems
      .iter()
      .filter(|e| matches!(e.s, S::N(n) if null.contains(&n)))
      .count()
      > 5
  });
  if many || d.prods().any(|(_, p)| p.elems.len() > 9) {
    ctx.count("too_long", 1);
    return Ok(());
  }
  let Ok(g) = d.built() else {
    ctx.count("skipped", 1);
    return Ok(());
  };
  let rng = &mut ctx.rng;
  let mut inputs: Vec<Vec<u32>> = Vec::new();
  let a = alphabet(&d);
  if ctx.stream == "tiny2" {
    inputs = all_strings(&a, 2);
  } else {
    inputs.push(vec![]);
    for _ in 0..3 {
      let target = rng.range(0, 6);
      if let Some(mut s) = sentence(rng, &d, target) {
        if s.len() <= 9 {
          inputs.push(s.clone());
          mutate(rng, &mut s, &a);
          inputs.push(s);
        }
      }
    }
  }
  let mut known = Vec::new();
  for s in inputs {
    let toks = give_values(rng, &s);
    let c = Chart::new(&d, &toks);
    known.push(Known {
      accepted: c.accepts(),
      trees: if c.accepts() { derivations(&d, &c) } else { Some(Ok(0)) },
      toks,
    });
  }
  let amb = d.null_ambiguous();
  let only_empty =
    d.rules.iter().any(|r| r.prods.iter().all(|p| p.elems.is_empty()));
  let made = |how, ended, nonempty| Made {
    how,
    ended,
    nonempty,
    known: &known,
  };
  macro_rules! tr {
    ($how:literal, $g:expr) => {
      match guard(|| transform_to_nonnull(&$g)) {
        Ok(Ok(h)) => h,
        Ok(Err(e)) => {
          return Err(format!("{} cannot be transformed: {}", $how, e))
        }
        Err(m) => {
          return Err(format!("{}: transforming it panics: {}", $how, m))
        }
      }
    };
  }
  macro_rules! wr {
    ($how:literal, $g:expr) => {
      match guard(|| wrap_grammar_with_start($g)) {
        Ok(Ok(h)) => h,
        Ok(Err(_)) => return Err(format!("{} cannot be wrapped", $how)),
        Err(m) => return Err(format!("{}: wrapping it panics: {}", $how, m)),
      }
    };
  }
  let kind = ctx.idx % 3;
  let w = wr!("the grammar", g.clone());
  judge(ctx, &w, &made("wrapped", 1, false))?;
  if amb {
    ctx.count("ambiguous", 1);
    ensure!(
      guard(|| transform_to_nonnull(&w).is_err()).unwrap_or(false),
      "wrapped: transformed, though an empty derivation is ambiguous"
    );
  }
  if kind == 0 || amb || only_empty {
    let ww = wr!("wrapped", w.clone());
    judge(ctx, &ww, &made("wrapped twice", 2, false))?;
  }
  if !amb && !only_empty {
    let n = tr!("the grammar", g);
    let (nd, _) = reading(&n);
    ensure!(
      nd.nullable().is_empty(),
      "transformed: {:?} can be empty",
      nd.nullable()
    );
    judge(ctx, &n, &made("transformed", 0, true))?;
    again("transformed", &n)?;
    let wn = wr!("transformed", n.clone());
    again("transformed, wrapped", &wn)?;
    let nw = tr!("wrapped", w);
    judge(ctx, &nw, &made("wrapped, transformed", 1, false))?;
    match kind {
      0 => {
        judge(ctx, &wn, &made("transformed, wrapped", 1, true))?;
        let nn = tr!("transformed", n);
        judge(ctx, &nn, &made("transformed twice", 0, true))?;
      }
      1 => {
        let nwn = tr!("transformed, wrapped", wn);
        judge(
          ctx,
          &nwn,
          &made("transformed, wrapped, transformed", 1, true),
        )?;
      }
      _ => {
        let wnw = wr!("wrapped, transformed", nw);
        judge(
          ctx,
          &wnw,
          &made("wrapped, transformed, wrapped", 2, false),
        )?;
      }
    }
    ctx.count("transformed", 1);
  }
  if !null.is_empty() {
    ctx.nontrivial(d.sig());
  }
  Ok(())
}
