//! A01-A05 and X01: grammar analyses and the nonnull transform.

use crate::core::*;
use crate::desc::*;
use crate::sy::*;
use bongo::grammar::passes::firsts::Firsts;
use bongo::grammar::passes::follows::Follows;
use bongo::grammar::passes::nullable::Nullable;
use bongo::grammar::passes::{Pass, PassContext};
use bongo::grammar::transform::nonnull::transform_to_nonnull;
use bongo::grammar::{Elem, ProdKey};
use bongo::start_grammar::{
  wrap_grammar_with_start, StartNonTerminal, StreamTerminal,
};
use bongo::utils::{Name, ToDoc, TreeNode, TreeValue, Void};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub fn doc_text(x: &impl ToDoc) -> String {
  let arena: pretty::Arena<()> = pretty::Arena::new();
  format!("{}", x.to_doc(&arena).into_doc().pretty(10_000))
}

// ------------------------------------------------------------------- A01

pub const A01: Prop = Prop {
  id: "A01",
  streams: &[
    st("tiny1", 400, 400),
    st("tiny2", 6000, 60_000),
    st("tiny3", 6000, 200_000),
    st("nully", 8000, 200_000),
    st("medium", 2500, 60_000),
    st("chain", 300, 3000),
    st("wide", 300, 3000),
    st("big", 150, 2500),
    st("sizes", 6, 400),
  ],
  run: a01,
  rule: "exhaustive tiny grammars, random grammars rich in empty productions, chains in adverse order; compared with a least fixed point; non-trivial: something is nullable and not everything is; distinct by rule structure",
};

fn a01(ctx: &mut Ctx) -> R {
  let d = gen_stream(ctx);
  ctx.note(d.text());
  let null = d.nullable();
  if d.null_ambiguous() {
    ctx.count("ambiguous_not_judged", 1);
    return Ok(());
  }
  let Ok(g) = d.built() else {
    ctx.count("skipped", 1);
    return Ok(());
  };
  if !null.is_empty() && null.len() < d.rules.len() {
    ctx.nontrivial(d.sig());
  }
  let pc = PassContext::new(&g);
  let n = pc
    .get_pass::<Nullable<Nt, Ak>>()
    .map_err(|e| format!("the analysis failed: {}", e))?;
  let info = n.get_nullable_info();
  for h in d.heads() {
    let exp = null.contains(&h);
    ensure!(
      n.is_nullable(&Nt(h)) == exp && info.is_nullable(&Nt(h)) == exp,
      "is_nullable(n{}) is not {}",
      h,
      exp
    );
    ensure!(
      info.get_nullable_action(&Nt(h)).is_some() == exp,
      "n{} nullable is {}, but has{} an empty derivation",
      h,
      exp,
      if exp { " not" } else { "" }
    );
    ctx.count("nonterminals_compared", 1);
  }
  for r in &d.rules {
    for (p, pd) in g.get_rule(&Nt(r.head)).prods().zip(&r.prods) {
      let exp = prod_nullable(pd, &null);
      ensure!(
        n.is_prod_nullable(&p) == exp && info.is_prod_nullable(&p) == exp,
        "is_prod_nullable(k{} of n{}) is not {}",
        pd.ak,
        r.head,
        exp
      );
      ctx.count("productions_compared", 1);
    }
  }
  let set: BTreeSet<u32> =
    n.get_nullable_set().into_iter().map(|n| n.0).collect();
  let set2: BTreeSet<u32> =
    info.get_nullable_set().into_iter().map(|n| n.0).collect();
  ensure!(
    set == null && set2 == null,
    "nullable set {:?}, is {:?}",
    set,
    null
  );
  ensure!(
    !n.is_nullable(&Nt(987_654_321)),
    "an unknown nonterminal is nullable"
  );
  ctx.count("nullables", null.len() as u64);
  Ok(())
}

// ------------------------------------------------------------------- A02

pub const A02: Prop = Prop {
  id: "A02",
  streams: &[
    st("tiny1", 400, 400),
    st("tiny2", 6000, 60_000),
    st("tiny3", 6000, 200_000),
    st("nully", 8000, 200_000),
    st("deep", 3000, 60_000),
    st("chain", 300, 2500),
    st("big", 100, 2000),
    st("sizes", 6, 400),
  ],
  run: a02,
  rule: "exhaustive tiny grammars and random ones with (un)ambiguous empty derivations and named elements, dependency chains in adverse order; the reported derivation is compared with a reference one; non-trivial: ambiguous, or a nullable nonterminal uses another; distinct by rule structure",
};

pub type NullTree = TreeNode<ProdKey<Nt, Ak>, Void>;

/// The only empty derivations, from the description. Not ambiguous.
pub fn null_trees(d: &Desc, g: &G) -> BTreeMap<u32, NullTree> {
  let null = d.nullable();
  let mut out: BTreeMap<u32, NullTree> = BTreeMap::new();
  // In order of dependency.
  while out.len() < null.len() {
    let before = out.len();
    for r in &d.rules {
      if out.contains_key(&r.head) || !null.contains(&r.head) {
        continue;
      }
      let (i, pd) = r
        .prods
        .iter()
        .enumerate()
        .find(|(_, p)| prod_nullable(p, &null))
        .unwrap();
      let ready = pd.elems.iter().all(|e| match e.s {
        S::N(n) => out.contains_key(&n),
        S::T(_) => false,
      });
      if !ready {
        continue;
      }
      let key = g.get_rule(&Nt(r.head)).prods().nth(i).unwrap().prod_key();
      let mut params: BTreeMap<Name, TreeValue<ProdKey<Nt, Ak>, Void>> =
        BTreeMap::new();
      for e in &pd.elems {
        if let (Some(id), S::N(n)) = (&e.id, e.s) {
          params
            .insert(Name::new(id), TreeValue::Node(Box::new(out[&n].clone())));
        }
      }
      out.insert(r.head, TreeNode::new(key, params));
    }
    assert!(out.len() > before, "harness: empty derivation is not unique");
  }
  out
}

/// Layers of nullable nonterminals, each used at most a few times (a tree
/// would otherwise explode), labels in adverse order.
fn gen_deep(rng: &mut Rng) -> Desc {
  let n = rng.range(3, 14);
  let nl = labels(rng, n);
  let mut rules = Vec::new();
  for i in 0..n {
    let mut elems = Vec::new();
    if i + 1 < n {
      elems.push(ED::new(S::N(nl[i + 1])));
      let extra = rng.range(0, 2);
      for _ in 0..extra {
        let j = rng.range(i + 1, n - 1);
        if j >= n.saturating_sub(4) {
          elems.push(ED::new(S::N(nl[j])));
        }
      }
      rng.shuffle(&mut elems);
    }
    add_ids(rng, &mut elems, 65);
    let mut prods = vec![PD {
      ak: 0,
      av: 0,
      elems,
    }];
    if rng.chance(1, 3) {
      let mut elems = vec![
        ED::new(S::T(1)),
        ED::new(S::N(*rng.pick(&nl))),
        ED::new(S::N(*rng.pick(&nl))),
      ];
      add_ids(rng, &mut elems, 50);
      let at = rng.range(0, prods.len());
      prods.insert(
        at,
        PD {
          ak: 0,
          av: 0,
          elems,
        },
      );
    }
    rules.push(RD { head: nl[i], prods });
  }
  if rng.chance(1, 3) {
    // Another way to be empty, somewhere deep.
    let i = rng.below(n);
    let to = *rng.pick(&nl);
    let mut elems = vec![ED::new(S::N(to))];
    if rng.chance(1, 2) {
      elems.clear();
    }
    rules[i].prods.push(PD {
      ak: 0,
      av: 0,
      elems,
    });
  }
  let mut d = Desc {
    start: nl[0],
    rules,
  };
  d.prune();
  finish(rng, &mut d);
  d
}

fn a02(ctx: &mut Ctx) -> R {
  let d = if ctx.stream == "deep" {
    gen_deep(&mut ctx.rng)
  } else {
    gen_stream(ctx)
  };
  ctx.note(d.text());
  let Ok(g) = d.built() else {
    ctx.count("skipped", 1);
    return Ok(());
  };
  let null = d.nullable();
  let amb = d.null_ambiguous();
  let pc = PassContext::new(&g);
  let res = pc.get_pass::<Nullable<Nt, Ak>>();
  if amb {
    ctx.nontrivial(d.sig());
    ctx.count("ambiguous", 1);
    ensure!(
      res.is_err(),
      "no error, though an empty derivation is ambiguous"
    );
    return Ok(());
  }
  let n = res.map_err(|e| {
    format!("error, though all empty derivations are unique: {}", e)
  })?;
  let exp = null_trees(&d, &g);
  let info = n.get_nullable_info();
  let mut nested = false;
  for r in &d.rules {
    let got = info.get_nullable_action(&Nt(r.head));
    match (got, exp.get(&r.head)) {
      (None, None) => {}
      (Some(a), Some(b)) => {
        ensure!(
          a == b,
          "empty derivation of n{}: {:?}, is {:?}",
          r.head,
          a,
          b
        );
        ctx.count("derivations_compared", 1);
        nested |= format!("{:?}", b).matches("TreeNode").count() > 1;
      }
      (a, b) => {
        return Err(format!(
          "empty derivation of n{}: {:?}, is {:?}",
          r.head, a, b
        ))
      }
    }
  }
  if nested {
    ctx.nontrivial(d.sig());
    ctx.count("nested", 1);
  }
  ctx.count("unique", !null.is_empty() as u64);
  Ok(())
}

// ------------------------------------------------------------------- A03

pub const A03: Prop = Prop {
  id: "A03",
  streams: &[
    st("tiny1", 400, 400),
    st("tiny2", 6000, 60_000),
    st("small", 5000, 100_000),
    st("nully", 5000, 150_000),
    st("medium", 3000, 80_000),
    st("chain", 300, 2500),
    st("big", 100, 2500),
    st("wide", 200, 2000),
    st("sizes", 6, 400),
  ],
  run: a03,
  rule: "exhaustive tiny and random grammars; sets compared with a reference fixed point; non-trivial: some nonterminal's set is not just the leading terminals of its own productions; distinct by rule structure",
};

fn tset(s: Option<&BTreeSet<Tm>>) -> BTreeSet<u32> {
  s.into_iter().flatten().map(|t| t.0).collect()
}

fn a03(ctx: &mut Ctx) -> R {
  let d = gen_stream(ctx);
  ctx.note(d.text());
  let Ok(g) = d.built() else {
    ctx.count("skipped", 1);
    return Ok(());
  };
  let pc = PassContext::new(&g);
  if ctx.rng.chance(1, 2) {
    // Also when its prerequisite was asked for before.
    let _ = guard(|| pc.get_pass::<Nullable<Nt, Ak>>().is_ok());
  }
  let res = pc.get_pass::<Firsts<Tm, Nt>>();
  if d.null_ambiguous() {
    ctx.count("ambiguous", 1);
    let Err(e) = res else {
      return Err("no error, though an empty derivation is ambiguous".into());
    };
    return same_as_nullable_error(&pc, &e.to_string());
  }
  let f = res.map_err(|e| format!("the analysis failed: {}", e))?;
  let exp = d.first();
  let mut beyond = false;
  for (h, set) in &exp {
    let got = tset(f.get(&Nt(*h)));
    ensure!(got == *set, "first set of n{}: {:?}, is {:?}", h, got, set);
    ctx.count("sets_compared", 1);
    ctx.count("members", set.len() as u64);
    let direct: BTreeSet<u32> = d
      .rule(*h)
      .unwrap()
      .prods
      .iter()
      .filter_map(|p| match p.elems.first().map(|e| e.s) {
        Some(S::T(t)) => Some(t),
        _ => None,
      })
      .collect();
    beyond |= direct != *set;
  }
  if beyond {
    ctx.nontrivial(d.sig());
  }
  Ok(())
}

fn same_as_nullable_error(
  pc: &PassContext<Tm, Nt, Ak, Av>,
  text: &str,
) -> R {
  match guard(|| pc.get_pass::<Nullable<Nt, Ak>>().map(|_| ())) {
    Ok(Err(e)) => {
      ensure!(
        e.to_string() == text,
        "another error than that of the nullable analysis: {}",
        text
      );
      Ok(())
    }
    // Not for this property to judge.
    _ => Ok(()),
  }
}

// ------------------------------------------------------------------- A04

pub const A04: Prop = Prop {
  id: "A04",
  streams: &[
    st("tiny1", 400, 400),
    st("tiny2", 6000, 60_000),
    st("small", 5000, 100_000),
    st("nully", 5000, 150_000),
    st("medium", 3000, 80_000),
    st("chain", 200, 2000),
    st("big", 80, 1500),
    st("wide", 200, 2000),
    st("sizes", 6, 400),
  ],
  run: a04,
  rule: "exhaustive tiny and random grammars, each bare and wrapped with a start rule; sets (read through the hook) compared with a reference; non-trivial: something follows a nonterminal past a nullable one or a production's end; distinct by rule structure",
};

#[cfg(not(bongo_verif))]
fn a04(_: &mut Ctx) -> R {
  panic!("harness: built without the hooks");
}

#[cfg(bongo_verif)]
fn a04(ctx: &mut Ctx) -> R {
  let d = gen_stream(ctx);
  ctx.note(d.text());
  let Ok(g) = d.built() else {
    ctx.count("skipped", 1);
    return Ok(());
  };
  let pc = PassContext::new(&g);
  match ctx.rng.below(4) {
    0 => {
      let _ = guard(|| pc.get_pass::<Nullable<Nt, Ak>>().is_ok());
    }
    1 => {
      let _ = guard(|| pc.get_pass::<Firsts<Tm, Nt>>().is_ok());
    }
    _ => {}
  }
  let res = pc.get_pass::<Follows<Tm, Nt>>();
  if d.null_ambiguous() {
    ctx.count("ambiguous", 1);
    let Err(e) = res else {
      return Err("no error, though an empty derivation is ambiguous".into());
    };
    return same_as_nullable_error(&pc, &e.to_string());
  }
  let f = res.map_err(|e| format!("the analysis failed: {}", e))?;
  let exp = d.follow();
  for (h, set) in &exp {
    let got = tset(f.verif_get(&Nt(*h)));
    ensure!(got == *set, "follow set of n{}: {:?}, is {:?}", h, got, set);
    ctx.count("sets_compared", 1);
    ctx.count("members", set.len() as u64);
  }
  let direct = d.prods().any(|(_, p)| {
    p.elems.last().map_or(false, |e| matches!(e.s, S::N(_)))
      || p.elems.windows(2).any(|w| {
        matches!(w[0].s, S::N(_)) && matches!(w[1].s, S::N(_))
      })
  });
  if direct && exp.values().any(|s| !s.is_empty()) {
    ctx.nontrivial(d.sig());
  }
  // Wrapped: the end of the stream follows the start, and all it ends with.
  let Ok(Ok(w)) = guard(|| wrap_grammar_with_start(g.clone())) else {
    ctx.count("wrap_skipped", 1);
    return Ok(());
  };
  const EOS: u32 = u32::MAX;
  let mut wd = d.clone();
  wd.rules.push(RD {
    head: u32::MAX,
    prods: vec![PD {
      ak: 0,
      av: 0,
      elems: vec![ED::new(S::N(d.start)), ED::new(S::T(EOS))],
    }],
  });
  wd.start = u32::MAX;
  let exp = wd.follow();
  let wpc = PassContext::new(&w);
  let f = wpc
    .get_pass::<Follows<StreamTerminal<Tm>, StartNonTerminal<Nt>>>()
    .map_err(|e| format!("the analysis failed when wrapped: {}", e))?;
  for (h, set) in &exp {
    let key = if *h == u32::MAX {
      StartNonTerminal::Start
    } else {
      StartNonTerminal::NTerm(Nt(*h))
    };
    let got: BTreeSet<u32> = f
      .verif_get(&key)
      .into_iter()
      .flatten()
      .map(|t| match t {
        StreamTerminal::EndOfStream => EOS,
        StreamTerminal::Term(t) => t.0,
      })
      .collect();
    ensure!(
      got == *set,
      "follow set of n{} when wrapped (end of stream is {}): {:?}, is {:?}",
      h,
      EOS,
      got,
      set
    );
    ctx.count("wrapped_sets_compared", 1);
    ctx.count("end_of_stream_members", set.contains(&EOS) as u64);
  }
  Ok(())
}

// ------------------------------------------------------------------- A05

pub const A05: Prop = Prop {
  id: "A05",
  streams: &[
    st("plans", 30_000, 600_000),
    st("many", 600, 20_000),
    st("library", 1500, 30_000),
  ],
  run: a05,
  rule: "histories of requests to analyses defined here, with random dependencies (chains, diamonds, cycles), failures, and tolerance of failures, on several contexts of several grammars; non-trivial: an analysis with a dependency ran; distinct by plan and history",
};

/// How many there can be.
const NP: usize = 72;

#[derive(Clone, Debug)]
struct Plan {
  /// (dependency, gives up if it fails)
  deps: Vec<(usize, bool)>,
  fails: bool,
}

#[derive(Debug, Clone, PartialEq, Eq)]
struct PErr(usize);
impl std::fmt::Display for PErr {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    write!(f, "P{} failed", self.0)
  }
}
impl std::error::Error for PErr {}

/// Which of them an analysis is.
trait Mark: 'static {
  const I: usize;
}

struct Numbered<const I: usize>;

impl<const I: usize> Mark for Numbered<I> {
  const I: usize = I;
}

/// An analysis. Holds what it saw.
struct P<M> {
  is: std::marker::PhantomData<M>,
  grammar: *const G,
  saw: Vec<(usize, Result<*const u8, usize>)>,
  serial: u64,
}

#[derive(Default)]
struct World {
  plans: Vec<Plan>,
  /// (grammar, analysis) -> (runs, successes)
  runs: BTreeMap<(usize, usize), (u32, u32)>,
  depth: usize,
  runaway: bool,
  serial: u64,
}

thread_local! {
  static WORLD: RefCell<World> = RefCell::new(World::default());
  static CTX_NOW: RefCell<usize> = const { RefCell::new(0) };
}

type PC<'a> = PassContext<'a, Tm, Nt, Ak, Av>;

type Request = fn(&PC) -> Result<*const u8, usize>;
type LookAt = fn(&PC) -> Option<Look>;

/// (what it saw, its grammar, its serial number)
type Look = (Vec<(usize, Result<*const u8, usize>)>, *const G, u64);

fn fns<M: Mark>() -> (Request, LookAt) {
  (
    |pc| {
      pc.get_pass::<P<M>>()
        .map(|r| Rc::as_ptr(&r) as *const u8)
        .map_err(|e| e.0)
    },
    |pc| {
      pc.get_pass::<P<M>>()
        .ok()
        .map(|r| (r.saw.clone(), r.grammar, r.serial))
    },
  )
}

macro_rules! numbered {
  ($($a:literal)*) => {
    [$(
      fns::<Numbered<{ 8 + 8 * $a }>>,
      fns::<Numbered<{ 9 + 8 * $a }>>,
      fns::<Numbered<{ 10 + 8 * $a }>>,
      fns::<Numbered<{ 11 + 8 * $a }>>,
      fns::<Numbered<{ 12 + 8 * $a }>>,
      fns::<Numbered<{ 13 + 8 * $a }>>,
      fns::<Numbered<{ 14 + 8 * $a }>>,
      fns::<Numbered<{ 15 + 8 * $a }>>,
    )*]
  };
}
static NUMBERED: [fn() -> (Request, LookAt); NP - 8] = numbered!(0 1 2 3 4 5 6 7);

/// Some differ in their number only, some are different types of one name.
fn analysis(i: usize) -> (Request, LookAt) {
  match i {
    0 => fns::<Numbered<0>>(),
    1 => fns::<Numbered<1>>(),
    2 => fns::<Numbered<2>>(),
    3 => fns::<Numbered<3>>(),
    4 => {
      struct Named;
      impl Mark for Named {
        const I: usize = 4;
      }
      fns::<Named>()
    }
    5 => {
      struct Named;
      impl Mark for Named {
        const I: usize = 5;
      }
      fns::<Named>()
    }
    6 => {
      struct Named;
      impl Mark for Named {
        const I: usize = 6;
      }
      fns::<Named>()
    }
    7 => {
      struct Other;
      impl Mark for Other {
        const I: usize = 7;
      }
      fns::<Other>()
    }
    _ => NUMBERED[i - 8](),
  }
}

fn request(pc: &PC, i: usize) -> Result<*const u8, usize> {
  analysis(i).0(pc)
}

fn look_at(pc: &PC, i: usize) -> Option<Look> {
  analysis(i).1(pc)
}

impl<M: Mark> Pass<Tm, Nt, Ak, Av> for P<M> {
  type Error = PErr;
  fn run_pass(pc: &PC) -> Result<Self, PErr> {
    let ctx_now = CTX_NOW.with(|c| *c.borrow());
    let (plan, too_deep) = WORLD.with(|w| {
      let mut w = w.borrow_mut();
      w.runs.entry((ctx_now, M::I)).or_insert((0, 0)).0 += 1;
      w.depth += 1;
      if w.depth > 200 {
        w.runaway = true;
      }
      (w.plans[M::I].clone(), w.depth > 200)
    });
    if too_deep {
      panic!("an analysis is requested recursively without end");
    }
    let mut saw = Vec::new();
    for (dep, strict) in &plan.deps {
      let r = request(pc, *dep);
      saw.push((*dep, r));
      if let (Err(e), true) = (r, *strict) {
        WORLD.with(|w| w.borrow_mut().depth -= 1);
        return Err(PErr(e));
      }
    }
    WORLD.with(|w| {
      let mut w = w.borrow_mut();
      w.depth -= 1;
      if plan.fails {
        Err(PErr(M::I))
      } else {
        w.runs.get_mut(&(ctx_now, M::I)).unwrap().1 += 1;
        w.serial += 1;
        Ok(P {
          is: std::marker::PhantomData,
          grammar: pc.grammar() as *const G,
          saw,
          serial: w.serial,
        })
      }
    })
  }
}

/// What must come of requesting `i`: Ok(result), or Err for a circle.
fn model(
  plans: &[Plan],
  i: usize,
  active: &mut Vec<usize>,
  memo: &mut BTreeMap<usize, Result<(), usize>>,
) -> Result<Result<(), usize>, ()> {
  if let Some(r) = memo.get(&i) {
    return Ok(*r);
  }
  if active.contains(&i) {
    return Err(());
  }
  active.push(i);
  let mut res = Ok(());
  for (dep, strict) in &plans[i].deps {
    let r = model(plans, *dep, active, memo)?;
    if let (Err(e), true) = (r, *strict) {
      res = Err(e);
      break;
    }
  }
  if res.is_ok() && plans[i].fails {
    res = Err(i);
  }
  active.pop();
  memo.insert(i, res);
  Ok(res)
}

fn a05(ctx: &mut Ctx) -> R {
  if ctx.stream == "library" {
    return a05_library(ctx);
  }
  let rng = &mut ctx.rng;
  let acyclic = rng.chance(3, 4);
  let many = ctx.stream == "many";
  let fail_pct = *rng.pick(if many { &[0usize, 2, 5] } else { &[0, 15, 40] });
  let n = if many { rng.range(9, NP) } else { 8 };
  // Failures are not kept, so tolerating many of them takes forever.
  let tolerant = |rng: &mut Rng| {
    !(many && fail_pct > 0) && !rng.chance(2, 3)
  };
  // Mostly long chains.
  let chain = many && rng.chance(1, 2);
  let plans: Vec<Plan> = (0..n)
    .map(|i| {
      let k = rng.range(0, if many { 2 } else { 3 });
      let mut deps = Vec::new();
      if chain && i + 1 < n && !rng.chance(1, 40) {
        deps.push((i + 1, !tolerant(rng)));
      }
      for _ in 0..k {
        let dep = if acyclic {
          if i + 1 >= n {
            break;
          }
          rng.range(i + 1, n - 1)
        } else {
          rng.below(n)
        };
        deps.push((dep, !tolerant(rng)));
      }
      Plan {
        deps,
        fails: rng.below(100) < fail_pct,
      }
    })
    .collect();
  // The order in which types sort is not that of their numbers, but fixed;
  // relabel so that dependencies go both ways.
  let mut perm: Vec<usize> = (0..n).collect();
  rng.shuffle(&mut perm);
  let mut relabelled = plans.clone();
  for (i, p) in plans.iter().enumerate() {
    relabelled[perm[i]] = Plan {
      deps: p.deps.iter().map(|(d, s)| (perm[*d], *s)).collect(),
      fails: p.fails,
    };
  }
  let plans = relabelled;
  let gs: Vec<G> = (0..2)
    .filter_map(|_| gen(rng, &Shape::SMALL).built().ok())
    .collect();
  if gs.len() < 2 {
    ctx.count("skipped", 1);
    return Ok(());
  }
  let n_ctx = rng.range(1, if many { 12 } else { 3 });
  let requests = if many { rng.range(10, 2 * n) } else { rng.range(2, 14) };
  let history: Vec<(usize, usize)> = (0..requests)
    .map(|_| (rng.below(n_ctx), rng.below(n)))
    .collect();
  ctx.note(format!("plans {:?}\nhistory {:?}", plans, history));
  WORLD.with(|w| {
    *w.borrow_mut() = World {
      plans: plans.clone(),
      ..World::default()
    }
  });
  // Contexts 0 and 2 are of the same grammar.
  let pcs: Vec<PC> = (0..n_ctx).map(|i| PC::new(&gs[i % 2])).collect();
  let mut first: BTreeMap<(usize, usize), *const u8> = BTreeMap::new();
  let mut memos: Vec<BTreeMap<usize, Result<(), usize>>> =
    vec![BTreeMap::new(); n_ctx];
  let mut dead = vec![false; n_ctx];
  let mut with_deps = false;
  for (c, i) in &history {
    if dead[*c] {
      continue;
    }
    CTX_NOW.with(|x| *x.borrow_mut() = *c);
    WORLD.with(|w| w.borrow_mut().depth = 0);
    let exp = model(&plans, *i, &mut Vec::new(), &mut memos[*c]);
    let got = guard(|| request(&pcs[*c], *i));
    ensure!(
      !WORLD.with(|w| w.borrow().runaway),
      "a circular dependency of P{} is followed without end",
      i
    );
    match (exp, got) {
      (Err(()), Err(p)) => {
        ensure!(!is_budget(&p), "P{}: {}", i, p);
        ctx.count("circles_refused", 1);
        // What a context does after a panic is not specified.
        dead[*c] = true;
      }
      (Err(()), Ok(_)) => {
        return Err(format!("the circular P{} got a result", i));
      }
      (Ok(_), Err(p)) => {
        return Err(format!("requesting P{} panicked: {}", i, p));
      }
      (Ok(Ok(())), Ok(Ok(ptr))) => {
        ctx.count("results", 1);
        let f = *first.entry((*c, *i)).or_insert(ptr);
        ensure!(f == ptr, "P{} got two results in one context", i);
        with_deps |= !plans[*i].deps.is_empty();
      }
      (Ok(Err(e)), Ok(Err(f))) => {
        ctx.count("errors", 1);
        ensure!(
          e == f,
          "P{} failed with the error of P{}, not P{}",
          i,
          f,
          e
        );
      }
      (Ok(a), Ok(b)) => {
        return Err(format!("P{}: got {:?}, should be {:?}", i, b, a));
      }
    }
  }
  WORLD.with(|w| -> R {
    for ((c, i), (runs, oks)) in &w.borrow().runs {
      let ok = memos[*c].get(i) == Some(&Ok(()));
      if ok && !dead[*c] {
        ensure!(
          *runs == 1 && *oks == 1,
          "the successful P{} ran {} times in one context",
          i,
          runs
        );
      }
    }
    Ok(())
  })?;
  // What each saw of those it depends on is what anyone gets.
  for c in 0..n_ctx {
    if dead[c] {
      continue;
    }
    let known: Vec<usize> = memos[c]
      .iter()
      .filter(|(_, r)| r.is_ok())
      .map(|(i, _)| *i)
      .collect();
    for i in known {
      CTX_NOW.with(|x| *x.borrow_mut() = c);
      let runs = WORLD.with(|w| w.borrow().runs.get(&(c, i)).copied());
      let Some((saw, gp, _)) = look_at(&pcs[c], i) else {
        return Err(format!("the result of P{} is gone", i));
      };
      ensure!(
        WORLD.with(|w| w.borrow().runs.get(&(c, i)).copied()) == runs,
        "P{} ran again",
        i
      );
      ensure!(
        std::ptr::eq(gp, &gs[c % 2])
          && std::ptr::eq(pcs[c].grammar(), &gs[c % 2]),
        "P{} got another context's grammar",
        i
      );
      for (dep, r) in saw {
        let now = request(&pcs[c], dep);
        ensure!(
          now == r,
          "P{} saw {:?} of P{}, which is {:?}",
          i,
          r,
          dep,
          now
        );
        ctx.count("dependencies_seen", 1);
      }
    }
  }
  // Each context has its own.
  for ((c, i), p) in &first {
    for c2 in 0..n_ctx {
      if c2 != *c {
        if let Some(q) = first.get(&(c2, *i)) {
          ensure!(p != q, "two contexts share the result of P{}", i);
          ctx.count("contexts_distinct", 1);
        }
      }
    }
  }
  if with_deps {
    ctx.nontrivial(hash_str(&ctx.desc));
  }
  Ok(())
}

/// The library's own analyses, requested in any order.
fn a05_library(ctx: &mut Ctx) -> R {
  let d = gen(&mut ctx.rng, &Shape::NULLY);
  ctx.note(d.text());
  let Ok(g) = d.built() else {
    ctx.count("skipped", 1);
    return Ok(());
  };
  let pc = PC::new(&g);
  let pc2 = PC::new(&g);
  let mut seen: BTreeMap<u8, Result<*const u8, String>> = BTreeMap::new();
  let mut hist = Vec::new();
  for _ in 0..ctx.rng.range(3, 9) {
    let k = ctx.rng.below(3) as u8;
    hist.push(k);
    fn p<X>(r: Rc<X>) -> *const u8 {
      Rc::as_ptr(&r) as *const u8
    }
    let ask = |pc: &PC| match k {
      0 => pc
        .get_pass::<Nullable<Nt, Ak>>()
        .map(p)
        .map_err(|e| e.to_string()),
      1 => pc
        .get_pass::<Firsts<Tm, Nt>>()
        .map(p)
        .map_err(|e| e.to_string()),
      _ => pc
        .get_pass::<Follows<Tm, Nt>>()
        .map(p)
        .map_err(|e| e.to_string()),
    };
    let got = ask(&pc);
    let old = seen.entry(k).or_insert_with(|| got.clone());
    ensure!(
      *old == got,
      "analysis {} ({:?}): first {:?}, then {:?}",
      k,
      hist,
      old,
      got
    );
    ctx.count(if got.is_ok() { "results" } else { "errors" }, 1);
    let other = ask(&pc2);
    ensure!(
      other.is_ok() == got.is_ok() && (got.is_err() || other != got),
      "analysis {} is shared between contexts, or differs",
      k
    );
  }
  // Errors are passed on as they are.
  let errs: BTreeSet<&String> =
    seen.values().filter_map(|r| r.as_ref().err()).collect();
  ensure!(errs.len() <= 1, "different errors: {:?}", errs);
  ctx.nontrivial(hash_u64s(
    hist.iter().map(|x| *x as u64).chain([d.sig()]),
  ));
  Ok(())
}

// ------------------------------------------------------------------- X01

pub const X01: Prop = Prop {
  id: "X01",
  streams: &[
    st("tiny2", 8000, 60_000),
    st("nully", 15_000, 300_000),
    st("friendly", 8000, 200_000),
    st("medium", 2000, 50_000),
    st("chain", 150, 2000),
    st("big", 60, 1500),
    st("sizes", 8, 400),
  ],
  run: x01,
  rule: "random grammars with nullable nonterminals at all places; the productions are compared with the enumeration of left-out subsets, as multisets with keys, values and recorded derivations; non-trivial: something is nullable, or ambiguous; distinct by rule structure",
};

/// Rules that can be empty in one way, and always have something else.
pub fn gen_friendly(rng: &mut Rng) -> Desc {
  let n = rng.range(2, 7);
  let nl = labels(rng, n);
  let nullable: Vec<bool> = (0..n).map(|_| rng.chance(3, 5)).collect();
  let mut rules = Vec::new();
  for i in 0..n {
    let mut prods = Vec::new();
    if nullable[i] {
      // Empty by itself, or through later ones.
      let mut elems = Vec::new();
      for j in i + 1..n {
        if nullable[j] && elems.len() < 3 && rng.chance(1, 3) {
          elems.push(ED::new(S::N(nl[j])));
        }
      }
      add_ids(rng, &mut elems, 60);
      prods.push(PD {
        ak: 0,
        av: 0,
        elems,
      });
    }
    for _ in 0..rng.range(1, 2) {
      let mut elems: Vec<ED> = (0..rng.range(0, 4))
        .map(|_| ED::new(S::N(*rng.pick(&nl))))
        .collect();
      let t = rng.below(3) as u32;
      let at = rng.range(0, elems.len());
      elems.insert(at, ED::new(S::T(t)));
      add_ids(rng, &mut elems, 50);
      let at = rng.range(0, prods.len());
      prods.insert(
        at,
        PD {
          ak: 0,
          av: 0,
          elems,
        },
      );
    }
    rules.push(RD { head: nl[i], prods });
  }
  let mut d = Desc {
    start: nl[0],
    rules,
  };
  d.prune();
  finish(rng, &mut d);
  d
}

/// The first inner group of braces of a debug text.
fn inner_braces(s: &str) -> Option<String> {
  let mut depth = 0;
  let mut start = 0;
  for (i, c) in s.char_indices() {
    match c {
      '{' => {
        depth += 1;
        if depth == 2 && start == 0 {
          start = i;
        }
      }
      '}' => {
        if depth == 2 && start != 0 {
          return Some(s[start..=i].to_string());
        }
        depth -= 1;
      }
      _ => {}
    }
  }
  None
}

fn x01(ctx: &mut Ctx) -> R {
  let d = if ctx.stream == "friendly" {
    gen_friendly(&mut ctx.rng)
  } else if ctx.stream == "sizes" {
    let cap = *ctx.rng.pick(&[30usize, 70, 140, 300]);
    let most = ctx.rng.range(6, 11);
    gen_sizes(&mut ctx.rng, cap, most)
  } else {
    gen_stream(ctx)
  };
  ctx.note(d.text());
  let null = d.nullable();
  let too_many = d.prods().any(|(_, p)| {
    p.elems
      .iter()
      .filter(|e| matches!(e.s, S::N(n) if null.contains(&n)))
      .count()
      > 11
  });
  if too_many {
    ctx.count("too_many_subsets", 1);
    return Ok(());
  }
  let Ok(g) = d.built() else {
    ctx.count("skipped", 1);
    return Ok(());
  };
  if d.null_ambiguous() {
    ctx.nontrivial(d.sig());
    ctx.count("ambiguous", 1);
    ensure!(
      transform_to_nonnull(&g).is_err(),
      "accepted, though an empty derivation is ambiguous"
    );
    return Ok(());
  }
  if d
    .rules
    .iter()
    .any(|r| r.prods.iter().all(|p| p.elems.is_empty()))
  {
    ctx.count("not_judged", 1);
    // It still must end without a panic, but with what is not specified.
    let _ = guard(|| transform_to_nonnull(&g).is_ok());
    return Ok(());
  }
  let trees = null_trees(&d, &g);
  let h = transform_to_nonnull(&g)
    .map_err(|e| format!("the transform failed: {}", e))?;
  if !null.is_empty() {
    ctx.nontrivial(d.sig());
  }
  // (head, key, value, elements, arguments) -> how many
  type Item = (u32, String, String, Vec<(Option<String>, S)>, String);
  let mut exp: BTreeMap<Item, i64> = BTreeMap::new();
  let mut subsets = 0u64;
  for (head, p) in d.prods() {
    let at: Vec<usize> = p
      .elems
      .iter()
      .enumerate()
      .filter(|(_, e)| matches!(e.s, S::N(n) if null.contains(&n)))
      .map(|(i, _)| i)
      .collect();
    for mask in 0u32..1 << at.len() {
      subsets += 1;
      let gone: BTreeSet<usize> = at
        .iter()
        .enumerate()
        .filter(|(b, _)| mask >> b & 1 == 1)
        .map(|(_, i)| *i)
        .collect();
      let mut args: BTreeMap<Name, &NullTree> = BTreeMap::new();
      let mut elems = Vec::new();
      for (i, e) in p.elems.iter().enumerate() {
        if gone.contains(&i) {
          if let (Some(id), S::N(n)) = (&e.id, e.s) {
            args.insert(Name::new(id), &trees[&n]);
          }
        } else {
          elems.push((e.id.clone(), e.s));
        }
      }
      if elems.is_empty() {
        continue;
      }
      *exp
        .entry((
          head,
          format!("k{}", p.ak),
          format!("v{}", p.av),
          elems,
          format!("{:?}", args),
        ))
        .or_insert(0) += 1;
    }
  }
  ctx.count("subsets_enumerated", subsets);
  ensure!(h.start_nt().0 == d.start, "another start symbol");
  let mut keys = BTreeSet::new();
  let mut n = 0;
  let mut args_seen = 0;
  let mut readable = true;
  let mut got: Vec<Item> = Vec::new();
  for p in h.prods() {
    n += 1;
    ensure!(
      p.num_elements() > 0,
      "an empty production of n{}",
      p.head().0
    );
    ensure!(
      keys.insert(p.prod_key()),
      "two productions of n{} have the same key ({:?})",
      p.head().0,
      p.action_key()
    );
    let elems: Vec<(Option<String>, S)> = p
      .prod_elements()
      .iter()
      .map(|e| {
        (
          e.id().map(|n| n.str().to_string()),
          match e.elem() {
            Elem::Term(t) => S::T(t.0),
            Elem::NonTerm(n) => S::N(n.0),
          },
        )
      })
      .collect();
    let args = inner_braces(&format!("{:?}", p.action_value()));
    readable &= args.is_some();
    let args = args.unwrap_or_default();
    args_seen += (args != "{}") as u64;
    got.push((
      p.head().0,
      doc_text(p.action_key()),
      doc_text(p.action_value()),
      elems,
      args,
    ));
  }
  if !readable {
    // The recorded derivations cannot be seen any more.
    ctx.count("derivations_not_readable", 1);
    let mut coarse = BTreeMap::new();
    for (mut item, c) in exp {
      item.4 = String::new();
      *coarse.entry(item).or_insert(0) += c;
    }
    exp = coarse;
    for item in &mut got {
      item.4 = String::new();
    }
  }
  for item in got {
    match exp.get_mut(&item) {
      Some(c) => *c -= 1,
      None => {
        return Err(format!(
          "a production too many: n{} {} {} {:?} with {}",
          item.0, item.1, item.2, item.3, item.4
        ))
      }
    }
    ensure!(
      exp[&item] >= 0,
      "a production too often: n{} {} {:?} with {}",
      item.0,
      item.1,
      item.3,
      item.4
    );
  }
  if let Some((item, _)) = exp.iter().find(|(_, c)| **c != 0) {
    return Err(format!(
      "a production is missing: n{} {} {} {:?} with {}",
      item.0, item.1, item.2, item.3, item.4
    ));
  }
  let heads: BTreeSet<u32> = h.rules().map(|r| r.head().0).collect();
  ensure!(heads == d.heads(), "rules {:?}", heads);
  ctx.count("productions_compared", n);
  ctx.count("with_recorded_derivations", args_seen);
  Ok(())
}
