//! G01-G05: construction, accessors, wrapping, printing, handles.

use crate::core::*;
use crate::desc::*;
use crate::sy::*;
use bongo::grammar::{
  build, Elem, Grammar, NonTerminal, Prod, ProdElement, Rule, Terminal,
};
use bongo::start_grammar::{
  wrap_grammar_with_start, StartActionKey, StartActionValue, StartGrammar,
  StartNonTerminal, StreamTerminal,
};
use bongo::utils::Name;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------- G01

pub const G01: Prop = Prop {
  id: "G01",
  streams: &[
    st("graphs", 3000, 3000),
    st("broken", 12_000, 300_000),
    st("small", 4000, 100_000),
    st("chain", 300, 3000),
    st("big", 300, 4000),
    st("sizes", 6, 400),
  ],
  run: g01,
  rule: "exhaustive rule graphs over 3 nonterminals, then random grammars with rules removed, emptied, orphaned or pointing nowhere; non-trivial: at least two nonterminals occur; distinct by rule structure",
};

fn g01_desc(ctx: &mut Ctx) -> Desc {
  match ctx.stream {
    "graphs" => {
      // Each of 3 nonterminals: no rule, no productions, or one production
      // that uses a subset; and the start.
      let mut i = ctx.idx;
      let start = (i % 3) as u32;
      i /= 3;
      let mut rules = Vec::new();
      for n in 0..3u32 {
        let c = i % 10;
        i /= 10;
        if c == 0 {
          continue;
        }
        let prods = if c == 1 {
          vec![]
        } else {
          vec![PD {
            ak: n,
            av: n,
            elems: (0..3)
              .filter(|b| (c - 2) >> b & 1 == 1)
              .map(|b| ED::new(S::N(b)))
              .collect(),
          }]
        };
        rules.push(RD { head: n, prods });
      }
      Desc { start, rules }
    }
    "broken" => {
      let sh = match ctx.rng.below(3) {
        0 => Shape::SMALL,
        1 => Shape::MEDIUM,
        _ => Shape::NULLY,
      };
      let rng = &mut ctx.rng;
      let mut d = gen(rng, &sh);
      for _ in 0..rng.range(0, 3) {
        let fresh = 200_000 + rng.below(4) as u32;
        match rng.below(7) {
          // An orphan, that may refer to anything and to which orphans refer.
          0 if d.rule(fresh).is_none() => {
            let target = rng.pick(&d.rules).head;
            let mut elems = vec![ED::new(S::N(target))];
            if rng.chance(1, 2) {
              elems.push(ED::new(S::N(200_000 + rng.below(4) as u32)));
            }
            if rng.chance(1, 2) {
              elems.clear();
            }
            let at = rng.range(0, d.rules.len());
            d.rules.insert(
              at,
              RD {
                head: fresh,
                prods: vec![PD {
                  ak: 77,
                  av: 77,
                  elems,
                }],
              },
            );
          }
          // A rule without productions.
          1 => {
            let i = rng.below(d.rules.len());
            d.rules[i].prods.clear();
          }
          // A missing rule.
          2 if d.rules.len() > 1 => {
            let i = rng.below(d.rules.len());
            d.rules.remove(i);
          }
          // A dangling reference.
          3 => {
            let i = rng.below(d.rules.len());
            if !d.rules[i].prods.is_empty() {
              let j = rng.below(d.rules[i].prods.len());
              let k = d.rules[i].prods[j].elems.len();
              let at = rng.range(0, k);
              d.rules[i].prods[j]
                .elems
                .insert(at, ED::new(S::N(fresh)));
            }
          }
          // Another start.
          4 => d.start = rng.pick(&d.rules).head,
          5 if rng.chance(1, 3) => d.start = fresh,
          // An orphan without productions.
          6 if d.rule(fresh).is_none() => d.rules.push(RD {
            head: fresh,
            prods: vec![],
          }),
          _ => {}
        }
      }
      d
    }
    _ => gen_stream(ctx),
  }
}

/// The sets in the debug output of the errors, by label where it is known.
fn parse_error_sets(s: &str) -> Vec<(String, BTreeSet<u32>)> {
  let mut out = Vec::new();
  let bytes: Vec<char> = s.chars().collect();
  let mut i = 0;
  let mut depth = 0;
  let mut label = String::new();
  let mut word = String::new();
  let mut cur: Option<BTreeSet<u32>> = None;
  fn flush(word: &mut String, cur: &mut Option<BTreeSet<u32>>) {
    if let (Some(c), Some(rest)) = (cur.as_mut(), word.strip_prefix('n')) {
      if let Ok(x) = rest.parse() {
        c.insert(x);
      }
    }
    word.clear();
  }
  while i < bytes.len() {
    let c = bytes[i];
    match c {
      '{' | '[' => {
        depth += 1;
        if depth == 2 {
          cur = Some(BTreeSet::new());
        }
        word.clear();
      }
      '}' | ']' => {
        flush(&mut word, &mut cur);
        if depth == 2 {
          out.push((label.clone(), cur.take().unwrap()));
        }
        depth -= 1;
      }
      ':' if depth == 1 => {
        label = word.trim().to_string();
        word.clear();
      }
      c if c.is_alphanumeric() || c == '_' => word.push(c),
      _ => flush(&mut word, &mut cur),
    }
    i += 1;
  }
  out
}

fn g01(ctx: &mut Ctx) -> R {
  let d = g01_desc(ctx);
  ctx.note(d.text());
  let (un, nr, np) = d.expected_errors();
  let valid = un.is_empty() && nr.is_empty() && np.is_empty();
  if d.heads().union(&d.body_nts()).count() > 1 {
    ctx.nontrivial(d.sig());
  }
  let res = guard(|| d.try_build());
  match res {
    Err(p) => return Err(format!("construction panicked: {}", p)),
    Ok(Ok(g)) => {
      ctx.count("accepted", 1);
      ensure!(
        valid,
        "accepted, but unreachable {:?}, without rules {:?}, without productions {:?}",
        un,
        nr,
        np
      );
      drop(g);
    }
    Ok(Err(e)) => {
      ctx.count("rejected", 1);
      let text = format!("{:?}", e);
      ensure!(!valid, "a well-formed grammar was rejected: {}", text);
      let sets = parse_error_sets(&text);
      let by = |part: &str| {
        sets
          .iter()
          .find(|(l, _)| l.contains(part))
          .map(|(_, s)| s.clone())
      };
      if let (Some(a), Some(b), Some(c)) = (
        by("unreachable"),
        by("nonterms_without_rules"),
        by("without_prods"),
      ) {
        ctx.count("error_sets_compared", 3);
        ensure!(a == un, "unreachable: reported {:?}, are {:?}", a, un);
        ensure!(b == nr, "without rules: reported {:?}, are {:?}", b, nr);
        ensure!(c == np, "without productions: reported {:?}, are {:?}", c, np);
      } else {
        // Other labels: compare as a collection.
        let mut got: Vec<_> = sets.iter().map(|(_, s)| s.clone()).collect();
        let mut exp = vec![un, nr, np];
        got.sort();
        exp.sort();
        ctx.count("error_sets_compared_unlabelled", 3);
        got.retain(|s| !s.is_empty());
        exp.retain(|s| !s.is_empty());
        ensure!(got == exp, "reported {:?}, are {:?}", got, exp);
      }
      ctx.count(
        match (
          !by("unreachable").unwrap_or_default().is_empty(),
          !by("nonterms_without_rules").unwrap_or_default().is_empty(),
          !by("without_prods").unwrap_or_default().is_empty(),
        ) {
          (true, false, false) => "only_unreachable",
          (false, true, false) => "only_without_rules",
          (false, false, true) => "only_without_prods",
          _ => "mixed_errors",
        },
        1,
      );
    }
  }
  Ok(())
}

// ------------------------------------------------------------------- G02

pub const G02: Prop = Prop {
  id: "G02",
  streams: &[
    st("small", 4000, 60_000),
    st("medium", 3000, 60_000),
    st("wide", 500, 6000),
    st("chain", 100, 1500),
    st("big", 200, 3000),
    st("lib", 1500, 30_000),
    st("sizes", 2, 100),
  ],
  run: g02,
  rule: "random descriptions built by a random mix of builder calls (values, references, string names, element lists); every accessor is compared with the description; non-trivial: at least two productions; distinct by rule structure",
};

/// Builds with a random mix of the builder's calls.
fn build_mixed(d: &Desc, rng: &mut Rng) -> Option<G> {
  // Pre-made values, for the calls that take references.
  build(Nt(d.start), |gb| {
    for r in &d.rules {
      let head = Nt(r.head);
      let mut fill = |rb: &mut bongo::grammar::RuleBuilder<Tm, Nt, Ak, Av>| {
        for p in &r.prods {
          let (ak, av) = (Ak(p.ak), Av(p.av));
          match rng.below(4) {
            0 => {
              rb.add_prod_with_elems(ak, av, p.bongo_elems());
            }
            1 => {
              rb.add_prod_with_elems(&ak, &av, &p.bongo_elems());
            }
            style => {
              let mut body =
                |pb: &mut bongo::grammar::ProductionBuilder<Tm, Nt, Ak, Av>| {
                  for e in &p.elems {
                    match (&e.id, e.s) {
                      (None, S::T(t)) => {
                        if rng.chance(1, 2) {
                          pb.add_term(Tm(t));
                        } else {
                          pb.add_term(&Tm(t));
                        }
                      }
                      (None, S::N(n)) => {
                        if rng.chance(1, 2) {
                          pb.add_nonterm(Nt(n));
                        } else {
                          pb.add_nonterm(&Nt(n));
                        }
                      }
                      (Some(id), S::T(t)) => {
                        match rng.below(3) {
                          0 => pb.add_named_term(id.as_str(), Tm(t)),
                          1 => pb.add_named_term(Name::new(id), &Tm(t)),
                          _ => pb.add_named_term(&Name::new(id), Tm(t)),
                        };
                      }
                      (Some(id), S::N(n)) => {
                        match rng.below(3) {
                          0 => pb.add_named_nonterm(id.as_str(), Nt(n)),
                          1 => pb.add_named_nonterm(Name::new(id), &Nt(n)),
                          _ => pb.add_named_nonterm(&Name::new(id), Nt(n)),
                        };
                      }
                    }
                  }
                };
              if style == 2 {
                rb.add_prod(ak, av, body);
              } else {
                rb.add_prod(&ak, &av, &mut body);
              }
            }
          }
        }
      };
      if r.head % 2 == 0 {
        gb.add_rule(head, &mut fill);
      } else {
        gb.add_rule(&head, &mut fill);
      }
    }
  })
  .ok()
}

/// What is compared of an element, production, rule.
trait View {
  type T;
  type NT;
  type AK;
  type AV;
  fn elem(e: &Elem<Self::T, Self::NT>) -> S;
  fn head(n: &Self::NT) -> u32;
  fn ak(k: &Self::AK) -> u32;
  fn av(v: &Self::AV) -> u32;
  fn nt(n: u32) -> Self::NT;
}

struct Own;
impl View for Own {
  type T = Tm;
  type NT = Nt;
  type AK = Ak;
  type AV = Av;
  fn elem(e: &Elem<Tm, Nt>) -> S {
    s_of(e)
  }
  fn head(n: &Nt) -> u32 {
    n.0
  }
  fn ak(k: &Ak) -> u32 {
    k.0
  }
  fn av(v: &Av) -> u32 {
    v.0
  }
  fn nt(n: u32) -> Nt {
    Nt(n)
  }
}

/// The types the library comes with. Labels are their texts.
struct Lib;
fn lib_num(s: &str) -> u32 {
  // Debug of the library's types is `Terminal(t5)`.
  let digits: String = s.chars().filter(|c| c.is_ascii_digit()).collect();
  digits.parse().unwrap_or(u32::MAX)
}
impl View for Lib {
  type T = Terminal;
  type NT = NonTerminal;
  type AK = Name;
  type AV = ();
  fn elem(e: &Elem<Terminal, NonTerminal>) -> S {
    match e {
      Elem::Term(t) => S::T(lib_num(&format!("{:?}", t))),
      Elem::NonTerm(t) => S::N(lib_num(&format!("{:?}", t))),
    }
  }
  fn head(n: &NonTerminal) -> u32 {
    lib_num(&format!("{:?}", n))
  }
  fn ak(k: &Name) -> u32 {
    lib_num(k.str())
  }
  fn av(_: &()) -> u32 {
    0
  }
  fn nt(n: u32) -> NonTerminal {
    NonTerminal::new(&format!("n{}", n))
  }
}

struct WrapView<V>(V);
impl<V: View> View for WrapView<V>
where
  V::T: Clone,
  V::NT: Clone,
{
  type T = StreamTerminal<V::T>;
  type NT = StartNonTerminal<V::NT>;
  type AK = StartActionKey<V::AK>;
  type AV = StartActionValue<V::AV>;
  fn elem(e: &Elem<Self::T, Self::NT>) -> S {
    match e {
      Elem::Term(StreamTerminal::EndOfStream) => S::T(START),
      Elem::Term(StreamTerminal::Term(t)) => V::elem(&Elem::Term(t.clone())),
      Elem::NonTerm(n) => S::N(Self::head(n)),
    }
  }
  fn head(n: &Self::NT) -> u32 {
    match n {
      StartNonTerminal::Start => START,
      StartNonTerminal::NTerm(n) => V::head(n),
    }
  }
  fn ak(k: &Self::AK) -> u32 {
    match k {
      StartActionKey::Start => START,
      StartActionKey::ActionKey(k) => V::ak(k),
    }
  }
  fn av(v: &Self::AV) -> u32 {
    match v {
      StartActionValue::Start => START,
      StartActionValue::ActionValue(v) => V::av(v),
    }
  }
  fn nt(n: u32) -> Self::NT {
    if n == START {
      StartNonTerminal::Start
    } else {
      StartNonTerminal::NTerm(V::nt(n))
    }
  }
}

/// Label of the start nonterminal, terminal and action in the description of
/// a wrapped grammar.
const START: u32 = 4_000_000_000;
/// Identifier that is not compared.
const ANY_ID: &str = "\u{0}any";

fn same_id(a: Option<&str>, b: Option<&str>) -> bool {
  b == Some(ANY_ID) || a == b
}

fn check_prod<V: View>(
  p: &Prod<V::T, V::NT, V::AK, V::AV>,
  head: u32,
  pd: &PD,
  events: &mut u64,
) -> R
where
  V::NT: Ord + Clone,
  V::AK: Ord + Clone,
{
  *events += 1;
  ensure!(V::head(p.head()) == head, "head of a production of n{}", head);
  ensure!(V::ak(p.action_key()) == pd.ak, "action key, k{}", pd.ak);
  ensure!(V::av(p.action_value()) == pd.av, "action value, v{}", pd.av);
  let key = p.prod_key();
  ensure!(
    V::head(key.head()) == head && V::ak(key.action_key()) == pd.ak,
    "key of production k{} of n{}",
    pd.ak,
    head
  );
  let n = pd.elems.len();
  ensure!(p.num_elements() == n, "number of elements of k{}", pd.ak);
  let els: Vec<S> = p.elements().map(V::elem).collect();
  let exp: Vec<S> = pd.elems.iter().map(|e| e.s).collect();
  ensure!(els == exp, "elements() of k{}: {:?}, not {:?}", pd.ak, els, exp);
  let pes = p.prod_elements();
  ensure!(pes.len() == n, "prod_elements() of k{}", pd.ak);
  for (i, (pe, ed)) in pes.iter().zip(&pd.elems).enumerate() {
    ensure!(
      same_id(pe.id().map(|n| n.str()), ed.id.as_deref()),
      "identifier {} of k{}: {:?}, not {:?}",
      i,
      pd.ak,
      pe.id(),
      ed.id
    );
    ensure!(V::elem(pe.elem()) == ed.s, "element {} of k{}", i, pd.ak);
  }
  for i in (0..n + 3).chain([usize::MAX, usize::MAX / 2]) {
    let e = p.element_at(i).map(V::elem);
    ensure!(
      e == pd.elems.get(i).map(|e| e.s),
      "element_at({}) of k{}: {:?}",
      i,
      pd.ak,
      e
    );
    match (p.prod_element_at(i), pd.elems.get(i)) {
      (None, None) => {}
      (Some(pe), Some(ed)) => ensure!(
        V::elem(pe.elem()) == ed.s
          && same_id(pe.id().map(|n| n.str()), ed.id.as_deref()),
        "prod_element_at({}) of k{}",
        i,
        pd.ak
      ),
      _ => return Err(format!("prod_element_at({}) of k{}", i, pd.ak)),
    }
  }
  ensure!(
    p.first_elem().map(V::elem) == pd.elems.first().map(|e| e.s),
    "first_elem of k{}",
    pd.ak
  );
  Ok(())
}

fn check_rule<V: View>(
  r: &Rule<V::T, V::NT, V::AK, V::AV>,
  rd: &RD,
  events: &mut u64,
) -> R
where
  V::NT: Ord + Clone,
  V::AK: Ord + Clone,
{
  ensure!(V::head(r.head()) == rd.head, "head of rule n{}", rd.head);
  let ps: Vec<_> = r.prods().collect();
  ensure!(
    ps.len() == rd.prods.len(),
    "rule n{} has {} productions, not {}",
    rd.head,
    ps.len(),
    rd.prods.len()
  );
  for (p, pd) in ps.iter().zip(&rd.prods) {
    check_prod::<V>(p, rd.head, pd, events)?;
  }
  Ok(())
}

/// Everything the grammar says about itself is what the description says.
fn check_same<V: View>(
  g: &Grammar<V::T, V::NT, V::AK, V::AV>,
  d: &Desc,
  unknown: &[u32],
  events: &mut u64,
) -> R
where
  V::NT: Ord + Clone,
  V::AK: Ord + Clone,
{
  ensure!(V::head(g.start_nt()) == d.start, "start symbol");
  let exp: BTreeMap<u32, &RD> = d.rules.iter().map(|r| (r.head, r)).collect();
  // By iteration.
  let mut seen = BTreeSet::new();
  for r in g.rules() {
    let h = V::head(r.head());
    ensure!(seen.insert(h), "rules() yields n{} twice", h);
    let rd = exp
      .get(&h)
      .ok_or_else(|| format!("rules() yields an unknown rule n{}", h))?;
    check_rule::<V>(&r, rd, events)?;
  }
  ensure!(seen.len() == exp.len(), "rules() lacks rules");
  // By map.
  let set = g.rule_set();
  ensure!(set.len() == exp.len(), "rule_set() has {} rules", set.len());
  for (n, r) in &set {
    let h = V::head(n);
    let rd = exp
      .get(&h)
      .ok_or_else(|| format!("rule_set() has an unknown rule n{}", h))?;
    check_rule::<V>(r, rd, events)?;
  }
  // By head.
  for (h, rd) in &exp {
    let n = V::nt(*h);
    let r = g
      .try_get_rule(&n)
      .ok_or_else(|| format!("no rule for head n{}", h))?;
    check_rule::<V>(&r, rd, events)?;
    check_rule::<V>(&g.get_rule(&n), rd, events)?;
    ensure!(
      set.get(&n).map(|r| V::head(r.head())) == Some(*h),
      "rule_set() does not find n{}",
      h
    );
  }
  for h in unknown {
    if exp.contains_key(h) {
      continue;
    }
    ensure!(
      g.try_get_rule(&V::nt(*h)).is_none(),
      "found a rule for the unknown head n{}",
      h
    );
    ensure!(
      guard(|| g.get_rule(&V::nt(*h)).head().clone()).is_err(),
      "get_rule gave a rule for the unknown head n{}",
      h
    );
  }
  // Over all productions.
  let mut by_head: BTreeMap<u32, Vec<Prod<V::T, V::NT, V::AK, V::AV>>> =
    BTreeMap::new();
  for p in g.prods() {
    by_head.entry(V::head(p.head())).or_default().push(p);
  }
  for (h, rd) in &exp {
    let ps = by_head.remove(h).unwrap_or_default();
    ensure!(
      ps.len() == rd.prods.len(),
      "prods() has {} productions of n{}, not {}",
      ps.len(),
      h,
      rd.prods.len()
    );
    for (p, pd) in ps.iter().zip(&rd.prods) {
      check_prod::<V>(p, *h, pd, events)?;
    }
  }
  ensure!(by_head.is_empty(), "prods() has productions of unknown heads");
  Ok(())
}

fn unknown_labels(d: &Desc, rng: &mut Rng) -> Vec<u32> {
  let mut v = vec![0, 1, 123_456_789, u32::MAX];
  for r in &d.rules {
    v.push(r.head.wrapping_add(1));
    v.push(r.head.wrapping_sub(1));
  }
  v.extend(d.terminals());
  rng.shuffle(&mut v);
  v.truncate(12);
  v
}

fn build_lib(d: &Desc) -> Option<Grammar<Terminal, NonTerminal, Name, ()>> {
  let nt = |n: u32| NonTerminal::new(&format!("n{}", n));
  let tm = |n: u32| Terminal::new(&format!("t{}", n));
  build(nt(d.start), |gb| {
    for r in &d.rules {
      gb.add_rule(nt(r.head), |rb| {
        for p in &r.prods {
          rb.add_prod(format!("k{}", p.ak).as_str(), (), |pb| {
            for e in &p.elems {
              match (&e.id, e.s) {
                (None, S::T(t)) => pb.add_term(tm(t)),
                (None, S::N(n)) => pb.add_nonterm(&nt(n)),
                (Some(id), S::T(t)) => pb.add_named_term(id.as_str(), &tm(t)),
                (Some(id), S::N(n)) => pb.add_named_nonterm(id.as_str(), nt(n)),
              };
            }
          });
        }
      });
    }
  })
  .ok()
}

fn g02(ctx: &mut Ctx) -> R {
  let mut d = if ctx.stream == "lib" {
    gen(&mut ctx.rng, &Shape::MEDIUM)
  } else {
    gen_stream(ctx)
  };
  if ctx.rng.chance(1, 8) {
    // Two productions alike in everything but their value.
    let i = ctx.rng.below(d.rules.len());
    let mut p = d.rules[i].prods[0].clone();
    p.av = 500_000;
    d.rules[i].prods.push(p);
  }
  if ctx.stream == "lib" {
    for r in &mut d.rules {
      for p in &mut r.prods {
        p.av = 0;
      }
    }
  }
  ctx.note(d.text());
  if d.num_prods() > 1 {
    ctx.nontrivial(d.sig());
  }
  let unknown = unknown_labels(&d, &mut ctx.rng);
  let mut ev = 0;
  if ctx.stream == "lib" {
    let g = match guard(|| build_lib(&d)) {
      Ok(Some(g)) => g,
      _ => {
        ctx.count("skipped", 1);
        return Ok(());
      }
    };
    check_same::<Lib>(&g, &d, &unknown, &mut ev)?;
    check_same::<Lib>(&g.clone(), &d, &unknown, &mut ev)?;
  } else {
    let mut rng = ctx.rng.clone();
    let g = match guard(|| build_mixed(&d, &mut rng)) {
      Ok(Some(g)) => g,
      _ => {
        ctx.count("skipped", 1);
        return Ok(());
      }
    };
    check_same::<Own>(&g, &d, &unknown, &mut ev)?;
    let c = g.clone();
    check_same::<Own>(&c, &d, &unknown, &mut ev)?;
    drop(g);
    check_same::<Own>(&c, &d, &unknown, &mut ev)
      .map_err(|e| format!("clone after the original is gone: {}", e))?;
  }
  // Elements on their own.
  for (_, p) in d.prods().take(4) {
    for e in p.elems.iter().take(4) {
      let name = e.id.as_ref().map(|s| Name::new(s));
      let a = ProdElement::new(name.clone(), elem_of(e.s));
      let b = match &name {
        Some(n) => ProdElement::new_with_name(n.clone(), elem_of(e.s)),
        None => ProdElement::new_empty(elem_of(e.s)),
      };
      ensure!(a == b, "the constructors of an element differ");
      let from: ProdElement<Tm, Nt> = elem_of(e.s).into();
      ensure!(
        from.id().is_none() && s_of(from.elem()) == e.s,
        "element from its symbol"
      );
      let el = a.elem();
      let ok = match e.s {
        S::T(t) => {
          el.as_term().map(|x| x.0) == Some(t)
            && el.as_nonterm().is_none()
            && matches!(el.as_ref(), Elem::Term(x) if x.0 == t)
        }
        S::N(n) => {
          el.as_nonterm().map(|x| x.0) == Some(n)
            && el.as_term().is_none()
            && matches!(el.as_ref(), Elem::NonTerm(x) if x.0 == n)
        }
      };
      ensure!(ok, "as_term/as_nonterm/as_ref of {:?}", e.s);
    }
  }
  ctx.count("production_views_compared", ev);
  Ok(())
}

// ------------------------------------------------------------------- G03

pub const G03: Prop = Prop {
  id: "G03",
  streams: &[
    st("small", 3000, 60_000),
    st("medium", 2000, 40_000),
    st("wide", 300, 4000),
    st("chain", 60, 1000),
    st("big", 120, 2000),
    st("lib", 500, 10_000),
    st("sizes", 2, 100),
  ],
  run: g03,
  rule: "random valid grammars, wrapped once and twice; the result is compared with the description plus the start rule; non-trivial: at least two productions; distinct by rule structure",
};

fn wrapped_desc(d: &Desc) -> Desc {
  let mut rules = d.rules.clone();
  rules.push(RD {
    head: START,
    prods: vec![PD {
      ak: START,
      av: START,
      elems: vec![
        ED {
          id: Some(ANY_ID.into()),
          s: S::N(d.start),
        },
        ED {
          id: Some(ANY_ID.into()),
          s: S::T(START),
        },
      ],
    }],
  });
  Desc {
    start: START,
    rules,
  }
}

fn g03_start<T, NT, AK, AV>(
  g: &StartGrammar<T, NT, AK, AV>,
  start_is: impl Fn(&NT) -> bool,
) -> R
where
  T: Eq,
  NT: Ord + Clone,
  AK: Ord + Clone,
{
  ensure!(
    matches!(g.start_nt(), StartNonTerminal::Start),
    "the start symbol is not the fresh one"
  );
  let r = g.start_rule();
  ensure!(
    matches!(r.head(), StartNonTerminal::Start) && r.prods().count() == 1,
    "start_rule()"
  );
  let p = g.start_prod();
  ensure!(Some(p) == r.prods().next(), "start_prod()");
  ensure!(
    p.action_key().as_base().is_none()
      && matches!(p.action_value(), StartActionValue::Start),
    "action of the start production"
  );
  let ok = match (p.element_at(0), p.element_at(1), p.num_elements()) {
    (
      Some(Elem::NonTerm(StartNonTerminal::NTerm(n))),
      Some(Elem::Term(t)),
      2,
    ) => start_is(n) && t.is_eos(),
    _ => false,
  };
  ensure!(ok, "elements of the start production");
  for p in g.prods() {
    if *p.head() == StartNonTerminal::Start {
      continue;
    }
    ensure!(p.action_key().as_base().is_some(), "as_base of an action");
    for e in p.elements() {
      if let Elem::Term(t) = e {
        let ok = match t {
          StreamTerminal::Term(k) => !t.is_eos() && t.has_kind(k),
          StreamTerminal::EndOfStream => false,
        };
        ensure!(ok, "a terminal of the original was changed");
      }
    }
  }
  Ok(())
}

fn g03(ctx: &mut Ctx) -> R {
  let d = if ctx.stream == "lib" {
    let mut d = gen(&mut ctx.rng, &Shape::MEDIUM);
    for r in &mut d.rules {
      for p in &mut r.prods {
        p.av = 0;
      }
    }
    d
  } else {
    gen_stream(ctx)
  };
  ctx.note(d.text());
  if d.num_prods() > 1 {
    ctx.nontrivial(d.sig());
  }
  let unknown = unknown_labels(&d, &mut ctx.rng);
  let wd = wrapped_desc(&d);
  let mut ev = 0;
  if ctx.stream == "lib" {
    let Ok(Some(g)) = guard(|| build_lib(&d)) else {
      ctx.count("skipped", 1);
      return Ok(());
    };
    let w = wrap_grammar_with_start(g)
      .map_err(|e| format!("wrapping failed: {:?}", e))?;
    check_same::<WrapView<Lib>>(&w, &wd, &unknown, &mut ev)?;
    g03_start(&w, |n| Lib::head(n) == d.start)?;
  } else {
    let Ok(g) = d.built() else {
      ctx.count("skipped", 1);
      return Ok(());
    };
    let w = wrap_grammar_with_start(g)
      .map_err(|e| format!("wrapping failed: {:?}", e))?;
    check_same::<WrapView<Own>>(&w, &wd, &unknown, &mut ev)?;
    g03_start(&w, |n| n.0 == d.start)?;
    // The terminal tests.
    let eos: StreamTerminal<Tm> = StreamTerminal::EndOfStream;
    for t in d.terminals() {
      let st = StreamTerminal::Term(Tm(t));
      ensure!(
        st.has_kind(&Tm(t))
          && !st.has_kind(&Tm(t.wrapping_add(1)))
          && !eos.has_kind(&Tm(t))
          && st != eos,
        "has_kind"
      );
    }
    // Again, on top.
    let ww = wrap_grammar_with_start(w.clone())
      .map_err(|e| format!("wrapping twice failed: {:?}", e))?;
    g03_start(&ww, |n| matches!(n, StartNonTerminal::Start))?;
    ensure!(
      ww.rules().count() == d.rules.len() + 2,
      "wrapping twice gives {} rules",
      ww.rules().count()
    );
    for rd in &wd.rules {
      let inner = WrapView::<Own>::nt(rd.head);
      let r = ww
        .try_get_rule(&StartNonTerminal::NTerm(inner))
        .ok_or("a rule is lost when wrapping twice")?;
      let ps: Vec<_> = r.prods().collect();
      ensure!(ps.len() == rd.prods.len(), "productions when wrapping twice");
      for (p, pd) in ps.iter().zip(&rd.prods) {
        ev += 1;
        let els: Option<Vec<S>> = p
          .elements()
          .map(|e| match e {
            Elem::Term(StreamTerminal::Term(t)) => {
              Some(WrapView::<Own>::elem(&Elem::Term(t.clone())))
            }
            Elem::NonTerm(StartNonTerminal::NTerm(n)) => {
              Some(S::N(WrapView::<Own>::head(n)))
            }
            _ => None,
          })
          .collect();
        let exp: Vec<S> = pd.elems.iter().map(|e| e.s).collect();
        ensure!(els == Some(exp), "elements when wrapping twice");
        ensure!(
          p.action_key().as_base().map(WrapView::<Own>::ak) == Some(pd.ak),
          "action key when wrapping twice"
        );
      }
    }
  }
  ctx.count("production_views_compared", ev);
  Ok(())
}

// ------------------------------------------------------------------- G04

pub const G04: Prop = Prop {
  id: "G04",
  streams: &[
    st("own", 3000, 50_000),
    st("lib", 4000, 60_000),
    st("longnames", 1500, 30_000),
    st("big", 80, 1500),
    st("wrapped", 1000, 20_000),
    st("sizes", 2, 100),
  ],
  run: g04,
  rule: "random valid grammars with names of random length (also far wider than the line) and script, printed and matched token by token; non-trivial: the text is broken over lines or has an identifier; distinct by rule structure",
};

struct M<'a> {
  s: &'a str,
  at: usize,
}

impl<'a> M<'a> {
  fn ws0(&mut self) {
    while let Some(c) = self.s[self.at..].chars().next() {
      if c == ' ' || c == '\n' {
        self.at += 1;
      } else {
        break;
      }
    }
  }
  fn ws1(&mut self) -> R {
    let b = self.at;
    self.ws0();
    ensure!(self.at > b, "no white space at byte {}: {:?}", b, self.rest());
    Ok(())
  }
  fn lit(&mut self, l: &str) -> R {
    ensure!(
      self.s[self.at..].starts_with(l),
      "expected {:?} at byte {}, found {:?}",
      l,
      self.at,
      self.rest()
    );
    self.at += l.len();
    Ok(())
  }
  fn rest(&self) -> String {
    self.s[self.at..].chars().take(60).collect()
  }
}

pub fn match_pretty(
  text: &str,
  d: &Desc,
  order: &[u32],
  nt: &dyn Fn(u32) -> String,
  tm: &dyn Fn(u32) -> String,
) -> R {
  let mut m = M { s: text, at: 0 };
  m.ws0();
  m.lit("Start")?;
  m.ws0();
  m.lit("=")?;
  m.ws1()?;
  m.lit(&nt(d.start))?;
  m.ws0();
  m.lit(",")?;
  m.ws1()?;
  m.lit("Rules")?;
  m.ws0();
  m.lit("{")?;
  m.ws0();
  for h in order {
    let rd = d.rule(*h).unwrap();
    m.lit(&nt(*h))?;
    m.ws1()?;
    m.lit("=>")?;
    m.ws1()?;
    for (i, p) in rd.prods.iter().enumerate() {
      if i > 0 {
        m.ws1()?;
        m.lit("|")?;
        m.ws1()?;
      }
      if p.elems.is_empty() {
        m.lit("ε")?;
      }
      for (j, e) in p.elems.iter().enumerate() {
        if j > 0 {
          m.ws1()?;
        }
        if let Some(id) = &e.id {
          if id != ANY_ID {
            m.lit(id)?;
            m.lit(":")?;
            m.ws0();
          } else if m.s[m.at..].starts_with("start:") {
            m.lit("start:")?;
            m.ws0();
          }
        }
        match e.s {
          S::T(t) => m.lit(&tm(t))?,
          S::N(n) => {
            m.lit("<")?;
            m.lit(&nt(n))?;
            m.lit(">")?;
          }
        }
      }
    }
    m.ws0();
    m.lit(";")?;
    m.ws0();
  }
  m.lit("}")?;
  m.ws0();
  m.lit(",")?;
  m.ws0();
  ensure!(m.at == text.len(), "text after the end: {:?}", m.rest());
  Ok(())
}

const NAME_POOL: [&str; 16] = [
  "expr", "é", "値", "a b", "x|y", "p;q", "ε", "{", "<angle>", "=>", "a:b",
  "🎉", "tab_le", ",", "Start", "n1",
];

fn g04(ctx: &mut Ctx) -> R {
  let mut d = match ctx.stream {
    "own" | "wrapped" => {
      let sh = if ctx.rng.chance(1, 2) {
        Shape::MEDIUM
      } else {
        Shape::SMALL
      };
      if ctx.rng.chance(1, 10) {
        gen_wide(&mut ctx.rng, 40)
      } else {
        gen(&mut ctx.rng, &sh)
      }
    }
    "big" => gen_big(&mut ctx.rng),
    "sizes" => {
      let cap = *ctx.rng.pick(&[70usize, 300, 1100]);
      gen_sizes(&mut ctx.rng, cap, usize::MAX)
    }
    _ => gen(&mut ctx.rng, &Shape::MEDIUM),
  };
  // Identifiers that begin or end with white space cannot be told from layout.
  for e in
    d.rules.iter_mut().flat_map(|r| &mut r.prods).flat_map(|p| &mut p.elems)
  {
    if let Some(id) = &mut e.id {
      *id = id.replace(['\n', '\r'], "_").trim().to_string();
    }
  }
  let mut order: Vec<u32> = d.heads().into_iter().collect();
  let text;
  match ctx.stream {
    "own" | "big" | "sizes" => {
      ctx.note(d.text());
      let Ok(g) = d.built() else {
        ctx.count("skipped", 1);
        return Ok(());
      };
      text = g.to_pretty();
      match_pretty(&text, &d, &order, &|n| format!("n{}", n), &|t| {
        format!("t{}", t)
      })
      .map_err(|e| format!("{}\n{}", e, text))?;
    }
    "wrapped" => {
      ctx.note(d.text());
      let Ok(g) = d.built() else {
        ctx.count("skipped", 1);
        return Ok(());
      };
      let Ok(Ok(w)) = guard(|| wrap_grammar_with_start(g)) else {
        ctx.count("skipped", 1);
        return Ok(());
      };
      let wd = wrapped_desc(&d);
      order.insert(0, START);
      text = w.to_pretty();
      match_pretty(
        &text,
        &wd,
        &order,
        &|n| {
          if n == START {
            "<START>".into()
          } else {
            format!("n{}", n)
          }
        },
        &|t| {
          if t == START {
            "<EOS>".into()
          } else {
            format!("t{}", t)
          }
        },
      )
      .map_err(|e| format!("{}\n{}", e, text))?;
    }
    _ => {
      // The library's own types, with any text as name.
      let long = ctx.stream == "longnames";
      let mut names: BTreeMap<S, String> = BTreeMap::new();
      let mut used: BTreeSet<String> = BTreeSet::new();
      let syms: Vec<S> = d
        .heads()
        .into_iter()
        .map(S::N)
        .chain(d.terminals().into_iter().map(S::T))
        .collect();
      for s in syms {
        loop {
          let mut n = if ctx.rng.chance(1, 4) {
            ctx.rng.plain_word().to_string()
          } else {
            ctx.rng.pick(&NAME_POOL).to_string()
          };
          if ctx.rng.chance(1, 2) {
            n += &ctx.rng.below(50).to_string();
          }
          if long && ctx.rng.chance(1, 2) {
            let k = ctx.rng.range(20, 120);
            let c = *ctx.rng.pick(&['m', 'é', '語']);
            for _ in 0..k {
              n.push(c);
            }
          }
          if used.insert(n.clone()) {
            names.insert(s, n);
            break;
          }
        }
      }
      for r in &mut d.rules {
        for p in &mut r.prods {
          for e in &mut p.elems {
            if long && e.id.is_some() && ctx.rng.chance(1, 4) {
              let k = ctx.rng.range(20, 100);
              e.id = Some("i".repeat(k));
            }
          }
        }
      }
      ctx.note(format!("{}names {:?}", d.text(), names));
      let nt = |n: u32| names[&S::N(n)].clone();
      let tm = |n: u32| names[&S::T(n)].clone();
      let built = guard(|| {
        build(NonTerminal::new(&nt(d.start)), |gb| {
          for r in &d.rules {
            gb.add_rule(NonTerminal::new(&nt(r.head)), |rb| {
              for p in &r.prods {
                rb.add_prod("k", (), |pb| {
                  for e in &p.elems {
                    match (&e.id, e.s) {
                      (None, S::T(t)) => pb.add_term(Terminal::new(&tm(t))),
                      (None, S::N(n)) => {
                        pb.add_nonterm(NonTerminal::new(&nt(n)))
                      }
                      (Some(id), S::T(t)) => {
                        pb.add_named_term(id.as_str(), Terminal::new(&tm(t)))
                      }
                      (Some(id), S::N(n)) => pb.add_named_nonterm(
                        id.as_str(),
                        NonTerminal::new(&nt(n)),
                      ),
                    };
                  }
                });
              }
            });
          }
        })
        .ok()
      });
      let Ok(Some(g)): Result<
        Option<Grammar<Terminal, NonTerminal, Name, ()>>,
        _,
      > = built
      else {
        ctx.count("skipped", 1);
        return Ok(());
      };
      order.sort_by_key(|n| nt(*n));
      text = g.to_pretty();
      match_pretty(&text, &d, &order, &nt, &tm)
        .map_err(|e| format!("{}\n{}", e, text))?;
    }
  }
  let lines = text.matches('\n').count() as u64;
  ctx.count("line_breaks", lines);
  ctx.count("texts_matched", 1);
  let has_id = d.prods().any(|(_, p)| p.elems.iter().any(|e| e.id.is_some()));
  ctx.count("with_identifiers", has_id as u64);
  ctx.count(
    "with_empty_production",
    d.prods().any(|(_, p)| p.elems.is_empty()) as u64,
  );
  if lines > 0 || has_id {
    ctx.nontrivial(d.sig());
  }
  Ok(())
}

// ------------------------------------------------------------------- G05

pub const G05: Prop = Prop {
  id: "G05",
  streams: &[
    st("small", 3000, 60_000),
    st("twins", 3000, 60_000),
    st("medium", 800, 20_000),
    st("big", 30, 400),
    st("sizes", 2, 100),
  ],
  run: g05,
  rule: "handles of every production and rule obtained by several routes, from a grammar and its clone; all pairs compared; stream twins has many productions of equal content; non-trivial: at least two productions; distinct by rule structure",
};

fn g05(ctx: &mut Ctx) -> R {
  let mut d = if ctx.stream == "twins" {
    gen(
      &mut ctx.rng,
      &Shape {
        nts: (1, 3),
        ts: (1, 1),
        prods: (1, 5),
        len: (1, 2),
        nt_pct: 40,
        empty_pct: 30,
        id_pct: 10,
        dup_pct: 70,
      },
    )
  } else {
    gen_stream(ctx)
  };
  if ctx.stream == "twins" && ctx.rng.chance(2, 3) {
    // Alike in everything.
    for r in &mut d.rules {
      for p in &mut r.prods {
        p.ak = 1;
        p.av = 1;
      }
    }
  }
  ctx.note(d.text());
  if d.num_prods() > 1 {
    ctx.nontrivial(d.sig());
  }
  let Ok(g) = d.built() else {
    ctx.count("skipped", 1);
    return Ok(());
  };
  let other = g.clone();
  // (rule head, index) identifies a production.
  type H<'a> = Prod<'a, Tm, Nt, Ak, Av>;
  fn collect<'a>(g: &'a G) -> Vec<((u32, usize), H<'a>)> {
    let mut v: Vec<((u32, usize), H<'a>)> = Vec::new();
    for r in g.rules() {
      for (i, p) in r.prods().enumerate() {
        v.push(((r.head().0, i), p));
        let c = p.clone();
        v.push(((r.head().0, i), c));
      }
      let again = g.get_rule(r.head());
      for (i, p) in again.prods().enumerate() {
        v.push(((r.head().0, i), p));
      }
    }
    let mut next: BTreeMap<u32, usize> = BTreeMap::new();
    for p in g.prods() {
      let i = next.entry(p.head().0).or_insert(0);
      v.push(((p.head().0, *i), p));
      *i += 1;
    }
    for (n, r) in g.rule_set() {
      for (i, p) in r.prods().enumerate() {
        v.push(((n.0, i), p));
      }
    }
    v
  }
  let mut hs = collect(&g);
  ctx.rng.shuffle(&mut hs);
  if hs.len() > 120 {
    hs.truncate(120);
  }
  let mut pairs = 0u64;
  for (ia, a) in &hs {
    for (ib, b) in &hs {
      pairs += 1;
      let eq = ia == ib;
      ensure!(
        (a == b) == eq && (a != b) == !eq,
        "handles {:?} and {:?}: == gives {}",
        ia,
        ib,
        a == b
      );
      let c = a.cmp(b);
      ensure!(
        (c == Ordering::Equal) == eq,
        "handles {:?} and {:?}: cmp gives {:?}",
        ia,
        ib,
        c
      );
      ensure!(
        a.partial_cmp(b) == Some(c)
          && b.cmp(a) == c.reverse()
          && (a < b) == (c == Ordering::Less)
          && (a >= b) == (c != Ordering::Less),
        "handles {:?} and {:?}: the comparisons disagree",
        ia,
        ib
      );
    }
  }
  // Transitive: sorting gives one order for all pairs.
  let mut sorted: Vec<_> = hs.clone();
  sorted.sort_by(|a, b| a.1.cmp(&b.1));
  for i in 0..sorted.len() {
    for j in i..sorted.len() {
      ensure!(
        sorted[i].1 <= sorted[j].1,
        "the order of {:?} and {:?} is not total",
        sorted[i].0,
        sorted[j].0
      );
    }
  }
  let full = collect(&g);
  let set: BTreeSet<H> = full.iter().map(|x| x.1).collect();
  ensure!(
    set.len() == d.num_prods(),
    "a set of all handles has {} members, for {} productions",
    set.len(),
    d.num_prods()
  );
  // Those of another grammar are others.
  let os = collect(&other);
  for (ib, b) in os.iter().take(40) {
    for (ia, a) in hs.iter().take(40) {
      pairs += 1;
      ensure!(
        a != b && a.cmp(b) != Ordering::Equal && b.cmp(a) == a.cmp(b).reverse(),
        "handles {:?} of one grammar and {:?} of its clone",
        ia,
        ib
      );
    }
  }
  // Rules.
  let mut rs: Vec<Rule<Tm, Nt, Ak, Av>> = g.rules().collect();
  rs.extend(g.rule_set().into_values());
  rs.extend(d.heads().into_iter().filter_map(|h| g.try_get_rule(&Nt(h))));
  rs.extend(d.heads().into_iter().map(|h| g.get_rule(&Nt(h))));
  ctx.rng.shuffle(&mut rs);
  rs.truncate(60);
  for a in &rs {
    for b in &rs {
      pairs += 1;
      let eq = a.head().0 == b.head().0;
      let c = a.cmp(b);
      ensure!(
        (a == b) == eq
          && (c == Ordering::Equal) == eq
          && a.partial_cmp(b) == Some(c)
          && b.cmp(a) == c.reverse(),
        "rules n{} and n{}",
        a.head().0,
        b.head().0
      );
    }
  }
  rs.sort();
  for i in 0..rs.len() {
    for j in i..rs.len() {
      ensure!(rs[i] <= rs[j], "the order of rules is not total");
    }
  }
  // Of different grammars: no answer.
  let ors: Vec<_> = other.rules().collect();
  for _ in 0..4 {
    let a = *ctx.rng.pick(&rs);
    let b = *ctx.rng.pick(&ors);
    ensure!(guard(|| a == b).is_err(), "rules of two grammars compared");
    ensure!(guard(|| a != b).is_err(), "rules of two grammars compared");
    ensure!(guard(|| a.cmp(&b)).is_err(), "rules of two grammars ordered");
    ensure!(
      guard(|| a.partial_cmp(&b)).is_err() && guard(|| b < a).is_err(),
      "rules of two grammars ordered"
    );
    ctx.count("cross_grammar_panics", 4);
  }
  ctx.count("handle_pairs", pairs);
  Ok(())
}
