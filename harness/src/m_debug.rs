//! G07: debug forms.

use crate::core::*;
use crate::desc::*;
use crate::sy::*;
use bongo::grammar::{Elem, ProdElement};
use bongo::state::ProdState;
use bongo::utils::Name;
use std::collections::BTreeSet;

pub const G07: Prop = Prop {
  id: "G07",
  streams: &[
    st("small", 2500, 50_000),
    st("medium", 1500, 30_000),
    st("wide", 200, 3000),
    st("chain", 30, 500),
    st("big", 60, 1000),
    st("sizes", 2, 80),
  ],
  run: g07,
  rule: "debug forms, plain and pretty, of the elements, productions, rules, positions and whole of random grammars, from which symbols and identifiers are read back; non-trivial: two rules or an identifier; distinct by grammar",
};

/// A symbol in a text: its identifier, whether it is in angle brackets, its
/// kind and number.
type Sym = (Option<u64>, bool, char, u64);

/// All symbols in a text, in order.
fn read(text: &str) -> Vec<Sym> {
  let c: Vec<char> = text.chars().collect();
  let mut out = Vec::new();
  let number = |mut i: usize| {
    let b = i;
    let mut n = 0u64;
    while i < c.len() && c[i].is_ascii_digit() {
      n = n * 10 + c[i].to_digit(10).unwrap() as u64;
      i += 1;
    }
    (i > b).then_some((n, i))
  };
  let mut id = None;
  let mut i = 0;
  while i < c.len() {
    let fresh = i == 0 || !c[i - 1].is_alphanumeric();
    let sym = if fresh && matches!(c[i], 't' | 'n' | 'i') {
      number(i + 1)
    } else {
      None
    };
    match sym {
      Some((n, e)) if c[i] == 'i' => {
        let close = c.get(e) == Some(&':');
        id = Some(if close { n } else { u64::MAX });
        i = e + 1;
      }
      Some((n, e)) => {
        let open = i > 0 && c[i - 1] == '<';
        let close = c.get(e) == Some(&'>');
        out.push((id.take(), open && close, c[i], n));
        i = e;
      }
      None => i += 1,
    }
  }
  out
}

fn elem(e: &ED) -> Sym {
  let id = e.id.as_ref().map(|x| x[1..].parse().expect("harness: identifier"));
  match e.s {
    S::T(t) => (id, false, 't', t as u64),
    S::N(n) => (id, true, 'n', n as u64),
  }
}

fn head(n: u32) -> Sym {
  (None, false, 'n', n as u64)
}

fn prod(h: u32, p: &PD) -> Vec<Sym> {
  std::iter::once(head(h)).chain(p.elems.iter().map(elem)).collect()
}

fn rule(r: &RD) -> Vec<Sym> {
  std::iter::once(head(r.head))
    .chain(r.prods.iter().flat_map(|p| prod(r.head, p)))
    .collect()
}

/// Both forms.
fn forms<X: std::fmt::Debug>(x: &X) -> Result<[String; 2], String> {
  guard(|| [format!("{:?}", x), format!("{:#?}", x)])
    .map_err(|m| format!("printing panics: {}", m))
}

fn check<X: std::fmt::Debug>(
  ctx: &mut Ctx,
  what: &str,
  x: &X,
  want: &[Sym],
) -> R {
  for (i, text) in forms(x)?.iter().enumerate() {
    let got = read(text);
    ensure!(
      got == want,
      "the {} debug form of {} does not show it: {}",
      ["plain", "pretty"][i],
      what,
      text.chars().take(2000).collect::<String>()
    );
    ctx.count("forms_read", 1);
  }
  Ok(())
}

fn g07(ctx: &mut Ctx) -> R {
  let mut d = gen_stream(ctx);
  let mut k = 0;
  for p in d.rules.iter_mut().flat_map(|r| &mut r.prods) {
    for e in &mut p.elems {
      if e.id.is_some() {
        e.id = Some(format!("i{}", k));
        k += 1;
      }
    }
  }
  ctx.note(d.text());
  let Ok(g) = d.built() else {
    ctx.count("skipped", 1);
    return Ok(());
  };
  // Elements of their own, with any identifier.
  for p in d.rules.iter().flat_map(|r| &r.prods).take(20) {
    for e in p.elems.iter().take(20) {
      let x: Elem<Tm, Nt> = elem_of(e.s);
      let plain = match e.s {
        S::T(t) => format!("t{}", t),
        S::N(n) => format!("<n{}>", n),
      };
      let name = ctx.rng.word().to_string();
      let px = ProdElement::new_with_name(Name::new(&name), x.clone());
      let pe = ProdElement::new_empty(x.clone());
      for (what, text, want) in [
        ("an element", forms(&x)?, plain.clone()),
        ("an element without identifier", forms(&pe)?, plain.clone()),
        (
          "an element with identifier",
          forms(&px)?,
          format!("{}:{}", name, plain),
        ),
      ] {
        ensure!(
          text[0] == want && text[1] == want,
          "the debug form of {} is {:?} and {:?}, not {:?}",
          what,
          text[0],
          text[1],
          want
        );
        ctx.count("elements_printed", 1);
      }
    }
  }
  let mut rules: Vec<&RD> = d.rules.iter().collect();
  rules.sort_by_key(|r| r.head);
  let big = d.num_prods() > 200;
  for (r, x) in rules.iter().zip(g.rules()) {
    if !big || ctx.rng.chance(1, 20) {
      check(ctx, "a rule", &x, &rule(r))?;
    }
    for (p, y) in r.prods.iter().zip(x.prods()) {
      if big && ctx.rng.chance(19, 20) {
        continue;
      }
      let want = prod(r.head, p);
      check(ctx, "a production", &y, &want)?;
      if p.elems.len() > 60 {
        continue;
      }
      let mut s: Option<ProdState<Tm, Nt, Ak, Av>> =
        Some(ProdState::from_start(y));
      let mut seen = BTreeSet::new();
      while let Some(q) = s {
        check(ctx, "a position", &q, &want)?;
        ensure!(
          seen.insert(format!("{:?}", q)),
          "two positions of a production have one debug form: {:?}",
          q
        );
        s = q.next_elem_state().map(|(_, n)| n);
      }
    }
  }
  // A grammar: its symbols, then its rules.
  let want: Vec<Sym> = rules.iter().flat_map(|r| rule(r)).collect();
  let body: BTreeSet<(char, u64)> = d
    .terminals()
    .into_iter()
    .map(|t| ('t', t as u64))
    .chain(d.body_nts().into_iter().map(|n| ('n', n as u64)))
    .collect();
  for h in [g.clone(), g] {
    for text in forms(&h)? {
      let got = read(&text);
      let show = || text.chars().take(3000).collect::<String>();
      ensure!(
        got.len() >= want.len()
          && got[got.len() - want.len()..] == want[..],
        "the debug form of a grammar does not end in its rules: {}",
        show()
      );
      let first: BTreeSet<(char, u64)> = got[..got.len() - want.len()]
        .iter()
        .map(|s| (s.2, s.3))
        .collect();
      ensure!(
        body.is_subset(&first)
          && first.iter().all(|s| {
            body.contains(s) || s.0 == 'n' && d.rule(s.1 as u32).is_some()
          }),
        "the debug form of a grammar does not begin with its symbols: {}",
        show()
      );
      ctx.count("grammars_read", 1);
    }
  }
  if d.rules.len() > 1 || k > 0 {
    ctx.nontrivial(d.sig());
  }
  Ok(())
}
