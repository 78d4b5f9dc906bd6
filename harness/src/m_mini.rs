//! Small workloads for Miri and the address sanitizer: every part of the
//! library, with values that own memory, and no oracle but the sanitizer.

use crate::core::*;
use bongo::grammar::passes::{
  firsts::Firsts, follows::Follows, nullable::Nullable, PassContext,
};
use bongo::grammar::transform::nonnull::transform_to_nonnull;
use bongo::grammar::{
  build, Elem, Grammar, GrammarErrors, NonTerminal, ProdElement, Terminal,
};
use bongo::parsers::earley::parse;
use bongo::parsers::tree::{Node, NodeContent, TreeOwner};
use bongo::parsers::{Token, TokenStream, VecTokenStream};
use bongo::start_grammar::wrap_grammar_with_start;
use bongo::state::{ProdState, ProdStateSet};
use bongo::utils::buffer::BufferRange;
use bongo::utils::type_map::{TypeKey, TypeMap};
use bongo::utils::*;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};

pub const KINDS: u64 = 9;

type Gr = Grammar<Terminal, NonTerminal, Name, String>;

/// A grammar in letters: capitals are nonterminals, `_` before one a name.
fn gram(text: &str) -> Result<Gr, GrammarErrors<NonTerminal>> {
  let nt = |c: char| NonTerminal::new(&c.to_string());
  let start = nt(text.chars().next().unwrap_or('S'));
  build(&start, |b| {
    for (i, rule) in text.split(';').enumerate() {
      let (head, alts) = rule.split_at(1);
      b.add_rule(&nt(head.chars().next().unwrap_or('S')), |rb| {
        for (j, alt) in alts.split('|').enumerate() {
          let ak = Name::new(&format!("p{}{}", i, j));
          let elem = |c: char| {
            if c.is_uppercase() {
              Elem::NonTerm(nt(c))
            } else {
              Elem::Term(Terminal::new(&c.to_string()))
            }
          };
          if j % 2 == 0 {
            let mut v = Vec::new();
            let mut named = false;
            for c in alt.chars() {
              if c == '_' {
                named = true;
              } else if named {
                v.push(ProdElement::new_with_name(
                  Name::new(&format!("x{}", v.len())),
                  elem(c),
                ));
                named = false;
              } else {
                v.push(ProdElement::new_empty(elem(c)));
              }
            }
            rb.add_prod_with_elems(&ak, alt.to_string(), v);
          } else {
            rb.add_prod(&ak, alt.to_string(), |pb| {
              for (k, c) in alt.chars().filter(|c| *c != '_').enumerate() {
                match elem(c) {
                  Elem::Term(t) => pb.add_named_term(
                    Name::new(&format!("x{}", k)),
                    t,
                  ),
                  Elem::NonTerm(n) => pb.add_nonterm(n),
                };
              }
            });
          }
        }
      });
    }
  })
}

const GRAMMARS: &[&str] = &[
  "Sa",
  "S_Sa|b",
  "SSS|a|",
  "S_A_B|a;A|a;B_A",
  "SaSb|_A;A|c",
  "SS|a",
  "SAb;A_Ba|;B|b",
  "SaT|b;T_Sc",
  // Not valid.
  "S_A",
  "Sa;Bb",
  "SAB;Aa",
];

fn pick(rng: &mut Rng) -> Gr {
  loop {
    if let Ok(g) = gram(rng.pick(GRAMMARS)) {
      return g;
    }
  }
}

fn walk<K, V>(n: &Node<String, K, V>, depth: usize) -> usize
where
  K: Ord + Clone,
  V: Ord + Clone,
{
  let mut sum = 1;
  for a in n.alts() {
    match a.content() {
      NodeContent::Leaf(l) => {
        sum += l.kind().len() + (*l.value() == *l.value()) as usize;
      }
      NodeContent::Branch(b) => {
        let _ = b.action();
        if depth > 0 {
          for m in b.nodes() {
            sum += walk(&m, depth - 1);
          }
        } else {
          sum += b.nodes().count();
        }
      }
    }
  }
  sum
}

/// The same for the trees of library parses.
fn walk_parse<T, K, V>(n: &Node<T, K, V>, depth: usize) -> usize
where
  T: Ord + Clone,
  K: Ord + Clone,
  V: Ord + Clone,
{
  let mut sum = 1;
  for a in n.alts() {
    match a.content() {
      NodeContent::Leaf(l) => {
        let _ = (l.kind(), l.value());
      }
      NodeContent::Branch(b) => {
        let _ = b.action();
        for m in b.nodes() {
          if depth > 0 {
            sum += walk_parse(&m, depth - 1);
          }
        }
      }
    }
  }
  sum
}

#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct K1(String);
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct K2(u8);
impl TypeKey for K1 {
  type ValueType = Vec<String>;
}
impl TypeKey for K2 {
  type ValueType = Box<str>;
}

/// Runs one workload; returns its name.
pub fn run(seed: u64) -> &'static str {
  let mut rng = Rng::new(seed);
  let rng = &mut rng;
  match seed % KINDS {
    0 => {
      let g = gram(rng.pick(GRAMMARS));
      match g {
        Err(e) => drop(format!("{:?}", e)),
        Ok(g) => {
          let h = g.clone();
          let a: Vec<_> = g.prods().collect();
          let b: Vec<_> = h.prods().collect();
          let set: BTreeSet<_> = a.iter().chain(&b).copied().collect();
          for p in &set {
            let _ = (p.head(), p.action_key(), p.action_value().len());
            let _ = (p.element_at(0), p.prod_element_at(1), p.first_elem());
            let _ = p.prod_key();
          }
          for r in g.rules() {
            for p in r.prods() {
              let _ = p.elements().count() + p.num_elements();
            }
          }
          for (nt, r) in g.rule_set() {
            assert!(g.get_rule(nt) == r);
          }
          assert!(g.try_get_rule(&NonTerminal::new("none")).is_none());
        }
      }
      "grammar"
    }
    1 => {
      let g = pick(rng);
      let pc = PassContext::new(&g);
      match rng.below(3) {
        0 => drop(pc.get_pass::<Follows<_, _>>()),
        1 => drop(pc.get_pass::<Firsts<_, _>>()),
        _ => {}
      }
      if let Ok(n) = pc.get_pass::<Nullable<_, _>>() {
        let _ = n.get_nullable_set().len();
        for p in g.prods() {
          let _ = n.is_nullable(p.head()) | n.is_prod_nullable(&p);
          let _ = n.get_nullable_info().get_nullable_action(p.head());
        }
      }
      "analyses"
    }
    2 => {
      let g = pick(rng);
      let pc = PassContext::new(&g);
      match pc.get_pass::<Firsts<_, _>>() {
        Ok(f) => {
          let _ = f.get(g.start_nt()).map(|s| s.len());
        }
        Err(_) => {}
      }
      let _ = guard(|| transform_to_nonnull(&g).is_ok());
      "transform"
    }
    3 | 4 => {
      let Ok(g) = wrap_grammar_with_start(pick(rng)) else {
        return "parse";
      };
      let tree = TreeOwner::new();
      let mut roots = Vec::new();
      for _ in 0..rng.range(1, 2) {
        let toks: Vec<Token<Terminal, String>> = (0..rng.below(4))
          .map(|_| {
            let k = *rng.pick(&["a", "a", "b", "c"]);
            Token::new(Terminal::new(k), format!("value of {}", k))
          })
          .collect();
        if let Ok(Some(n)) = guard(|| parse(&g, &tree.handle(), toks)) {
          roots.push(n);
        }
      }
      for n in &roots {
        walk_parse(n, 4);
      }
      "parse"
    }
    5 => {
      let tree: TreeOwner<String, String, Vec<u8>> = TreeOwner::new();
      let k = rng.range(2, 3);
      let shared: Vec<_> =
        (0..2).map(|_| tree.handle().make_node()).collect();
      std::thread::scope(|s| {
        for t in 0..k {
          let mut rng = Rng::new(rng.next() ^ t as u64);
          let (tree, shared) = (&tree, &shared);
          s.spawn(move || {
            let h = tree.handle();
            for i in 0..3 {
              let n = &shared[rng.below(2)];
              match rng.below(6) {
                0 => {
                  let l =
                    h.make_leaf_node(format!("k{}", i), vec![t as u8; 3]);
                  let a = l.alts().next();
                  if let Some(a) = a {
                    let _ = n.add_alt(&a);
                  }
                }
                1 => {
                  let a =
                    h.make_branch_alt("b".to_string(), shared.iter().cloned());
                  let _ = n.add_alt(&a);
                }
                2 => drop(n.add_all(&shared[rng.below(2)])),
                3 => drop(walk(n, 1)),
                4 => {
                  let m = h.make_branch_node(
                    format!("c{}", i),
                    (0..2).map(|_| h.make_node()),
                  );
                  let _ = n.add_all(&m);
                }
                _ => {
                  let a = h.make_leaf_alt("x".to_string(), vec![]);
                  let _ = n.add_alt(&a);
                }
              }
            }
          });
        }
      });
      walk(&shared[0], 2);
      "threads"
    }
    6 => {
      let text: String = (0..rng.below(7))
        .map(|_| *rng.pick(&['a', 'é', '\n', '\r', '€', '😀', '\u{301}']))
        .collect();
      let mut r = BufferRange::new("source", &text);
      let whole = r.clone();
      for _ in 0..4 {
        match rng.below(5) {
          0 => drop(r.read_char_mut()),
          1 => {
            if let Some((_, next)) = r.read_char() {
              let head = whole.remove_suffix(&next);
              drop(head.clone().advance_n_mut(1));
              r = next;
            }
          }
          2 => {
            let n = rng.below(4);
            let _ = r.advance_n_mut(n).map(|s| s.len());
          }
          3 => {
            if let Some((s, next)) = r.advance_n(rng.below(3)) {
              let _ = s.len();
              r = next;
            }
          }
          _ => {
            let _ = (r.start_pos(), r.end_pos());
          }
        }
      }
      let toks: Vec<Token<String, String>> = text
        .chars()
        .map(|c| Token::new(c.to_string(), "v".to_string()))
        .collect();
      let mut s = Some(VecTokenStream::from_into_iter(toks));
      for _ in 0..9 {
        let Some(t) = s.take() else { break };
        let again = t.clone();
        let _ = t.next();
        s = again.next().map(|(_, next)| next);
      }
      "buffer"
    }
    7 => {
      let mut m = [TypeMap::new(), TypeMap::new()];
      for _ in 0..6 {
        let w = rng.below(2);
        let x = rng.below(2);
        match rng.below(6) {
          0 | 1 => m[w].insert(K1(x.to_string()), vec!["v".to_string(); x]),
          2 => m[w].insert(K2(x as u8), "boxed".into()),
          3 => {
            let (a, b) = m.split_at_mut(1);
            a[0].merge(&mut b[0]);
          }
          4 => {
            if let Some(v) = m[w].get_mut(&K1(x.to_string())) {
              v.push("more".into());
            }
          }
          _ => {
            let _ = m[w].get(&K2(x as u8)).map(|v| v.len());
          }
        }
      }
      let n = Name::new("name");
      let mut o = n.clone();
      o.make_mut().push('x');
      let p = o.clone();
      assert!(n != p && p == o);
      let mut c: CollectMap<Name, Name> = CollectMap::new();
      let _ = c.insert(n.clone(), o.clone());
      let _ = c.insert_iter(p.clone(), vec![n.clone(), o.clone()]);
      let _ = c.insert_from_key_set(p.clone(), n.clone());
      let _ = c.iter().count();
      let _ = c.into_inner();
      let calls = Cell::new(0);
      let _ = fixed_point(vec![1u8], |v| {
        calls.set(calls.get() + 1);
        let mut w = v.clone();
        if w.len() < 3 {
          w.push(2);
        }
        w
      });
      let _ = breadth_first_search(vec![n.clone(), p], |x| {
        if x.str().len() < 6 {
          vec![Name::new(&format!("{}y", x))]
        } else {
          vec![]
        }
      });
      let _ = merge_value_pairs(vec![(n.clone(), o.clone()), (n, o)]);
      "maps"
    }
    _ => {
      let g = pick(rng);
      let starts: Vec<ProdState<_, _, _, _>> =
        g.prods().map(ProdState::from_start).collect();
      let mut set: ProdStateSet<_, _, _, _> = starts.iter().cloned().collect();
      for s in &starts {
        let mut s = s.clone();
        while let Some((e, n)) = s.next_elem_state() {
          let _ = (e.id(), s.is_complete(), s.offset_elem(1));
          set.add(n.clone());
          s = n;
        }
      }
      let _ = set.complete().count();
      let next: BTreeMap<usize, usize> = set
        .nexts()
        .map(|(_, s)| s.complete().count())
        .enumerate()
        .collect();
      drop(next);
      set.take_closure(|_| starts.iter().cloned());
      if rng.chance(1, 4) {
        let _ = g.to_pretty();
      }
      "states"
    }
  }
}
