//! Random numbers, the logical clock, panic capture and the per-case context.

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------- random

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
  z = z.wrapping_add(0x9e3779b97f4a7c15);
  z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
  z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
  let mut h = 0xcbf29ce484222325u64;
  for b in s.bytes() {
    h = (h ^ b as u64).wrapping_mul(0x100000001b3);
  }
  mix(h)
}

pub fn hash_u64s(xs: impl IntoIterator<Item = u64>) -> u64 {
  let mut h = 0x1234567u64;
  for x in xs {
    h = mix(h ^ x.wrapping_mul(0x9e3779b97f4a7c15));
  }
  h
}

impl Rng {
  pub fn new(seed: u64) -> Self {
    Rng(mix(seed))
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
  }
  /// A number in 0..n (n > 0).
  pub fn below(&mut self, n: usize) -> usize {
    (self.next() % (n as u64)) as usize
  }
  /// A number in a..=b.
  pub fn range(&mut self, a: usize, b: usize) -> usize {
    a + self.below(b - a + 1)
  }
  pub fn chance(&mut self, num: usize, den: usize) -> bool {
    self.below(den) < num
  }
  pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
    &xs[self.below(xs.len())]
  }
  pub fn shuffle<T>(&mut self, xs: &mut [T]) {
    for i in (1..xs.len()).rev() {
      let j = self.below(i + 1);
      xs.swap(i, j);
    }
  }
}

// ---------------------------------------------------------- dictionary

/// Words and sizes that the code under test itself mentions: what it treats
/// specially is likely among them.
pub struct Dict {
  pub words: Vec<String>,
  pub sizes: Vec<usize>,
}

const WORDS: [&str; 14] = [
  "", "start", "Start", "<START>", "eos", "EndOfStream", "<EOS>", "_", "self",
  "\u{3b5}", "0", "epsilon", "EOF", "a:b",
];

pub fn dict() -> &'static Dict {
  static DICT: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
  DICT.get_or_init(|| {
    let mut words: std::collections::BTreeSet<String> =
      WORDS.iter().map(|s| s.to_string()).collect();
    let mut sizes: std::collections::BTreeSet<usize> = Default::default();
    for k in 1..12 {
      let p = 1usize << k;
      sizes.extend([p - 1, p, p + 1]);
    }
    sizes.extend([9, 10, 11, 20, 50, 99, 100, 101, 200, 300, 400, 500, 700]);
    sizes.extend([999, 1000, 1001, 1500, 2000, 2500]);
    // Interpreting this takes too long.
    if !cfg!(miri) {
      let root = std::env::var("MON_SRC").unwrap_or("/repo/src".into());
      let mut todo = vec![std::path::PathBuf::from(root)];
      while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
          let p = e.path();
          if p.is_dir() {
            todo.push(p);
          } else if p.extension().map_or(false, |x| x == "rs") {
            if let Ok(s) = std::fs::read_to_string(&p) {
              literals(&s, &mut words, &mut sizes);
            }
          }
        }
      }
    }
    Dict {
      words: words.into_iter().collect(),
      sizes: sizes.into_iter().collect(),
    }
  })
}

fn literals(
  s: &str,
  words: &mut std::collections::BTreeSet<String>,
  sizes: &mut std::collections::BTreeSet<usize>,
) {
  let c: Vec<char> = s.chars().collect();
  let mut i = 0;
  while i < c.len() {
    match c[i] {
      '/' if c.get(i + 1) == Some(&'/') => {
        while i < c.len() && c[i] != '\n' {
          i += 1;
        }
      }
      '"' | '\'' => {
        let q = c[i];
        if q == '\'' && c.get(i + 1) != Some(&'\\') && c.get(i + 2) != Some(&'\'')
        {
          // A lifetime.
          i += 1;
          continue;
        }
        i += 1;
        let mut w = String::new();
        while i < c.len() && c[i] != q {
          if c[i] == '\\' && i + 1 < c.len() {
            i += 1;
            match c[i] {
              'n' => w.push('\n'),
              'r' => w.push('\r'),
              't' => w.push('\t'),
              '0' => w.push('\0'),
              'x' | 'u' => {
                let hex: String = c[i + 1..]
                  .iter()
                  .filter(|x| **x != '{')
                  .take(if c[i] == 'x' { 2 } else { 6 })
                  .take_while(|x| x.is_ascii_hexdigit())
                  .collect();
                w.extend(
                  u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32),
                );
                while i + 1 < c.len()
                  && (c[i + 1] == '{'
                    || c[i + 1] == '}'
                    || c[i + 1].is_ascii_hexdigit())
                {
                  i += 1;
                }
              }
              x => w.push(x),
            }
          } else {
            w.push(c[i]);
          }
          i += 1;
        }
        i += 1;
        if w.chars().count() <= 24 {
          words.insert(w);
        }
      }
      x if x.is_ascii_digit() => {
        let mut n = 0usize;
        while i < c.len() && (c[i].is_ascii_digit() || c[i] == '_') {
          if let Some(d) = c[i].to_digit(10) {
            n = n.saturating_mul(10).saturating_add(d as usize);
          }
          i += 1;
        }
        if n < 4096 {
          sizes.extend([n.saturating_sub(1), n, n + 1]);
        }
        while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
          i += 1;
        }
      }
      x if x.is_alphabetic() || x == '_' => {
        while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
          i += 1;
        }
      }
      _ => i += 1,
    }
  }
}

impl Rng {
  /// A word that may mean something to the code.
  pub fn word(&mut self) -> &'static str {
    let w = &dict().words;
    &w[self.below(w.len())]
  }
  /// The same, with nothing that would be lost in a text laid out with
  /// white space.
  pub fn plain_word(&mut self) -> &'static str {
    for _ in 0..20 {
      let w = self.word();
      if !w.is_empty() && w.trim() == w && !w.contains(['\n', '\r']) {
        return w;
      }
    }
    "word"
  }
  /// A size that may mean something to the code, at most `cap`.
  pub fn odd_size(&mut self, cap: usize) -> usize {
    let s = &dict().sizes;
    let n = s.partition_point(|x| *x <= cap);
    s[self.below(n)]
  }
  /// An odd size between `lo` and `cap`; any such number should there be none.
  pub fn odd_between(&mut self, lo: usize, cap: usize) -> usize {
    let s = &dict().sizes;
    let (a, b) = (
      s.partition_point(|x| *x < lo),
      s.partition_point(|x| *x <= cap),
    );
    if a == b || self.chance(1, 4) {
      self.range(lo, cap)
    } else {
      s[a + self.below(b - a)]
    }
  }
  /// Mostly a number in a..=b, sometimes an odd size in a..=cap.
  pub fn spread(&mut self, a: usize, b: usize, cap: usize) -> usize {
    if self.chance(1, 12) {
      self.odd_size(cap).max(a)
    } else {
      self.range(a, b)
    }
  }
}

// ---------------------------------------------------------- logical clock

/// What a case may use before it counts as not terminating.
pub const TICK_BUDGET: u64 = 400_000_000;

pub const BUDGET_MSG: &str = "logical step budget exceeded (does not terminate)";

thread_local! {
  static TICKS: Cell<u64> = const { Cell::new(0) };
  static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
  static JITTER: Cell<u64> = const { Cell::new(0) };
  static NEST_AT: Cell<u64> = const { Cell::new(u64::MAX) };
  static NEST: RefCell<Option<Box<dyn FnMut() -> u64>>> =
    const { RefCell::new(None) };
  static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// One step of the logical clock: called by every comparison and clone of the
/// values handed to the library.
#[inline]
pub fn tick() {
  let t = TICKS.with(|c| {
    let t = c.get() + 1;
    c.set(t);
    t
  });
  if t > LIMIT.with(|l| l.get()) {
    if !std::thread::panicking() {
      // Only once: unwinding may compare again.
      LIMIT.with(|l| l.set(u64::MAX));
      panic!("{}", BUDGET_MSG);
    }
  }
  if t >= NEST_AT.with(|n| n.get()) {
    nest();
  }
  let j = JITTER.with(|j| j.get());
  if j != 0 {
    jitter(j);
  }
}

#[cold]
fn nest() {
  if std::thread::panicking() {
    return;
  }
  NEST_AT.with(|n| n.set(u64::MAX));
  let Some(mut f) = NEST.with(|n| n.borrow_mut().take()) else {
    return;
  };
  let saved = (ticks(), LIMIT.with(|l| l.get()), JITTER.with(|j| j.get()));
  let next = f();
  TICKS.with(|c| c.set(saved.0));
  LIMIT.with(|c| c.set(saved.1));
  JITTER.with(|c| c.set(saved.2));
  NEST.with(|n| *n.borrow_mut() = Some(f));
  NEST_AT.with(|n| n.set(next));
}

/// Has `f` run within a step of the logical clock (of this thread), and then
/// at each time it returns.
pub fn set_nested(at: u64, f: impl FnMut() -> u64 + 'static) {
  NEST.with(|n| *n.borrow_mut() = Some(Box::new(f)));
  NEST_AT.with(|n| n.set(at));
}

pub fn clear_nested() {
  NEST_AT.with(|n| n.set(u64::MAX));
  NEST.with(|n| *n.borrow_mut() = None);
}

#[cold]
fn jitter(j: u64) {
  let n = mix(j);
  JITTER.with(|c| c.set(n | 1));
  match n >> 59 {
    0 => std::thread::yield_now(),
    1 | 2 => {
      for _ in 0..((n >> 20) & 0xff) {
        std::hint::spin_loop();
      }
    }
    _ => {}
  }
}

/// Turns random delays inside comparisons and clones on (for this thread).
pub fn set_jitter(seed: u64) {
  JITTER.with(|c| c.set(seed));
}

pub fn ticks() -> u64 {
  TICKS.with(|c| c.get())
}

pub fn reset_ticks(limit: u64) {
  TICKS.with(|c| c.set(0));
  LIMIT.with(|l| l.set(limit));
}

// ---------------------------------------------------------- panics

pub fn install_panic_hook() {
  std::panic::set_hook(Box::new(|info| {
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
      s.to_string()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
      s.clone()
    } else {
      "panic".to_string()
    };
    let loc = info
      .location()
      .map(|l| format!("{}:{}", l.file(), l.line()))
      .unwrap_or_default();
    let _ = LAST_PANIC
      .try_with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
  }));
}

/// Runs `f`, turning a panic into its message.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
  catch_unwind(AssertUnwindSafe(f))
    .map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// Whether a panic message is that of the logical clock.
pub fn is_budget(msg: &str) -> bool {
  msg.contains(BUDGET_MSG)
}

// ---------------------------------------------------------- context

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
  ($c:expr, $($a:tt)*) => {
    if !$c {
      return Err(format!($($a)*));
    }
  };
}

/// A family of cases of one property.
pub struct Stream {
  pub name: &'static str,
  pub quick: u64,
  pub thorough: u64,
}

pub const fn st(name: &'static str, quick: u64, thorough: u64) -> Stream {
  Stream {
    name,
    quick,
    thorough,
  }
}

pub struct Prop {
  pub id: &'static str,
  pub streams: &'static [Stream],
  pub run: fn(&mut Ctx) -> R,
  /// How cases are made and what makes one non-trivial.
  pub rule: &'static str,
}

pub struct Ctx {
  pub rng: Rng,
  pub stream: &'static str,
  pub idx: u64,
  pub seed: u64,
  pub thorough: bool,
  /// What the case is, for the replay file.
  pub desc: String,
  /// Events observed.
  pub ev: BTreeMap<&'static str, u64>,
  /// Largest values observed.
  pub max: BTreeMap<&'static str, u64>,
  pub sigs: Vec<u64>,
}

impl Ctx {
  pub fn new(
    prop: &str,
    stream: &'static str,
    idx: u64,
    seed: u64,
    thorough: bool,
  ) -> Self {
    Ctx {
      rng: Rng::new(hash_u64s([
        seed,
        hash_str(prop),
        hash_str(stream),
        idx,
      ])),
      stream,
      idx,
      seed,
      thorough,
      desc: String::new(),
      ev: BTreeMap::new(),
      max: BTreeMap::new(),
      sigs: Vec::new(),
    }
  }
  pub fn count(&mut self, k: &'static str, n: u64) {
    *self.ev.entry(k).or_insert(0) += n;
  }
  pub fn hi(&mut self, k: &'static str, n: u64) {
    let e = self.max.entry(k).or_insert(0);
    *e = (*e).max(n);
  }
  /// Records this case as non-trivial, with what distinguishes it from others.
  pub fn nontrivial(&mut self, sig: u64) {
    self.sigs.push(sig);
  }
  pub fn note(&mut self, s: impl AsRef<str>) {
    if self.desc.len() < 20_000 {
      self.desc.push_str(s.as_ref());
      self.desc.push('\n');
    }
  }
}
