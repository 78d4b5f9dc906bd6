//! I01: uses of the library that share nothing do not influence each other.

use crate::core::*;
use std::cell::RefCell;
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub const I01: Prop = Prop {
  id: "I01",
  streams: &[
    st("threads", 300, 20_000),
    st("nested", 300, 20_000),
    st("first", 12, 600),
  ],
  run: i01,
  rule: "cases of the other monitors that hold alone, run again at the same time on several threads (as the first things a process does, or later), or from within the comparisons and clones of another case's symbols, and then alone once more; non-trivial: two cases overlapped in time; distinct by cases and the order in which they began and ended",
};

/// Monitors that watch the whole process or nest others themselves.
pub fn watches_process(id: &str) -> bool {
  matches!(id, "M01" | "I01")
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Case {
  p: usize,
  s: usize,
  idx: u64,
  seed: u64,
}

impl Case {
  fn prop(&self) -> &'static Prop {
    &crate::PROPS[self.p]
  }
  fn name(&self) -> String {
    format!(
      "{} {} {}",
      self.prop().id,
      self.prop().streams[self.s].name,
      self.idx
    )
  }
  fn random(rng: &mut Rng, seed: u64) -> Case {
    loop {
      let p = rng.below(crate::PROPS.len());
      if !watches_process(crate::PROPS[p].id) && crate::PROPS[p].id != "T02" {
        return Case::of(rng, p, seed);
      }
    }
  }
  fn of(rng: &mut Rng, p: usize, seed: u64) -> Case {
    loop {
      let s = rng.below(crate::PROPS[p].streams.len());
      let q = crate::PROPS[p].streams[s].quick;
      // Others are few and huge.
      if q >= 1000 || rng.chance(q as usize, 1000) {
        let idx = rng.below(q.min(3000) as usize) as u64;
        return Case { p, s, idx, seed };
      }
    }
  }
  /// The logical steps it took, or why it fails.
  fn run(&self, budget: u64, jitter: u64) -> Result<u64, String> {
    let p = self.prop();
    set_jitter(jitter);
    reset_ticks(budget);
    let mut c = Ctx::new(p.id, p.streams[self.s].name, self.idx, self.seed, false);
    let res = guard(|| (p.run)(&mut c));
    let n = ticks();
    reset_ticks(u64::MAX);
    set_jitter(0);
    match res {
      Ok(Ok(())) => Ok(n),
      Ok(Err(m)) | Err(m) => Err(m),
    }
  }
}

const BUDGET: u64 = 400_000;
const STACK: usize = 64 << 20;

/// On a thread of its own, with room for deep recursion.
fn apart<X: Send>(f: impl FnOnce() -> X + Send) -> X {
  std::thread::scope(|s| {
    std::thread::Builder::new()
      .stack_size(STACK)
      .spawn_scoped(s, f)
      .expect("harness: no thread")
      .join()
      .expect("harness: thread failed")
  })
}

/// Those that hold alone, again and again, and are short; with their steps.
fn sound(ctx: &mut Ctx, cases: Vec<Case>) -> Vec<(Case, u64)> {
  let mut out: Vec<(Case, u64)> = Vec::new();
  for c in cases {
    if let Some(x) = out.iter().find(|x| x.0 == c) {
      out.push(*x);
      continue;
    }
    let begin = Instant::now();
    let r = apart(|| {
      let n = c.run(BUDGET, 0)?;
      c.run(BUDGET, 0)?;
      c.run(BUDGET, 0)?;
      Ok::<u64, String>(n)
    });
    match r {
      Ok(n) if begin.elapsed() < Duration::from_millis(150) => out.push((c, n)),
      Err(m) if !is_budget(&m) => ctx.count("cases_that_fail_alone", 1),
      _ => ctx.count("too_long", 1),
    }
  }
  out
}

fn alone_again(cases: &[(Case, u64)]) -> R {
  for (c, _) in cases {
    if let Err(m) = apart(|| c.run(TICK_BUDGET, 0)) {
      return Err(format!(
        "{} held before, but not after the others: {}",
        c.name(),
        m
      ));
    }
  }
  Ok(())
}

fn i01(ctx: &mut Ctx) -> R {
  match ctx.stream {
    "threads" => together(ctx),
    "nested" => nested(ctx),
    "first" => first(ctx),
    s => panic!("harness: unknown stream {}", s),
  }
}

/// The same case, cases of one monitor, or any.
fn choose(rng: &mut Rng, seed: u64, n: usize) -> Vec<Case> {
  let one = Case::random(rng, seed);
  match rng.below(4) {
    0 => vec![one; n],
    1 => (0..n)
      .map(|_| {
        if rng.chance(1, 3) {
          one
        } else {
          Case::of(rng, one.p, seed)
        }
      })
      .collect(),
    _ => (0..n).map(|_| Case::random(rng, seed)).collect(),
  }
}

struct Span {
  case: usize,
  thread: usize,
  begin: u64,
  end: u64,
  res: Result<u64, String>,
}

/// Runs all cases on `k` threads, each some of them, begun at the same time.
fn run_together(cases: &[Case], k: usize, seed: u64) -> Vec<Span> {
  let clock = AtomicU64::new(0);
  let gate = AtomicUsize::new(0);
  let (clock, gate) = (&clock, &gate);
  let mut out: Vec<Span> = std::thread::scope(|s| {
    let hs: Vec<_> = (0..k)
      .map(|t| {
        std::thread::Builder::new()
          .stack_size(STACK)
          .spawn_scoped(s, move || {
            gate.fetch_add(1, SeqCst);
            while gate.load(SeqCst) < k {
              std::thread::yield_now();
            }
            let mut out = Vec::new();
            for i in (t..cases.len()).step_by(k) {
              let begin = clock.fetch_add(1, SeqCst);
              // Some without delays.
              let j = mix(seed ^ (i as u64) << 32);
              let jitter = if j % 3 == 0 { 0 } else { j | 1 };
              let res = cases[i].run(TICK_BUDGET, jitter);
              let end = clock.fetch_add(1, SeqCst);
              out.push(Span {
                case: i,
                thread: t,
                begin,
                end,
                res,
              });
            }
            out
          })
          .expect("harness: no thread")
      })
      .collect();
    hs.into_iter()
      .flat_map(|h| h.join().expect("harness: thread failed"))
      .collect()
  });
  out.sort_by_key(|x| x.begin);
  out
}

fn together(ctx: &mut Ctx) -> R {
  let k = ctx.rng.range(2, 6);
  let n = k * ctx.rng.range(1, 4);
  let seed = ctx.seed;
  let cases = choose(&mut ctx.rng, seed, n);
  let cases = sound(ctx, cases);
  if cases.len() < 2 {
    ctx.count("skipped", 1);
    return Ok(());
  }
  for (c, _) in &cases {
    ctx.note(c.name());
  }
  let list: Vec<Case> = cases.iter().map(|c| c.0).collect();
  let jit = ctx.rng.next();
  let spans = run_together(&list, k.min(list.len()), jit);
  for s in &spans {
    if let Err(m) = &s.res {
      return Err(format!(
        "{} holds alone, but not while others run on {} threads: {}",
        list[s.case].name(),
        k,
        m
      ));
    }
  }
  alone_again(&cases)?;
  let mut overlap = 0u64;
  for a in &spans {
    for b in &spans {
      if a.thread < b.thread && a.begin < b.end && b.begin < a.end {
        overlap += 1;
      }
    }
  }
  ctx.count("cases_on_threads", spans.len() as u64);
  ctx.count("overlapping_pairs", overlap);
  if overlap > 0 {
    ctx.nontrivial(hash_u64s(spans.iter().flat_map(|s| {
      let c = list[s.case];
      [c.p as u64, c.s as u64, c.idx, s.begin, s.end]
    })));
  }
  Ok(())
}

type Log = Rc<RefCell<Vec<(usize, Result<u64, String>)>>>;

fn chain(list: Vec<Case>, at: Vec<u64>, i: usize, log: Log) {
  if i < at.len() {
    let (list, at2, log) = (list.clone(), at.clone(), log.clone());
    set_nested(at[i], move || {
      chain(list.clone(), at2.clone(), i + 1, log.clone());
      u64::MAX
    });
  }
  let r = list[i].run(TICK_BUDGET, 0);
  clear_nested();
  log.borrow_mut().push((i, r));
}

fn nested(ctx: &mut Ctx) -> R {
  let seed = ctx.seed;
  let n = ctx.rng.range(2, 5);
  let mut cases = choose(&mut ctx.rng, seed, n);
  // This one's trace is kept per thread.
  let traced = |c: &Case| c.prop().id == "A05";
  if let Some(first) = cases.iter().position(traced) {
    while let Some(i) = cases[first + 1..].iter().position(traced) {
      cases[first + 1 + i] = Case::random(&mut ctx.rng, seed);
    }
  }
  let cases = sound(ctx, cases);
  if cases.len() < 2 || cases[0].1 == 0 {
    ctx.count("skipped", 1);
    return Ok(());
  }
  for (c, _) in &cases {
    ctx.note(c.name());
  }
  let outer = cases[0];
  let mut at: Vec<u64> = cases[1..]
    .iter()
    .map(|_| 1 + ctx.rng.below(outer.1 as usize) as u64)
    .collect();
  at.sort();
  let list: Vec<Case> = cases.iter().map(|c| c.0).collect();
  // One after the other within the first, or each within the one before.
  let deep = ctx.rng.chance(1, 2);
  if deep {
    for (i, x) in at.iter_mut().enumerate() {
      *x = 1 + ctx.rng.below(cases[i].1.max(1) as usize) as u64;
    }
    ctx.note(format!("each begun within the one before, after steps {:?}", at));
  } else {
    ctx.note(format!("begun within the first after steps {:?}", at));
  }
  let log = apart(|| {
    let log = Rc::new(RefCell::new(Vec::new()));
    if deep {
      chain(list.clone(), at.clone(), 0, log.clone());
    } else {
      let (times, list, log) = (at.clone(), list.clone(), log.clone());
      let outer = list[0];
      let mut i = 0;
      let inside = log.clone();
      set_nested(times[0], move || {
        i += 1;
        let r = list[i].run(TICK_BUDGET, 0);
        inside.borrow_mut().push((i, r));
        times.get(i).copied().unwrap_or(u64::MAX)
      });
      let r = outer.run(TICK_BUDGET, 0);
      clear_nested();
      log.borrow_mut().push((0, r));
    }
    let x = log.borrow().clone();
    x
  });
  for (i, r) in &log {
    if let Err(m) = r {
      return Err(format!(
        "{} (number {}) holds alone, but not with cases within the comparisons and clones of others: {}",
        list[*i].name(),
        i,
        m
      ));
    }
  }
  let ran = log.len() - 1;
  alone_again(&cases)?;
  ctx.count("cases_within_others", ran as u64);
  if ran > 0 {
    ctx.nontrivial(hash_u64s(
      cases
        .iter()
        .flat_map(|(c, _)| [c.p as u64, c.s as u64, c.idx])
        .chain(at),
    ));
  }
  Ok(())
}

/// A new process that does nothing before.
fn first(ctx: &mut Ctx) -> R {
  let k = ctx.rng.range(2, 6);
  let n = k * ctx.rng.range(1, 2);
  let seed = ctx.seed;
  let cases = choose(&mut ctx.rng, seed, n);
  let cases = sound(ctx, cases);
  if cases.len() < 2 {
    ctx.count("skipped", 1);
    return Ok(());
  }
  for (c, _) in &cases {
    ctx.note(c.name());
  }
  let jit = ctx.rng.next();
  let mut child = Command::new(std::env::current_exe().expect("harness: exe"))
    .arg("together")
    .arg(k.min(cases.len()).to_string())
    .arg(jit.to_string())
    .arg(seed.to_string())
    .args(
      cases
        .iter()
        .map(|(c, _)| format!("{}/{}/{}", c.p, c.s, c.idx)),
    )
    .stdin(Stdio::null())
    .stdout(Stdio::piped())
    .stderr(Stdio::null())
    .spawn()
    .expect("harness: no process");
  let mut asleep: Option<Instant> = None;
  let status = loop {
    match child.try_wait().expect("harness: wait") {
      Some(s) => break s,
      None => {
        match crate::runner::proc_look(child.id()) {
          Some((_, true)) => {
            let t = asleep.get_or_insert_with(Instant::now).elapsed();
            if t > Duration::from_secs(8) {
              let _ = child.kill();
              let _ = child.wait();
              return Err(
                "the cases hold alone, but wait for each other forever as the first of a process".into(),
              );
            }
          }
          _ => asleep = None,
        }
        std::thread::sleep(Duration::from_millis(2));
      }
    }
  };
  let mut text = String::new();
  if let Some(mut o) = child.stdout.take() {
    use std::io::Read;
    let _ = o.read_to_string(&mut text);
  }
  match status.code() {
    Some(0) => {}
    Some(1) => {
      return Err(format!(
        "as the first things a process does, on {} threads: {}",
        k,
        text.trim()
      ))
    }
    _ if text.contains("harness:") => {
      return Err(format!("harness: {}", text.trim()))
    }
    _ => {
      ctx.count("processes_without_answer", 1);
      return Ok(());
    }
  }
  ctx.count("processes", 1);
  ctx.count("cases_first_in_a_process", cases.len() as u64);
  let order: Vec<u64> =
    text.split_whitespace().filter_map(|x| x.parse().ok()).collect();
  ctx.nontrivial(hash_u64s(
    cases
      .iter()
      .flat_map(|(c, _)| [c.p as u64, c.s as u64, c.idx])
      .chain(order),
  ));
  Ok(())
}

/// K JITTER SEED P/S/INDEX..., in a new process.
pub fn child(a: &[String]) -> i32 {
  let num = |s: &str| s.parse::<u64>().expect("harness: number");
  let cases: Vec<Case> = a[3..]
    .iter()
    .map(|x| {
      let v: Vec<u64> = x.split('/').map(num).collect();
      Case {
        p: v[0] as usize,
        s: v[1] as usize,
        idx: v[2],
        seed: num(&a[2]),
      }
    })
    .collect();
  // Of the harness, which takes long.
  dict();
  let spans = run_together(&cases, num(&a[0]) as usize, num(&a[1]));
  for s in &spans {
    if let Err(m) = &s.res {
      println!("{} holds alone, but not here: {}", cases[s.case].name(), m);
      return 1;
    }
  }
  for s in &spans {
    println!("{} {}", s.begin, s.end);
  }
  0
}
