//! M01: allocations left behind by a case, and running cases of all
//! properties in this process, for sanitizers and interpreters.

use crate::core::*;
use crate::m_indep::watches_process;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

struct Counting;

static LIVE: AtomicI64 = AtomicI64::new(0);
static MADE: AtomicU64 = AtomicU64::new(0);

// Counts what is allocated; the work is done by the system's allocator, so
// that sanitizers and interpreters see it as usual.
unsafe impl GlobalAlloc for Counting {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    LIVE.fetch_add(1, Relaxed);
    MADE.fetch_add(1, Relaxed);
    System.alloc(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    LIVE.fetch_sub(1, Relaxed);
    System.dealloc(p, l)
  }
  unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
    LIVE.fetch_add(1, Relaxed);
    MADE.fetch_add(1, Relaxed);
    System.alloc_zeroed(l)
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    System.realloc(p, l, n)
  }
}

#[global_allocator]
static GLOBAL: Counting = Counting;

pub const M01: Prop = Prop {
  id: "M01",
  streams: &[st("balance", 6000, 150_000), st("fresh", 200, 5000)],
  run: m01,
  rule: "cases of all other monitors run repeatedly in one process: the number of live allocations after a further run is that before it, and that after other cases is that before them; the same cases under Miri and under AddressSanitizer with LeakSanitizer (counted separately); non-trivial: the case allocated memory; distinct by property, stream and index",
};

/// Runs a case for its effects on memory only. None: too long.
fn quiet(
  p: &Prop,
  s: &'static str,
  idx: u64,
  seed: u64,
  budget: u64,
) -> Option<bool> {
  reset_ticks(budget);
  let mut c = Ctx::new(p.id, s, idx, seed, false);
  let res = guard(|| (p.run)(&mut c));
  let over = match &res {
    Ok(Ok(())) => false,
    Ok(Err(m)) | Err(m) => is_budget(m),
  };
  reset_ticks(TICK_BUDGET);
  set_jitter(0);
  if over {
    None
  } else {
    Some(matches!(res, Ok(Ok(()))))
  }
}

const RUN: u64 = 40_000_000;

/// Seconds from which cases are too long to be repeated.
const LONG: f64 = 0.2;

/// Streams of few, huge cases.
fn heavy(s: &Stream) -> bool {
  s.quick < 10
}

/// What other cases leave behind, though the first one has been run again after
/// them: something that grows with whatever the library has seen.
fn fresh(ctx: &mut Ctx) -> R {
  let all: Vec<&Prop> =
    crate::PROPS.iter().filter(|p| !watches_process(p.id)).collect();
  let p = all[ctx.idx as usize % all.len()];
  let s = ctx.rng.pick(p.streams);
  if heavy(s) {
    ctx.count("too_long", 1);
    return Ok(());
  }
  let first = ctx.idx * 40;
  let at = |k: u64| (first + k) % s.quick.max(2_000);
  ctx.note(format!("{} {} from {}", p.id, s.name, at(0)));
  let budget = 2_000_000;
  let seed = ctx.seed ^ (ctx.idx << 20);
  let mut left = 0;
  let begin = std::time::Instant::now();
  for k in 0..8 {
    let res = quiet(p, s.name, at(k), seed, budget);
    if res.is_none() || begin.elapsed().as_secs_f64() > LONG {
      ctx.count("too_long", 1);
      return Ok(());
    }
  }
  for round in 0..3u64 {
    let again = || quiet(p, s.name, at(0), seed, budget);
    let pause = std::time::Duration::from_millis(5 * round);
    again();
    // Threads may still be ending.
    std::thread::sleep(pause);
    let live = LIVE.load(Relaxed);
    for k in 0..24 {
      // In another round, others again.
      quiet(p, s.name, at(8 + k), seed + round, budget);
      ctx.count("runs", 1);
    }
    again();
    std::thread::sleep(pause);
    left = LIVE.load(Relaxed) - live;
    if left < 6 {
      break;
    }
  }
  ensure!(
    left < 6,
    "{} allocations are left behind by 24 runs of {} {}",
    left,
    p.id,
    s.name
  );
  ctx.nontrivial(hash_u64s([hash_str(p.id), hash_str(s.name), at(0)]));
  Ok(())
}

fn m01(ctx: &mut Ctx) -> R {
  if ctx.stream == "fresh" {
    return fresh(ctx);
  }
  let all: Vec<&Prop> =
    crate::PROPS.iter().filter(|p| !watches_process(p.id)).collect();
  let p = all[ctx.idx as usize % all.len()];
  let s = ctx.rng.pick(p.streams);
  if heavy(s) {
    ctx.count("too_long", 1);
    return Ok(());
  }
  let idx = ctx.rng.below(s.quick.min(3000) as usize) as u64;
  let seed = ctx.seed;
  ctx.note(format!("{} {} {}", p.id, s.name, idx));
  let mut made = MADE.load(Relaxed);
  let mut left = 0;
  // The first run may fill caches of the runtime. Threads may still be
  // ending after a run that used some.
  let begin = std::time::Instant::now();
  let res = quiet(p, s.name, idx, seed, RUN);
  if res.is_none() || begin.elapsed().as_secs_f64() > LONG {
    ctx.count("too_long", 1);
    return Ok(());
  }
  for attempt in 0..6u64 {
    let live = LIVE.load(Relaxed);
    made = MADE.load(Relaxed);
    let Some(ok) = quiet(p, s.name, idx, seed, RUN) else {
      ctx.count("too_long", 1);
      return Ok(());
    };
    made = MADE.load(Relaxed) - made;
    left = LIVE.load(Relaxed) - live;
    ctx.count(if ok { "runs" } else { "runs_with_another_failure" }, 1);
    if left <= 0 {
      break;
    }
    if attempt > 1 {
      std::thread::sleep(std::time::Duration::from_millis(2));
    }
  }
  ctx.count("allocations_balanced", made);
  ensure!(
    left <= 0,
    "{} allocations are left behind by each run of {} {} {}",
    left,
    p.id,
    s.name,
    idx
  );
  if made > 0 {
    ctx.nontrivial(hash_u64s([
      hash_str(p.id),
      hash_str(s.name),
      idx,
    ]));
  }
  Ok(())
}

/// What a case may use here: interpreters are slow.
const BUDGET: u64 = 3_000_000;

/// Runs cases of the given properties in this process until the time is up.
/// Prints what was run; returns whether all went well.
pub fn inproc(
  ids: &str,
  seed: u64,
  part: u64,
  of: u64,
  rounds: u64,
  secs: f64,
  slow: f64,
) -> i32 {
  let props: Vec<&'static Prop> = crate::PROPS
    .iter()
    .filter(|p| !watches_process(p.id) && (ids == "all" || ids.split(',').any(|i| i.split('/').next() == Some(p.id))))
    .collect();
  let begin = std::time::Instant::now();
  let mut dropped: Vec<(&str, &str)> = Vec::new();
  let mut ran = 0u64;
  let mut sigs = std::collections::BTreeSet::new();
  let mut failed = 0;
  let mut ev = std::collections::BTreeMap::new();
  let trace = std::env::var("MON_TRACE").is_ok();
  'out: for r in 0..rounds {
    for p in &props {
      for s in p.streams {
        // ID, or ID/STREAM
        if ids.contains('/')
          && !ids.split(',').any(|i| i.split_once('/') == Some((p.id, s.name)))
        {
          continue;
        }
        if dropped.contains(&(p.id, s.name)) || (heavy(s) && !ids.contains('/')) {
          continue;
        }
        if begin.elapsed().as_secs_f64() > secs {
          break 'out;
        }
        let idx = r * of + part;
        if idx >= s.quick {
          continue;
        }
        let mut c = Ctx::new(p.id, s.name, idx, seed, false);
        let t0 = std::time::Instant::now();
        reset_ticks(BUDGET);
        let res = guard(|| (p.run)(&mut c));
        set_jitter(0);
        if trace {
          eprintln!(
            "{:.2} s, {} steps: {} {} {}",
            t0.elapsed().as_secs_f64(),
            ticks(),
            p.id,
            s.name,
            idx
          );
        }
        if t0.elapsed().as_secs_f64() > slow {
          dropped.push((p.id, s.name));
        }
        ran += 1;
        sigs.extend(c.sigs.iter().map(|x| hash_u64s([*x, hash_str(p.id)])));
        for (k, v) in &c.ev {
          *ev.entry(format!("{}.{}", p.id, k)).or_insert(0u64) += v;
        }
        let msg = match res {
          Ok(Ok(())) => continue,
          Ok(Err(m)) => m,
          Err(m) if is_budget(&m) => continue,
          Err(m) => format!("panic: {}", m),
        };
        if m_harness(&msg) || is_budget(&msg) {
          continue;
        }
        failed += 1;
        println!(
          "INPROC-FAIL\t{}\t{}\t{}\t{}",
          p.id,
          s.name,
          idx,
          msg.replace('\n', " | ")
        );
        println!("INPROC-CASE\t{}", c.desc.replace('\n', " | "));
      }
    }
  }
  println!("INPROC-RAN\t{}\t{}\t{}", ran, sigs.len(), failed);
  for s in sigs.iter().take(100_000) {
    println!("S\t{:x}", s);
  }
  for (k, v) in ev {
    println!("E\t{}\t{}", k, v);
  }
  // Not the failures: those are for the reader of the output.
  0
}

fn m_harness(m: &str) -> bool {
  m.starts_with("harness:") || m.starts_with("panic: harness:")
}

/// A number that depends on where memory is: under Miri, on its seed.
pub fn address_seed() -> u64 {
  let b = Box::new(1u8);
  let n = mix(&*b as *const u8 as usize as u64);
  n % 100_000
}

/// Runs small workloads in this process.
pub fn mini(seed: u64, part: u64, of: u64, count: u64, secs: f64) {
  let begin = std::time::Instant::now();
  let mut ran = std::collections::BTreeMap::new();
  let trace = std::env::var("MON_TRACE").is_ok();
  for i in 0..count {
    if begin.elapsed().as_secs_f64() > secs {
      break;
    }
    // All kinds in turn, in every part.
    let n = mix(seed) % 1_000_000_007 * 1_000_000 + part + of * i;
    let n = n / crate::m_mini::KINDS * crate::m_mini::KINDS
      + i % crate::m_mini::KINDS;
    let t0 = begin.elapsed().as_secs_f64();
    reset_ticks(BUDGET);
    let k = guard(|| crate::m_mini::run(n)).unwrap_or("panicked");
    *ran.entry(k).or_insert(0u64) += 1;
    if trace {
      eprintln!("{:.2} s {}", begin.elapsed().as_secs_f64() - t0, k);
    }
  }
  for (k, v) in ran {
    println!("MINI\t{}\t{}", k, v);
  }
  println!("MINI-DONE");
}
