//! Worker processes, their supervision, verdicts and evidence.

use crate::core::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// CPU seconds one case may use. Cases use milliseconds.
const CPU_CAP: f64 = 60.0;
/// How long every thread of a worker must sleep for a deadlock.
const SLEEP_CAP: f64 = 15.0;
const MEM_CAP: u64 = 3 << 30;

#[repr(C)]
struct RLimit {
  cur: u64,
  max: u64,
}
extern "C" {
  fn setrlimit(resource: i32, rlim: *const RLimit) -> i32;
}

fn limit_memory() {
  let l = RLimit {
    cur: MEM_CAP,
    max: MEM_CAP,
  };
  unsafe {
    setrlimit(9, &l);
  }
}

pub fn json_str(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o += "\\\"",
      '\\' => o += "\\\\",
      '\n' => o += "\\n",
      '\r' => o += "\\r",
      '\t' => o += "\\t",
      c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
      c => o.push(c),
    }
  }
  o + "\""
}

/// Runs one case. A panic is a violation: expected ones are caught inside.
pub fn run_case(prop: &Prop, ctx: &mut Ctx) -> R {
  reset_ticks(TICK_BUDGET);
  // Analyses and parses do not depend on how symbols are printed.
  crate::sy::set_plain(
    prop.id.starts_with(['A', 'E', 'X'])
      && hash_u64s([ctx.idx, hash_str(ctx.stream)]) % 5 == 0,
  );
  let res = guard(|| (prop.run)(ctx));
  crate::sy::set_plain(false);
  let t = ticks();
  reset_ticks(u64::MAX);
  set_jitter(0);
  ctx.hi("logical_steps_of_a_case", t);
  match res {
    Ok(r) => r,
    Err(p) => Err(format!("panic: {}", p)),
  }
}

// ------------------------------------------------------------- worker

pub struct WorkerArgs {
  pub w: u64,
  pub of: u64,
  pub seed: u64,
  pub thorough: bool,
  pub dir: PathBuf,
  pub secs: f64,
  pub scale: f64,
}

fn counts(prop: &Prop, a: &WorkerArgs) -> Vec<u64> {
  prop
    .streams
    .iter()
    .map(|s| {
      if a.thorough {
        s.thorough
      } else if s.quick == s.thorough {
        // Exhaustive.
        s.quick
      } else {
        ((s.quick as f64 * a.scale) as u64).max(1)
      }
    })
    .collect()
}

pub fn worker(prop: &'static Prop, a: WorkerArgs) -> i32 {
  limit_memory();
  let counts = counts(prop, &a);
  let state =
    std::fs::File::create(a.dir.join(format!("state{}", a.w))).unwrap();
  let mut next: Vec<u64> = vec![a.w; counts.len()];
  let mut ev: BTreeMap<&'static str, u64> = BTreeMap::new();
  let mut max: BTreeMap<&'static str, u64> = BTreeMap::new();
  let mut per: Vec<u64> = vec![0; counts.len()];
  let mut sigs: HashSet<u64> = HashSet::new();
  let mut samples: Vec<String> = Vec::new();
  let begin = Instant::now();
  let mut serial = 0u64;
  // A case may judge several things, such as several inputs of one grammar.
  let mut evals = 0u64;
  let mut viol = None;
  let mut trouble = None;
  let mut complete = true;
  let trace = std::env::var("MON_TRACE").is_ok();
  let mut spent = vec![0f64; counts.len()];
  loop {
    let mut best: Option<(usize, f64)> = None;
    for i in 0..counts.len() {
      if next[i] < counts[i] {
        let f = next[i] as f64 / counts[i] as f64;
        if best.map_or(true, |b| f < b.1) {
          best = Some((i, f));
        }
      }
    }
    let Some((s, _)) = best else { break };
    if begin.elapsed().as_secs_f64() > a.secs {
      complete = false;
      break;
    }
    let idx = next[s];
    next[s] += a.of;
    serial += 1;
    let mut buf = [0u8; 24];
    buf[..8].copy_from_slice(&serial.to_le_bytes());
    buf[8..16].copy_from_slice(&(s as u64).to_le_bytes());
    buf[16..].copy_from_slice(&idx.to_le_bytes());
    let _ = state.write_at(&buf, 0);
    let mut ctx =
      Ctx::new(prop.id, prop.streams[s].name, idx, a.seed, a.thorough);
    let t0 = Instant::now();
    let r = run_case(prop, &mut ctx);
    let ms = t0.elapsed().as_millis() as u64;
    if trace && ms > 500 {
      eprintln!(
        "slow: {} {} {} {} ms {:?}",
        prop.id, prop.streams[s].name, idx, ms, ctx.max
      );
    }
    ctx.hi("milliseconds_of_a_case", ms);
    per[s] += 1;
    if trace {
      spent[s] += t0.elapsed().as_secs_f64();
    }
    for (k, v) in ctx.ev {
      *ev.entry(k).or_insert(0) += v;
    }
    for (k, v) in ctx.max {
      let e = max.entry(k).or_insert(0);
      *e = (*e).max(v);
    }
    if !ctx.sigs.is_empty() && samples.len() < 2 && ctx.desc.len() < 1500 {
      samples.push(format!("[{} {}] {}", ctx.stream, idx, ctx.desc.trim()));
    }
    evals += (ctx.sigs.len() as u64).max(1);
    sigs.extend(ctx.sigs);
    if let Err(m) = &r {
      // The harness itself, not the library.
      if m.starts_with("harness:") || m.starts_with("panic: harness:") {
        trouble = Some(format!(
          "{} {}: {}",
          prop.streams[s].name, idx, m
        ));
        break;
      }
    }
    if let Err(m) = r {
      viol = Some((prop.streams[s].name, idx, m, ctx.desc));
      break;
    }
  }
  if trace {
    for (i, x) in spent.iter().enumerate() {
      eprintln!("spent: {} {} {:.2}", prop.id, prop.streams[i].name, x);
    }
  }
  let mut out = String::new();
  for (k, v) in &ev {
    out += &format!("ev\t{}\t{}\n", k, v);
  }
  for (k, v) in &max {
    out += &format!("max\t{}\t{}\n", k, v);
  }
  out += &format!("evals\t{}\n", evals);
  for (i, v) in per.iter().enumerate() {
    out += &format!("per\t{}\t{}\n", prop.streams[i].name, v);
  }
  for s in &samples {
    out += &format!("sample\t{}\n", json_str(s));
  }
  if !complete {
    out += "incomplete\n";
  }
  if let Some(t) = &trouble {
    out += &format!("trouble\t{}\n", json_str(t));
  }
  if let Some((s, i, m, d)) = &viol {
    out += &format!(
      "viol\t{}\t{}\t{}\t{}\n",
      s,
      i,
      json_str(m),
      json_str(d)
    );
  }
  let mut sb = Vec::with_capacity(sigs.len() * 8);
  for s in &sigs {
    sb.extend_from_slice(&s.to_le_bytes());
  }
  std::fs::write(a.dir.join(format!("sigs{}", a.w)), sb).unwrap();
  std::fs::write(a.dir.join(format!("out{}", a.w)), out).unwrap();
  if viol.is_some() {
    1
  } else {
    0
  }
}

// --------------------------------------------------------- supervision

fn read_state(dir: &Path, w: u64) -> (u64, u64, u64) {
  let b = std::fs::read(dir.join(format!("state{}", w))).unwrap_or_default();
  if b.len() < 24 {
    return (0, 0, 0);
  }
  let g = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
  (g(0), g(8), g(16))
}

/// (CPU seconds of the process, every thread asleep)
pub fn proc_look(pid: u32) -> Option<(f64, bool)> {
  let stat = |p: &str| -> Option<(char, f64)> {
    let s = std::fs::read_to_string(p).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let t: f64 = f[11].parse::<f64>().ok()? + f[12].parse::<f64>().ok()?;
    Some((f[0].chars().next()?, t / 100.0))
  };
  let (_, cpu) = stat(&format!("/proc/{}/stat", pid))?;
  let mut asleep = true;
  for t in std::fs::read_dir(format!("/proc/{}/task", pid)).ok()? {
    let p = t.ok()?.path().join("stat");
    match stat(p.to_str()?) {
      Some((c, _)) => asleep &= c == 'S',
      None => return None,
    }
  }
  Some((cpu, asleep))
}

#[derive(Clone, Debug)]
pub enum Fault {
  Runaway,
  Deadlock,
  Crash(String),
}

impl Fault {
  fn text(&self) -> String {
    match self {
      Fault::Runaway => format!(
        "does not terminate: used more than {} s of CPU time",
        CPU_CAP
      ),
      Fault::Deadlock => "deadlock: every thread waits".to_string(),
      Fault::Crash(s) => format!("crash: {}", s),
    }
  }
}

struct Watch {
  child: Child,
  w: u64,
  serial: u64,
  cpu0: f64,
  cpu_last: f64,
  asleep_since: Option<Instant>,
}

impl Watch {
  fn new(child: Child, w: u64) -> Self {
    Watch {
      child,
      w,
      serial: u64::MAX,
      cpu0: 0.0,
      cpu_last: 0.0,
      asleep_since: None,
    }
  }
  /// Looks at a running process.
  fn look(&mut self, dir: &Path) -> Option<Fault> {
    let (cpu, asleep) = proc_look(self.child.id())?;
    let (serial, _, _) = read_state(dir, self.w);
    if serial != self.serial {
      self.serial = serial;
      self.cpu0 = cpu;
      self.asleep_since = None;
    }
    if asleep && cpu == self.cpu_last && serial > 0 {
      let t = *self.asleep_since.get_or_insert_with(Instant::now);
      if t.elapsed().as_secs_f64() > SLEEP_CAP {
        return Some(Fault::Deadlock);
      }
    } else {
      self.asleep_since = None;
    }
    self.cpu_last = cpu;
    if cpu - self.cpu0 > CPU_CAP {
      return Some(Fault::Runaway);
    }
    None
  }
  fn kill(&mut self) {
    let _ = self.child.kill();
    let _ = self.child.wait();
  }
}

/// Runs one case alone. None: it holds.
pub fn solo(
  prop: &Prop,
  stream: &str,
  idx: u64,
  seed: u64,
  thorough: bool,
  dir: &Path,
) -> Result<Option<String>, String> {
  let exe = std::env::current_exe().map_err(|e| e.to_string())?;
  let out = dir.join("solo.out");
  let _ = std::fs::remove_file(&out);
  let _ = std::fs::remove_file(dir.join("state999"));
  let child = Command::new(exe)
    .arg("case")
    .arg(prop.id)
    .arg(stream)
    .arg(idx.to_string())
    .arg(seed.to_string())
    .arg(if thorough { "thorough" } else { "quick" })
    .arg(&out)
    .arg(dir.join("state999"))
    .stdin(Stdio::null())
    .stdout(Stdio::null())
    .stderr(Stdio::null())
    .spawn()
    .map_err(|e| e.to_string())?;
  let mut w = Watch::new(child, 999);
  loop {
    match w.child.try_wait().map_err(|e| e.to_string())? {
      Some(st) => {
        return match st.code() {
          Some(0) => Ok(None),
          Some(1) => Ok(Some(
            std::fs::read_to_string(&out).unwrap_or_default(),
          )),
          _ => match st.signal() {
            Some(9) => Err("killed".into()),
            Some(s) => {
              Ok(Some(Fault::Crash(format!("signal {}", s)).text()))
            }
            None => Err(format!("exit {:?}", st.code())),
          },
        };
      }
      None => {
        if let Some(f) = w.look(dir) {
          w.kill();
          return Ok(Some(f.text()));
        }
        std::thread::sleep(Duration::from_millis(20));
      }
    }
  }
}

pub struct Violation {
  pub stream: String,
  pub idx: u64,
  pub msg: String,
  pub desc: String,
  pub again: String,
}

pub struct Outcome {
  pub evaluations: u64,
  pub distinct: u64,
  pub ev: BTreeMap<String, u64>,
  pub max: BTreeMap<String, u64>,
  pub per: BTreeMap<String, u64>,
  pub samples: Vec<String>,
  pub complete: bool,
  pub violation: Option<Violation>,
  pub trouble: Vec<String>,
}

/// Runs all cases of a property in worker processes.
pub fn supervise(
  prop: &'static Prop,
  seed: u64,
  thorough: bool,
  secs: f64,
  scale: f64,
  of: u64,
  dir: &Path,
) -> Outcome {
  let exe = std::env::current_exe().unwrap();
  let mut ws: Vec<Watch> = (0..of)
    .map(|w| {
      let child = Command::new(&exe)
        .arg("worker")
        .arg(prop.id)
        .arg(w.to_string())
        .arg(of.to_string())
        .arg(seed.to_string())
        .arg(if thorough { "thorough" } else { "quick" })
        .arg(dir)
        .arg(secs.to_string())
        .arg(scale.to_string())
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(if std::env::var("MON_TRACE").is_ok() {
          Stdio::inherit()
        } else {
          Stdio::null()
        })
        .spawn()
        .expect("spawn worker");
      Watch::new(child, w)
    })
    .collect();
  let mut o = Outcome {
    evaluations: 0,
    distinct: 0,
    ev: BTreeMap::new(),
    max: BTreeMap::new(),
    per: BTreeMap::new(),
    samples: Vec::new(),
    complete: true,
    violation: None,
    trouble: Vec::new(),
  };
  let mut fault: Option<(u64, Fault)> = None;
  let mut found = false;
  while !ws.is_empty() && fault.is_none() && !found {
    let mut i = 0;
    while i < ws.len() {
      match ws[i].child.try_wait() {
        Ok(Some(st)) => {
          let w = ws.remove(i);
          match st.code() {
            Some(0) => {}
            Some(1) => found = true,
            _ => match st.signal() {
              Some(9) => {
                o.trouble.push(format!("worker {} was killed", w.w));
                o.complete = false;
              }
              Some(s) => {
                fault = Some((w.w, Fault::Crash(format!("signal {}", s))))
              }
              None => {
                fault =
                  Some((w.w, Fault::Crash(format!("exit {:?}", st.code()))))
              }
            },
          }
        }
        Ok(None) => {
          if let Some(f) = ws[i].look(dir) {
            fault = Some((ws[i].w, f));
            break;
          }
          i += 1;
        }
        Err(_) => i += 1,
      }
    }
    std::thread::sleep(Duration::from_millis(25));
  }
  for w in &mut ws {
    w.kill();
  }
  let mut all: HashSet<u64> = HashSet::new();
  for w in 0..of {
    if let Ok(b) = std::fs::read(dir.join(format!("sigs{}", w))) {
      for c in b.chunks_exact(8) {
        all.insert(u64::from_le_bytes(c.try_into().unwrap()));
      }
    }
    let Ok(text) = std::fs::read_to_string(dir.join(format!("out{}", w)))
    else {
      o.complete = false;
      continue;
    };
    for line in text.lines() {
      let f: Vec<&str> = line.split('\t').collect();
      match f[0] {
        "ev" => *o.ev.entry(f[1].into()).or_insert(0) += num(f[2]),
        "max" => {
          let e = o.max.entry(f[1].into()).or_insert(0);
          *e = (*e).max(num(f[2]));
        }
        "per" => {
          *o.per.entry(f[1].into()).or_insert(0) += num(f[2]);
        }
        "evals" => o.evaluations += num(f[1]),
        "sample" => o.samples.push(f[1].to_string()),
        "trouble" => o.trouble.push(f[1].to_string()),
        "incomplete" => o.complete = false,
        "viol" if o.violation.is_none() => {
          o.violation = Some(Violation {
            stream: f[1].into(),
            idx: num(f[2]),
            msg: f[3].into(),
            desc: f[4].into(),
            again: String::new(),
          })
        }
        _ => {}
      }
    }
  }
  o.distinct = all.len() as u64;
  if let Some(v) = &mut o.violation {
    v.again = match solo(prop, &v.stream, v.idx, seed, thorough, dir) {
      Ok(Some(m)) => format!("again when run alone: {}", m),
      Ok(None) => "not seen again when run alone".into(),
      Err(e) => format!("could not be run alone: {}", e),
    };
  } else if let Some((w, f)) = fault {
    let (_, s, idx) = read_state(dir, w);
    let stream = prop.streams[s as usize].name;
    // Deadlocks of threads depend on the schedule: what was seen is enough.
    let threads =
      matches!(prop.id, "T02" | "I01") && matches!(f, Fault::Deadlock);
    match solo(prop, stream, idx, seed, thorough, dir) {
      Ok(Some(m)) => {
        o.violation = Some(Violation {
          stream: stream.into(),
          idx,
          msg: json_str(&f.text()),
          desc: json_str(""),
          again: format!("again when run alone: {}", m),
        })
      }
      r if threads => {
        o.violation = Some(Violation {
          stream: stream.into(),
          idx,
          msg: json_str(&f.text()),
          desc: json_str(""),
          again: format!("run alone: {:?}", r),
        })
      }
      r => o.trouble.push(format!(
        "case {} {} of a worker: {}; run alone: {:?}",
        stream,
        idx,
        f.text(),
        r
      )),
    }
  }
  o
}

fn num(s: &str) -> u64 {
  s.parse().unwrap_or(0)
}

pub struct CheckArgs {
  pub seed: u64,
  pub thorough: bool,
  pub secs: f64,
  pub scale: f64,
  pub workers: u64,
  pub evidence: PathBuf,
  pub replays: PathBuf,
  pub dir: PathBuf,
  /// Extra JSON members for the coverage, from other stages.
  pub extra: String,
}

pub fn check(prop: &'static Prop, a: CheckArgs) -> i32 {
  let begin = Instant::now();
  std::fs::create_dir_all(&a.dir).unwrap();
  let o = supervise(
    prop, a.seed, a.thorough, a.secs, a.scale, a.workers, &a.dir,
  );
  let _ = std::fs::remove_dir_all(&a.dir);
  let tier = if a.thorough { "thorough" } else { "quick" };
  let map = |m: &BTreeMap<String, u64>| {
    m.iter()
      .map(|(k, v)| format!("{}: {}", json_str(k), v))
      .collect::<Vec<_>>()
      .join(", ")
  };
  let mut samples = o.samples.clone();
  samples.truncate(8);
  if samples.is_empty() {
    samples.push(json_str("none"));
  }
  let nothing = o.distinct < 2;
  let text = format!(
    "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"events_observed\": {{{}}},\n  \"maxima\": {{{}}},\n  \"cases_per_stream\": {{{}}},\n  \"all_planned_cases_run\": {},\n  \"worker_processes\": {}{}\n }},\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
    json_str(prop.id),
    tier,
    a.seed,
    o.evaluations,
    o.distinct,
    json_str(prop.rule),
    samples.join(", "),
    map(&o.ev),
    map(&o.max),
    map(&o.per),
    o.complete,
    a.workers,
    a.extra,
    begin.elapsed().as_secs_f64(),
    o.violation.is_some() as u32
  );
  if let Some(p) = a.evidence.parent() {
    let _ = std::fs::create_dir_all(p);
  }
  std::fs::write(&a.evidence, text).expect("write evidence");
  for t in &o.trouble {
    println!("TROUBLE: {}", t);
  }
  if let Some(v) = &o.violation {
    let _ = std::fs::create_dir_all(&a.replays);
    let path = a.replays.join(format!(
      "{}-{}-{}-{}.json",
      prop.id, v.stream, v.idx, a.seed
    ));
    let text = format!(
      "{{\n \"property\": {},\n \"stream\": {},\n \"index\": {},\n \"seed\": {},\n \"tier\": \"{}\",\n \"message\": {},\n \"case\": {},\n \"confirmation\": {},\n \"replay\": \"bongo-mon case {} {} {} {} {}\"\n}}\n",
      json_str(prop.id),
      json_str(&v.stream),
      v.idx,
      a.seed,
      tier,
      v.msg,
      v.desc,
      json_str(&v.again),
      prop.id,
      v.stream,
      v.idx,
      a.seed,
      tier
    );
    std::fs::write(&path, text).expect("write replay");
    println!("{}: {}", prop.id, v.msg);
    println!("  {}", v.again.lines().next().unwrap_or(""));
    println!("VIOLATION property={} replay={}", prop.id, path.display());
    return 1;
  }
  if nothing || !o.trouble.is_empty() {
    println!(
      "{}: inconclusive ({} evaluations, {} distinct)",
      prop.id, o.evaluations, o.distinct
    );
    return 2;
  }
  println!(
    "{}: held on {} evaluations, {} distinct non-trivial, {:.1} s{}",
    prop.id,
    o.evaluations,
    o.distinct,
    begin.elapsed().as_secs_f64(),
    if o.complete { "" } else { " (stopped by time)" }
  );
  let _ = std::io::stdout().flush();
  0
}

/// Runs one case in this process; used for confirmation and by hand.
pub fn case(
  prop: &'static Prop,
  stream: &str,
  idx: u64,
  seed: u64,
  thorough: bool,
  out: Option<&Path>,
  state: Option<&Path>,
) -> i32 {
  limit_memory();
  if let Some(s) = state {
    let mut buf = [0u8; 24];
    buf[0] = 1;
    let _ = std::fs::write(s, buf);
  }
  let Some(st) = prop.streams.iter().find(|s| s.name == stream) else {
    eprintln!("no stream {}", stream);
    return 2;
  };
  let mut ctx = Ctx::new(prop.id, st.name, idx, seed, thorough);
  let r = run_case(prop, &mut ctx);
  let text = match &r {
    Ok(()) => format!("held\n{}\nevents {:?} maxima {:?}", ctx.desc, ctx.ev, ctx.max),
    Err(m) => format!("{}\n{}", m, ctx.desc),
  };
  match out {
    Some(p) => std::fs::write(p, text).unwrap(),
    None => println!("{}", text),
  }
  r.is_err() as i32
}
