//! Monitors for google/bongo. See ../../DESIGN.md.
#![allow(unexpected_cfgs)]

#[macro_use]
mod core;
mod desc;
mod m_analysis;
mod m_compose;
mod m_debug;
mod m_earley;
mod m_grammar;
mod m_indep;
mod m_mem;
mod m_mini;
mod m_misc;
mod m_regular;
mod m_tree;
mod m_values;
mod runner;
mod sy;

use crate::core::Prop;
use std::path::{Path, PathBuf};

pub static PROPS: &[Prop] = &[
  m_grammar::G01,
  m_grammar::G02,
  m_grammar::G03,
  m_grammar::G04,
  m_grammar::G05,
  m_values::G06,
  m_debug::G07,
  m_analysis::A01,
  m_analysis::A02,
  m_analysis::A03,
  m_analysis::A04,
  m_analysis::A05,
  m_analysis::X01,
  m_compose::P01,
  m_earley::E01,
  m_earley::E02,
  m_earley::E03,
  m_earley::E04,
  m_tree::T01,
  m_tree::T02,
  m_tree::T03,
  m_values::T04,
  m_misc::S01,
  m_misc::S02,
  m_misc::K01,
  m_misc::B01,
  m_misc::B02,
  m_misc::U01,
  m_misc::U02,
  m_misc::U03,
  m_misc::U04,
  m_misc::U05,
  m_mem::M01,
  m_indep::I01,
];

fn prop(id: &str) -> &'static Prop {
  PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
    eprintln!("no property {}", id);
    std::process::exit(2)
  })
}

fn main() -> std::process::ExitCode {
  core::install_panic_hook();
  let a: Vec<String> = std::env::args().skip(1).collect();
  let num = |i: usize| a[i].parse::<u64>().expect("number");
  let code = match a.first().map(|s| s.as_str()) {
    Some("list") => {
      for p in PROPS {
        println!("{}", p.id);
      }
      0
    }
    Some("hooks") => {
      println!("{}", cfg!(bongo_verif));
      0
    }
    // IDS SEED PART OF ROUNDS SECS SLOW
    Some("inproc") => {
      let seed = if a[2] == "addr" {
        m_mem::address_seed()
      } else {
        num(2)
      };
      let code = m_mem::inproc(
        &a[1],
        seed,
        num(3),
        num(4),
        num(5),
        a[6].parse().unwrap(),
        a[7].parse().unwrap(),
      );
      drop(a);
      // By returning, so that leaks are looked for.
      return std::process::ExitCode::from(code as u8);
    }
    Some("together") => m_indep::child(&a[1..]),
    // SEED PART OF COUNT SECS
    Some("mini") => {
      let seed = if a[1] == "addr" {
        m_mem::address_seed()
      } else {
        num(1)
      };
      m_mem::mini(seed, num(2), num(3), num(4), a[5].parse().unwrap());
      drop(a);
      return std::process::ExitCode::from(0);
    }
    Some("worker") => runner::worker(
      prop(&a[1]),
      runner::WorkerArgs {
        w: num(2),
        of: num(3),
        seed: num(4),
        thorough: a[5] == "thorough",
        dir: PathBuf::from(&a[6]),
        secs: a[7].parse().unwrap(),
        scale: a[8].parse().unwrap(),
      },
    ),
    Some("case") => runner::case(
      prop(&a[1]),
      &a[2],
      num(3),
      num(4),
      a[5] == "thorough",
      a.get(6).map(Path::new),
      a.get(7).map(Path::new),
    ),
    Some("check") => {
      let p = prop(&a[1]);
      let env = |k: &str, d: &str| std::env::var(k).unwrap_or(d.to_string());
      let thorough = env("VERIF_TIER", "quick") == "thorough";
      let seed = env("VERIF_SEED", "1").parse().unwrap_or(1);
      let root = PathBuf::from(&a[2]);
      runner::check(
        p,
        runner::CheckArgs {
          seed,
          thorough,
          secs: env("MON_SECS", if thorough { "1500" } else { "240" })
            .parse()
            .unwrap(),
          scale: env("MON_SCALE", "1").parse().unwrap(),
          workers: env("MON_WORKERS", "8").parse().unwrap(),
          evidence: PathBuf::from(env(
            "MON_EVIDENCE",
            root
              .join(format!("evidence/{}.json", p.id))
              .to_str()
              .unwrap(),
          )),
          replays: root.join("replays"),
          dir: std::env::temp_dir().join(format!(
            "bongo-mon-{}-{}",
            p.id,
            std::process::id()
          )),
          extra: env("MON_EXTRA", ""),
        },
      )
    }
    _ => {
      eprintln!("usage: bongo-mon list | check ID ROOT | case ID STREAM INDEX SEED TIER");
      2
    }
  };
  std::process::exit(code)
}
