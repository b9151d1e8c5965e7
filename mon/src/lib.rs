//! Runtime monitors for the parsing half of `tmi`: workload generation, a reference model
//! and the oracles that compare every execution of the real code against it.

#[cfg(feature = "fuzz")]
pub mod fuzz;
pub mod gen;
pub mod model;
pub mod oracle;
pub mod place;
pub mod pure;
pub mod rng;
#[cfg(feature = "typed")]
pub mod typed;

use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Viol {
  /// what kind of disagreement (stable across inputs)
  pub sig: String,
  pub msg: String,
}

/// What one property check saw on one input.
#[derive(Default)]
pub struct Obs {
  pub viol: Vec<Viol>,
  pub hits: HashMap<&'static str, u64>,
  /// the oracle had something to decide on this input
  pub decided: bool,
  /// short description of the outcome, for the evidence samples
  pub outcome: String,
}

impl Obs {
  pub fn v(&mut self, sig: impl Into<String>, msg: impl Into<String>) {
    if self.viol.len() < 20 {
      self.viol.push(Viol {
        sig: sig.into(),
        msg: msg.into(),
      });
    }
  }
  pub fn hit(&mut self, k: &'static str) {
    *self.hits.entry(k).or_default() += 1;
  }
  pub fn hits(&mut self, k: &'static str, n: u64) {
    if n > 0 {
      *self.hits.entry(k).or_default() += n;
    }
  }
}

#[derive(Clone, Debug)]
pub struct Panic {
  pub at: String,
  pub msg: String,
}

thread_local! {
  static LAST: RefCell<Option<Panic>> = const { RefCell::new(None) };
}

pub fn install_hook() {
  std::panic::set_hook(Box::new(|info| {
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
      s.to_string()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
      s.clone()
    } else {
      "?".into()
    };
    let at = info
      .location()
      .map(|l| format!("{}:{}", l.file(), l.line()))
      .unwrap_or_default();
    // a panic of the harness itself is not a verdict about the code under test
    if at.starts_with("src/") || at.contains("/mon/src/") {
      eprintln!("HARNESS-PANIC {at}: {msg}");
      std::process::exit(3);
    }
    LAST.with(|l| *l.borrow_mut() = Some(Panic { at, msg }));
  }));
}

/// Run code of the crate under test; a panic becomes an observation.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Panic> {
  catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
    LAST.with(|l| l.borrow_mut().take()).unwrap_or(Panic {
      at: "?".into(),
      msg: "?".into(),
    })
  })
}

/// Run the monitor of `prop` on one input.
pub fn check(prop: &str, s: &str) -> Obs {
  let mut o = Obs::default();
  match prop {
    "C01" => oracle::c01(s, &mut o),
    "C02" => oracle::c02(s, &mut o),
    "C03" => oracle::c03(s, &mut o),
    "C05" => oracle::c05(s, &mut o),
    "C06" => oracle::c06(s, &mut o),
    "C07" => oracle::c07(s, &mut o),
    #[cfg(feature = "typed")]
    "C08" => oracle::typed::c08(s, &mut o),
    #[cfg(feature = "typed")]
    "C09" | "C10" | "C11" | "C12" | "C13" => oracle::typed::fields(prop, s, &mut o),
    #[cfg(feature = "typed")]
    "C14" => oracle::typed::c14(s, &mut o),
    #[cfg(feature = "serde")]
    "C15" => oracle::serde::c15(s, &mut o),
    _ => {
      eprintln!("no oracle for {prop} in this build");
      std::process::exit(3);
    }
  }
  o
}

/// One workload item for `prop`.
pub fn generate(prop: &str, g: &mut gen::Gen) -> String {
  let pick = |g: &mut gen::Gen, l: &[&str]| -> String {
    let c = l[g.r.below(l.len())];
    g.line(Some(c))
  };
  match prop {
    "C06" => g.name_case(),
    "C07" => g.unescape_case(),
    "C08" | "C14" | "C15" => {
      if g.r.pct(92) {
        // every message type equally often, plus a few commands that stay untyped
        let cmds: &[&str] = &[
          "CLEARCHAT", "CLEARMSG", "GLOBALUSERSTATE", "JOIN", "NOTICE", "PART", "PING", "PONG",
          "PRIVMSG", "PRIVMSG", "RECONNECT", "ROOMSTATE", "USERNOTICE", "USERNOTICE", "USERNOTICE",
          "USERSTATE", "WHISPER", "353", "CAP", "001",
        ];
        pick(g, cmds)
      } else {
        g.raw_case()
      }
    }
    "C09" => pick(g, &["PRIVMSG", "PRIVMSG", "WHISPER", "CLEARMSG"]),
    "C10" => pick(g, &["USERNOTICE"]),
    "C11" => pick(g, &["PRIVMSG", "USERNOTICE", "USERSTATE", "GLOBALUSERSTATE", "WHISPER"]),
    "C12" => pick(g, &["CLEARCHAT", "ROOMSTATE"]),
    "C13" => pick(g, &["JOIN", "PART", "PING", "PONG", "NOTICE", "USERSTATE", "GLOBALUSERSTATE"]),
    _ => g.raw_case(),
  }
}

/// Which properties also get the exhaustive delimiter sweep.
pub fn sweeps(prop: &str) -> bool {
  matches!(prop, "C01" | "C02" | "C03" | "C04" | "C05" | "dig")
}
