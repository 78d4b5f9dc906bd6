//! The symbol types handed to the library. They count comparisons and clones.

use crate::core::tick;
use bongo::utils::ToDoc;
use std::cell::Cell;
use std::cmp::Ordering;

thread_local! {
  static PLAIN: Cell<bool> = const { Cell::new(false) };
}

/// Whether symbols all look the same when printed for debugging: nothing but
/// texts may depend on that.
pub fn set_plain(on: bool) {
  PLAIN.with(|p| p.set(on));
}

macro_rules! sym {
  ($n:ident, $p:literal) => {
    pub struct $n(pub u32);
    impl Clone for $n {
      fn clone(&self) -> Self {
        tick();
        $n(self.0)
      }
    }
    impl PartialEq for $n {
      fn eq(&self, o: &Self) -> bool {
        tick();
        self.0 == o.0
      }
    }
    impl Eq for $n {}
    impl PartialOrd for $n {
      fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
      }
    }
    impl Ord for $n {
      fn cmp(&self, o: &Self) -> Ordering {
        tick();
        self.0.cmp(&o.0)
      }
    }
    impl std::fmt::Debug for $n {
      fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if PLAIN.with(|p| p.get()) {
          return f.write_str($p);
        }
        write!(f, concat!($p, "{}"), self.0)
      }
    }
    impl ToDoc for $n {
      fn to_doc<'a, DA: pretty::DocAllocator<'a>>(
        &self,
        da: &'a DA,
      ) -> pretty::DocBuilder<'a, DA, ()>
      where
        DA::Doc: Clone,
      {
        da.text(format!(concat!($p, "{}"), self.0))
      }
    }
  };
}

sym!(Tm, "t");
sym!(Nt, "n");
sym!(Ak, "k");
sym!(Av, "v");
sym!(Vl, "w");
