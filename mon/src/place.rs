//! Placing an input at a hostile spot in memory: flush against an inaccessible page on
//! either side, or at any alignment with misleading bytes around it.

/// Extend the lifetime of a placed string to that of the borrow of the arena.
pub struct Arena {
  buf: Vec<u8>,
}

const PAD: usize = 256;

impl Arena {
  pub fn new() -> Self {
    Arena { buf: Vec::new() }
  }

  /// `align`: address modulo 64; `fill`: byte pattern around the input.
  pub fn place<'a>(&'a mut self, s: &str, align: usize, fill: &[u8]) -> &'a str {
    let need = s.len() + 2 * PAD + 64;
    if self.buf.len() < need {
      self.buf.resize(need, 0);
    }
    let base = self.buf.as_ptr() as usize;
    let start = PAD + (64 - (base + PAD) % 64) % 64 + align % 64;
    for (i, b) in self.buf[start - PAD.min(start)..start].iter_mut().enumerate() {
      *b = fill[i % fill.len()];
    }
    self.buf[start..start + s.len()].copy_from_slice(s.as_bytes());
    let end = start + s.len();
    let stop = (end + 128).min(self.buf.len());
    for (i, b) in self.buf[end..stop].iter_mut().enumerate() {
      *b = fill[i % fill.len()];
    }
    std::str::from_utf8(&self.buf[start..end]).expect("copied str")
  }
}

#[cfg(not(miri))]
mod guard {
  use std::ptr;

  /// A mapping with an inaccessible page on both sides.
  pub struct Guarded {
    base: *mut u8,
    len: usize,
  }

  const PAGE: usize = 4096;

  impl Guarded {
    pub fn new(pages: usize) -> Self {
      let len = pages * PAGE;
      unsafe {
        let p = libc::mmap(
          ptr::null_mut(),
          len + 2 * PAGE,
          libc::PROT_NONE,
          libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
          -1,
          0,
        );
        assert!(p != libc::MAP_FAILED, "mmap");
        let base = (p as *mut u8).add(PAGE);
        assert!(libc::mprotect(base as _, len, libc::PROT_READ | libc::PROT_WRITE) == 0, "mprotect");
        Guarded { base, len }
      }
    }

    pub fn capacity(&self) -> usize {
      self.len
    }

    /// The input ends exactly where the inaccessible page starts.
    pub fn right<'a>(&'a mut self, s: &str) -> &'a str {
      assert!(s.len() <= self.len);
      self.at(self.len - s.len(), s)
    }

    /// The input starts right after the inaccessible page.
    pub fn left<'a>(&'a mut self, s: &str) -> &'a str {
      self.at(0, s)
    }

    fn at<'a>(&'a mut self, off: usize, s: &str) -> &'a str {
      unsafe {
        let p = self.base.add(off);
        ptr::copy_nonoverlapping(s.as_ptr(), p, s.len());
        std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, s.len()))
      }
    }
  }

  impl Drop for Guarded {
    fn drop(&mut self) {
      unsafe {
        libc::munmap(self.base.sub(PAGE) as _, self.len + 2 * PAGE);
      }
    }
  }
}
#[cfg(not(miri))]
pub use guard::Guarded;

/// A heap block of exactly the input's size (so that ASan's red zone and Miri's bounds
/// start right behind it); `lead` bytes in front vary its alignment.
pub struct Exact {
  block: Box<[u8]>,
  lead: usize,
}

impl Exact {
  pub fn new(s: &str, lead: usize) -> Self {
    let mut v = vec![b';'; lead + s.len()];
    v[lead..].copy_from_slice(s.as_bytes());
    Exact {
      block: v.into_boxed_slice(),
      lead,
    }
  }
  pub fn get(&self) -> &str {
    std::str::from_utf8(&self.block[self.lead..]).expect("copied str")
  }
}
