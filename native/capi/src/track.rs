//! A global allocator that, while tracking, keeps every released allocation aside and records
//! releases with another layout, double releases, and what is never released.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

const N: usize = 1 << 15;
#[derive(Clone, Copy)]
struct Slot {
  ptr: usize,
  size: usize,
  align: usize,
  live: bool
}
static mut SLOTS: [Slot; N] = [Slot { ptr: 0, size: 0, align: 0, live: false }; N];
thread_local! {
  static ON: Cell<bool> = const { Cell::new(false) };
  static USED: Cell<usize> = const { Cell::new(0) };
  static BAD_LAYOUT: Cell<usize> = const { Cell::new(0) };
  static DOUBLE: Cell<usize> = const { Cell::new(0) };
  static FOREIGN: Cell<usize> = const { Cell::new(0) };
  static DAMAGED: Cell<usize> = const { Cell::new(0) };
}
pub struct Track;
#[global_allocator]
static GLOBAL: Track = Track;

/// position of the last allocation at this address
fn find(p: usize) -> Option<usize> {
  let n = USED.with(|u| u.get());
  (0..n).rev().find(|i| unsafe { SLOTS[*i].ptr == p })
}
const GUARD: usize = 32;
unsafe impl GlobalAlloc for Track {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    if !ON.with(|o| o.get()) {
      return System.alloc(l);
    }
    if USED.with(|u| u.get()) == N {
      return System.alloc(l);
    }
    // bytes after the allocation show writes past its end
    let p = System.alloc(Layout::from_size_align_unchecked(l.size() + GUARD, l.align()));
    std::ptr::write_bytes(p.add(l.size()), 0xa5, GUARD);
    let n = USED.with(|u| u.get());
    SLOTS[n] = Slot { ptr: p as usize, size: l.size(), align: l.align(), live: true };
    USED.with(|u| u.set(n + 1));
    p
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    if !ON.with(|o| o.get()) {
      return System.dealloc(p, l);
    }
    match find(p as usize) {
      None => {
        // belongs to the caller
        FOREIGN.with(|c| c.set(c.get() + 1))
      }
      Some(i) => {
        let s = SLOTS[i];
        if !s.live {
          DOUBLE.with(|c| c.set(c.get() + 1));
          return;
        }
        if s.size != l.size() || s.align != l.align() {
          BAD_LAYOUT.with(|c| c.set(c.get() + 1));
        }
        if (0..GUARD).any(|k| *p.add(s.size + k) != 0xa5) {
          DAMAGED.with(|c| c.set(c.get() + 1));
        }
        SLOTS[i].live = false;
        std::ptr::write_bytes(p, 0xdd, s.size);
      }
    }
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    if !ON.with(|o| o.get()) {
      return System.realloc(p, l, n);
    }
    let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
    std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
    self.dealloc(p, l);
    q
  }
}

/// is this address inside memory that was released while tracking
pub fn released(p: *const u8) -> bool {
  let n = USED.with(|u| u.get());
  (0..n).rev().find(|i| unsafe { p as usize >= SLOTS[*i].ptr && (p as usize) < SLOTS[*i].ptr + SLOTS[*i].size.max(1) })
    .map(|i| unsafe { !SLOTS[i].live }).unwrap_or(false)
}
/// size of the live allocation beginning at this address
pub fn owned(p: *const u8) -> Option<(usize, usize)> {
  find(p as usize).and_then(|i| unsafe { if SLOTS[i].live { Some((SLOTS[i].size, SLOTS[i].align)) } else { None } })
}

thread_local! {
  static MESSAGE: Cell<([u8; 512], usize)> = const { Cell::new(([0; 512], 0)) };
}
/// keeps the last panic's message without allocating
struct Message;
impl std::fmt::Write for Message {
  fn write_str(&mut self, t: &str) -> std::fmt::Result {
    let (mut b, mut n) = MESSAGE.with(|m| m.get());
    for c in t.bytes() {
      if n < b.len() {
        b[n] = c;
        n += 1;
      }
    }
    MESSAGE.with(|m| m.set((b, n)));
    Ok(())
  }
}

/// a call of the library: what it allocates and releases is tracked
pub fn on<R>(f: impl FnOnce() -> R) -> R {
  ON.with(|o| o.set(true));
  let r = f();
  ON.with(|o| o.set(false));
  r
}
/// runs `f` and checks what its calls (`on`) allocated: everything released, once, with its own layout
pub fn tracked<R>(f: impl FnOnce() -> R) -> R {
  USED.with(|c| c.set(0));
  for c in [&BAD_LAYOUT, &DOUBLE, &DAMAGED, &FOREIGN] {
    c.with(|c| c.set(0))
  }
  let hook = std::panic::take_hook();
  std::panic::set_hook(Box::new(|i| {
    let _ = std::fmt::Write::write_fmt(&mut Message, format_args!("{}", i));
  }));
  MESSAGE.with(|m| m.set(([0; 512], 0)));
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
  ON.with(|o| o.set(false));
  std::panic::set_hook(hook);
  let r = match r {
    Ok(r) => r,
    Err(e) if e.downcast_ref::<rt::Rejected>().is_some() => std::panic::resume_unwind(e),
    Err(_) => {
      let (b, n) = MESSAGE.with(|m| m.get());
      panic!("{}", String::from_utf8_lossy(&b[..n]))
    }
  };
  let n = USED.with(|u| u.get());
  let mut leaked = Vec::new();
  for i in 0..n {
    let s = unsafe { SLOTS[i] };
    if s.live {
      leaked.push(s.size);
    } else {
      unsafe { System.dealloc(s.ptr as *mut u8, Layout::from_size_align_unchecked(s.size + GUARD, s.align)) }
    }
  }
  assert!(BAD_LAYOUT.with(|c| c.get()) == 0, "memory is released with another layout than it was made with");
  assert!(DOUBLE.with(|c| c.get()) == 0, "memory is released twice");
  assert!(FOREIGN.with(|c| c.get()) == 0, "memory of the caller is released");
  assert!(DAMAGED.with(|c| c.get()) == 0, "memory past the end of an allocation is written");
  assert!(leaked.is_empty(), "memory is never released: allocations of {:?} bytes", leaked);
  r
}
