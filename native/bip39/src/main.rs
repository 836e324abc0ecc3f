#[path = "../../../kani/bip39/src/lib.rs"]
mod contracts;

/// the system allocator; a secret under observation is looked at when its block is released
struct Spy;
unsafe impl std::alloc::GlobalAlloc for Spy {
  unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
    std::alloc::System.alloc(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
    contracts::spied(p, l.size());
    std::alloc::System.dealloc(p, l)
  }
}
#[global_allocator]
static A: Spy = Spy;

fn main() {
  rt::run(&[contracts::TABLE, contracts::NATIVE].concat())
}
