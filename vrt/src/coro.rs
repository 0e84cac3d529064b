//! Minimal stackful coroutines (x86_64 System V): enough to run the logical
//! threads of one scenario on one OS thread.
use std::arch::global_asm;
use std::cell::RefCell;

global_asm!(
  ".text",
  ".p2align 4",
  ".globl vrt_switch",
  "vrt_switch:",
  "push rbp",
  "push rbx",
  "push r12",
  "push r13",
  "push r14",
  "push r15",
  "mov [rdi], rsp",
  "mov rsp, rsi",
  "pop r15",
  "pop r14",
  "pop r13",
  "pop r12",
  "pop rbx",
  "pop rbp",
  "ret",
  ".p2align 4",
  ".globl vrt_boot",
  "vrt_boot:",
  "mov rdi, r12",
  "call r13",
  "ud2",
);

extern "C" {
  pub fn vrt_switch(save: *mut usize, to: usize);
  fn vrt_boot();
  fn mmap(
    addr: *mut u8,
    len: usize,
    prot: i32,
    flags: i32,
    fd: i32,
    off: i64,
  ) -> *mut u8;
  fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}

const STACK: usize = 16 * 1024 * 1024;
const GUARD: usize = 16 * 4096;

thread_local! {
  static POOL: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) };
}
static GLOBAL_POOL: std::sync::Mutex<Vec<usize>> =
  std::sync::Mutex::new(Vec::new());

pub fn take_stack() -> usize {
  if let Some(b) = POOL.with(|p| p.borrow_mut().pop()) {
    return b;
  }
  if let Some(b) = GLOBAL_POOL.lock().unwrap().pop() {
    return b;
  }
  unsafe {
    // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
    let b = mmap(std::ptr::null_mut(), STACK, 3, 0x2 | 0x20 | 0x4000, -1, 0);
    assert!(b as isize > 0, "mmap of a coroutine stack failed");
    mprotect(b, GUARD, 0);
    b as usize
  }
}

pub fn give_stack(b: usize) {
  POOL.with(|p| p.borrow_mut().push(b));
}

/// Called at the end of a carrier OS thread so its stacks are reused.
pub fn flush_pool() {
  POOL.with(|p| GLOBAL_POOL.lock().unwrap().append(&mut p.borrow_mut()));
}

/// Prepares a fresh stack that will call `f(arg)` when first switched to.
pub unsafe fn prepare(
  base: usize,
  f: extern "C" fn(usize) -> !,
  arg: usize,
) -> usize {
  let top = (base + STACK) & !15;
  let mut sp = top - 64;
  let mut push = |v: usize| {
    sp -= 8;
    *(sp as *mut usize) = v;
  };
  push(vrt_boot as *const () as usize); // return address of vrt_switch
  push(0); // rbp
  push(0); // rbx
  push(arg); // r12
  push(f as usize); // r13
  push(0); // r14
  push(0); // r15
  sp
}
