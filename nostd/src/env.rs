//! All the environment there is: on 64 bits three functions of the C library, on 32 bits two system calls.
use core::alloc::{GlobalAlloc, Layout};
use core::sync::atomic::{AtomicU32, AtomicUsize, Ordering::Relaxed};
#[cfg(not(target_arch = "x86"))]
mod sys {
    #[link(name = "c")]
    extern "C" { fn aligned_alloc(a: usize, n: usize) -> *mut u8; fn free(p: *mut u8); fn write(fd: i32, p: *const u8, n: usize) -> isize; fn _exit(c: i32) -> !; }
    pub unsafe fn get(align: usize, n: usize) -> *mut u8 { aligned_alloc(align, n) }
    pub unsafe fn put(p: *mut u8, _n: usize) { free(p) }
    pub fn say(t: &str) { unsafe { write(1, t.as_ptr(), t.len()); } }
    pub fn end(c: i32) -> ! { unsafe { _exit(c) } }
    #[no_mangle]
    pub extern "C" fn main(argc: i32, argv: *const *const u8) -> i32 { unsafe { crate::run(argc as usize, argv) } }
}
#[cfg(target_arch = "x86")]
mod sys {
    use core::{arch::{asm, global_asm}, cell::UnsafeCell, ptr::null_mut};
    global_asm!(".globl _start", "_start:", "xor %ebp,%ebp", "mov %esp,%eax", "and $-16,%esp", "sub $12,%esp", "push %eax", "call first", options(att_syntax));
    #[no_mangle]
    unsafe extern "C" fn first(sp: *const usize) -> ! { let c = crate::run(*sp, sp.add(1) as *const *const u8); end(c) }
    unsafe fn call3(n: usize, a: usize, b: usize, c: usize) -> usize { let r; asm!("int $0x80", inlateout("eax") n => r, in("ebx") a, in("ecx") b, in("edx") c, options(att_syntax)); r }
    pub fn say(t: &str) { unsafe { call3(4, 1, t.as_ptr() as usize, t.len()); } }
    pub fn end(c: i32) -> ! { unsafe { call3(1, c as usize, 0, 0); } loop {} }
    // memory of the program's own, kept in lists by powers of two
    const N: usize = 512 << 20;
    #[repr(align(4096))]
    struct Arena(UnsafeCell<[u8; N]>, UnsafeCell<usize>, UnsafeCell<[*mut u8; 32]>);
    unsafe impl Sync for Arena {}
    static ARENA: Arena = Arena(UnsafeCell::new([0; N]), UnsafeCell::new(0), UnsafeCell::new([null_mut(); 32]));
    fn class(n: usize) -> usize { n.max(32).next_power_of_two().trailing_zeros() as usize }
    pub unsafe fn get(_align: usize, n: usize) -> *mut u8 {
        let (c, l) = (class(n), &mut *ARENA.2.get());
        if !l[c].is_null() { let p = l[c]; l[c] = *(p as *mut *mut u8); return p; }
        let (u, s) = (&mut *ARENA.1.get(), 1usize << c);
        let at = (*u + s.min(4096) - 1) / s.min(4096) * s.min(4096);
        if at + s > N { return null_mut(); }
        *u = at + s;
        (ARENA.0.get() as *mut u8).add(at)
    }
    pub unsafe fn put(p: *mut u8, n: usize) { let (c, l) = (class(n), &mut *ARENA.2.get()); *(p as *mut *mut u8) = l[c]; l[c] = p; }
}
static LIVE: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);
static BAD: AtomicU32 = AtomicU32::new(0);
pub fn live() -> usize { LIVE.load(Relaxed) }
pub fn total() -> usize { TOTAL.load(Relaxed) }
pub fn complaint() -> Option<&'static str> { match BAD.swap(0, Relaxed) { 0 => None, 1 => Some("a block was given back with another size or alignment than it was asked for, or twice"), _ => Some("a block of no bytes was asked for") } }
pub fn say(t: &str) { sys::say(t) }
struct A;
/// Every block is preceded by what it was asked for.
const MARK: usize = 0x6d61a11c;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() == 0 { BAD.store(2, Relaxed); }
        let head = l.align().max(32);
        let p = sys::get(head, (head + l.size() + head - 1) / head * head);
        if p.is_null() { return p; }
        let h = p.add(head).sub(32) as *mut usize;
        *h = MARK; *h.add(1) = l.size(); *h.add(2) = l.align(); *h.add(3) = MARK;
        LIVE.fetch_add(1, Relaxed); TOTAL.fetch_add(1, Relaxed);
        p.add(head)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = p.sub(32) as *mut usize;
        if *h != MARK || *h.add(3) != MARK || *h.add(1) != l.size() || *h.add(2) != l.align() { BAD.store(1, Relaxed); return; }
        *h = 0;
        core::ptr::write_bytes(p, 0xdd, l.size());
        LIVE.fetch_sub(1, Relaxed);
        let head = l.align().max(32);
        sys::put(p.sub(head), (head + l.size() + head - 1) / head * head);
    }
}
#[global_allocator]
static ALLOC: A = A;
struct Out;
impl core::fmt::Write for Out { fn write_str(&mut self, s: &str) -> core::fmt::Result { say(s); Ok(()) } }
#[panic_handler]
fn panic(i: &core::panic::PanicInfo) -> ! { use core::fmt::Write; let _ = writeln!(Out, "case {}: {}", unsafe { *core::ptr::addr_of!(crate::CASE) }, i); sys::end(1) }
// core and alloc come compiled for unwinding; nothing unwinds here
#[no_mangle] pub extern "C" fn rust_eh_personality() {}
#[no_mangle] pub extern "C" fn _Unwind_Resume() -> ! { sys::end(1) }
