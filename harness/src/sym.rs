//! Harness interface. In the symbolic executor these are modelled; natively they replay a file.
use std::fmt::{self, Write};
use std::panic::Location;

mod c {
    extern "C" {
        pub fn sym_u8() -> u8;
        pub fn sym_u16() -> u16;
        pub fn sym_u21() -> u32;
        pub fn sym_u32() -> u32;
        pub fn sym_u64() -> u64;
        pub fn sym_bool() -> u8;
        pub fn sym_param(i: u64) -> u64;
        pub fn sym_assume(c: u8);
        pub fn sym_check(c: u8, m: *const u8, n: u64);
        pub fn sym_fail(m: *const u8, n: u64);
        pub fn sym_reach(i: u64);
        pub fn sym_out(v: u64);
        pub fn sym_out8(p: *const u8, n: u64);
        pub fn sym_concrete(v: u64) -> u64;
        pub fn sym_trace(p: *const u8, n: u64, v: u64);
        pub fn sym_finish();
    }
}
pub fn u8() -> u8 { unsafe { c::sym_u8() } }
pub fn u16() -> u16 { unsafe { c::sym_u16() } }
pub fn u32() -> u32 { unsafe { c::sym_u32() } }
pub fn u64() -> u64 { unsafe { c::sym_u64() } }
pub fn usize() -> usize { u64() as usize }
pub fn boolean() -> bool { unsafe { c::sym_bool() != 0 } }
pub fn param(i: u64) -> usize { unsafe { c::sym_param(i) as usize } }
pub fn assume(x: bool) { unsafe { c::sym_assume(x as u8) } }
pub fn check(x: bool, m: &str) { unsafe { c::sym_check(x as u8, m.as_ptr(), m.len() as u64) } }
pub fn fail(m: &str) { unsafe { c::sym_fail(m.as_ptr(), m.len() as u64) } }
pub fn reach(i: u64) { unsafe { c::sym_reach(i) } }
pub fn out(v: u64) { unsafe { c::sym_out(v) } }
pub fn outs(s: &str) { unsafe { c::sym_out8(s.as_ptr(), s.len() as u64); c::sym_out(s.len() as u64) } }
pub fn trace(s: &str, v: u64) { unsafe { c::sym_trace(s.as_ptr(), s.len() as u64, v) } }
pub fn finish() { unsafe { c::sym_finish() } }
/// an arbitrary Unicode scalar value
pub fn ch() -> char {
    let x = unsafe { c::sym_u21() };
    assume(x < 0xD800 || (x > 0xDFFF && x < 0x110000));
    unsafe { char::from_u32_unchecked(x) }
}
/// symbolic value below n
pub fn below(n: u8) -> u8 { let x = u8(); assume(x < n); x }
/// a value below n, one path per value
pub fn pick(n: usize) -> usize {
    if n <= 1 { return 0; }
    let x = below(n as u8);
    unsafe { c::sym_concrete(x as u64) as usize }
}

/// the same value, one path per value
pub fn each(x: usize) -> usize { unsafe { c::sym_concrete(x as u64) as usize } }

const MAX: usize = 2000;
static mut LIM: usize = 14;
static mut MSG: ([u8; MAX], usize) = ([0; MAX], 0);
/// keep whole panic messages, not only the start
pub fn whole_messages() { unsafe { LIM = MAX } }
struct Sink;
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        unsafe {
            let m = &mut *(&raw mut MSG);
            for &b in s.as_bytes() {
                if m.1 >= LIM { return Err(fmt::Error); }
                m.0[m.1] = b;
                m.1 += 1;
            }
            if m.1 >= LIM { Err(fmt::Error) } else { Ok(()) }
        }
    }
}
/// Every panic in the symbolic executor goes through here instead of the panic hook.
#[no_mangle]
#[inline(never)]
pub fn sym_panic(a: fmt::Arguments<'_>, _l: &Location<'_>) -> ! {
    unsafe { (*(&raw mut MSG)).1 = 0; }
    let _ = Sink.write_fmt(a);
    std::panic::resume_unwind(Box::new(()))
}
#[no_mangle]
#[inline(never)]
pub fn sym_panic_plain() -> ! {
    unsafe { (*(&raw mut MSG)).1 = 0; }
    std::panic::resume_unwind(Box::new(()))
}
#[used]
static KEEP: fn(fmt::Arguments<'_>, &Location<'_>) -> ! = sym_panic;
#[used]
static KEEP2: fn() -> ! = sym_panic_plain;

pub fn native_hook() {
    std::panic::set_hook(Box::new(|i| {
        let s: &str = if let Some(s) = i.payload().downcast_ref::<&str>() { s } else if let Some(s) = i.payload().downcast_ref::<String>() { s } else { "" };
        unsafe { (*(&raw mut MSG)).1 = 0; }
        let _ = Sink.write_str(s);
        eprintln!("\nSYM PANIC {} [{}]", i.location().map(|l| l.to_string()).unwrap_or_default(), s);
    }));
}
pub fn msg() -> &'static str { unsafe { let m = &*(&raw const MSG); std::str::from_utf8(&m.0[..m.1]).unwrap_or("") } }
/// Runs f; Err(()) if it panicked (the start of the message is then in msg()).
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| ())
}
