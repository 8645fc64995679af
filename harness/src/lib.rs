//! Harness API shared by all checks. Under the engine the `sym_*` functions create solver
//! variables; natively (replay) they read one recorded input vector.
extern "C" {
    fn sym_bits(n: u32) -> u64;
    fn sym_range(n: u64) -> u64;
    fn sym_case(n: u64) -> u64;
    fn sym_assume(b: bool);
    fn sym_check(b: bool, p: *const u8, n: usize);
    fn sym_cover(p: *const u8, n: usize);
    fn sym_observe(v: u64);
    fn sym_concretize(v: u64) -> u64;
    fn sym_merge_level(l: u32);
    fn sym_lut_bits(l: u32);
    fn sym_is_symbolic() -> u64;
}
/// n arbitrary bits
pub fn bits(n: u32) -> u64 { unsafe { sym_bits(n) } }
/// arbitrary value below n (a solver variable)
pub fn range(n: u64) -> u64 { unsafe { sym_range(n) } }
pub fn range_in(lo: u64, hi: u64) -> u64 { lo + range(hi - lo + 1) }
/// one of n cases, each explored separately (concrete in each)
pub fn case(n: u64) -> u64 { unsafe { sym_case(n) } }
pub fn flag() -> bool { bits(1) == 1 }
pub fn u8s() -> u8 { bits(8) as u8 }
pub fn u32s() -> u32 { bits(32) as u32 }
pub fn u64s() -> u64 { bits(64) }
pub fn assume(b: bool) { unsafe { sym_assume(b) } }
/// the property assertion `id`
pub fn check(b: bool, id: &str) { unsafe { sym_check(b, id.as_ptr(), id.len()) } }
/// a situation the check must be able to reach
pub fn cover(id: &str) { unsafe { sym_cover(id.as_ptr(), id.len()) } }
/// recorded in sampled traces and compared with the native run
pub fn observe(v: u64) { unsafe { sym_observe(v) } }
pub fn observe_f(v: f32) { observe(if v.is_nan() { 0x7fc0_0000 } else { v.to_bits() as u64 }) }
pub fn concretize(v: u64) -> u64 { unsafe { sym_concretize(v) } }
pub fn merge_level(l: u32) { unsafe { sym_merge_level(l) } }
pub fn lut_bits(l: u32) { unsafe { sym_lut_bits(l) } }
pub fn symbolic() -> bool { unsafe { sym_is_symbolic() == 1 } }
/// an arbitrary element of a table
pub fn pick<T: Copy>(tab: &[T]) -> T { tab[range(tab.len() as u64) as usize] }
/// Bit b of a u64
pub fn bit(v: u64, b: usize) -> bool { (v >> b) & 1 == 1 }

pub fn quiet_panics() { if !symbolic() { std::panic::set_hook(Box::new(|_| {})); } }
/// runs f; true if it panicked
pub fn panics<F: FnOnce()>(f: F) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}

pub mod mock;
#[macro_export]
macro_rules! entries {
    ($($f:ident),* $(,)?) => {
        fn main() {
            let a: Vec<String> = std::env::args().collect();
            let e = a.get(1).map(|s| s.as_str()).unwrap_or("");
            $( if e == stringify!($f) { $f(); println!("DONE"); return; } )*
            if e == "list" { $( println!("{}", stringify!($f)); )* return; }
            eprintln!("unknown entry {}", e);
            std::process::exit(98);
        }
    };
}
