// Symbolic runtime interface (included by every harness crate).
#[allow(dead_code)]
pub mod rt {
    extern "C" {
        fn __sym_bytes(p: *mut u8, n: usize);
        fn __sym_from(p: *const u8, n: usize) -> u8;
        fn __sym_below(n: u32) -> u32;
        fn __sym_choice(n: u32) -> u32;
        fn __sym_assume(c: bool);
        fn __sym_fail(p: *const u8, n: usize);
        fn __sym_emit(p: *const u8, n: usize);
        fn __sym_cover(p: *const u8, n: usize);
        fn __sym_native() -> bool;
        fn rt_batch(run: extern "C" fn() -> i32, show: i32) -> i32;
    }
    /// n arbitrary bytes
    pub fn bytes(n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        unsafe { __sym_bytes(v.as_mut_ptr(), n) };
        v
    }
    /// one arbitrary byte of the set
    pub fn from(set: &[u8]) -> u8 {
        unsafe { __sym_from(set.as_ptr(), set.len()) }
    }
    /// an arbitrary number in 0..n
    pub fn below(n: u32) -> u32 {
        unsafe { __sym_below(n) }
    }
    /// an arbitrary number in 0..n, to choose between alternatives
    pub fn choice(n: u32) -> u32 {
        let x = below(n);
        for i in 0..n {
            if x == i {
                return i;
            }
        }
        n - 1
    }
    /// an arbitrary number in 0..n, decided at once (`choice` leaves that to the first branch on it)
    pub fn fork(n: u32) -> u32 {
        unsafe { __sym_choice(n) }
    }
    pub fn flag() -> bool {
        choice(2) == 1
    }
    pub fn assume(c: bool) {
        unsafe { __sym_assume(c) }
    }
    pub fn fail(m: &str) -> ! {
        unsafe { __sym_fail(m.as_ptr(), m.len()) };
        unreachable!()
    }
    pub fn emit(m: &[u8]) {
        unsafe { __sym_emit(m.as_ptr(), m.len()) }
    }
    pub fn cover(m: &str) {
        unsafe { __sym_cover(m.as_ptr(), m.len()) }
    }
    pub fn native() -> bool {
        unsafe { __sym_native() }
    }
    /// The property assertion: `detail` is only built in the native replay.
    pub fn check(c: bool, m: &str, detail: &dyn Fn() -> String) {
        if !c {
            if native() {
                fail(&format!("{m}: {}", detail()));
            }
            fail(m)
        }
    }
    static mut CUR: Option<fn()> = None;
    extern "C" fn run_cur() -> i32 {
        #[allow(static_mut_refs)]
        let f = unsafe { CUR.unwrap() };
        match std::panic::catch_unwind(f) {
            Ok(()) => 0,
            Err(e) => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                println!("PANICMSG {}", m.replace('\n', " "));
                1
            }
        }
    }
    /// `harness ENTRY [--show]`: replays the hex inputs on stdin.
    pub fn main_(entries: &[(&str, fn())]) {
        let a: Vec<String> = std::env::args().collect();
        if a.len() < 2 {
            for e in entries {
                println!("{}", e.0);
            }
            return;
        }
        let f = entries.iter().find(|e| e.0 == a[1]).expect("entry").1;
        std::panic::set_hook(Box::new(|_| {}));
        unsafe {
            CUR = Some(f);
            rt_batch(run_cur, a.iter().any(|x| x == "--show") as i32);
        }
    }
}
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $($(#[$m])* #[no_mangle] #[inline(never)] pub fn $n() $b)*
        pub const ENTRIES: &[(&str, fn())] = &[$((stringify!($n), $n as fn())),*];
    };
}
macro_rules! check {
    ($c:expr, $m:expr) => { rt::check($c, $m, &|| String::new()) };
    ($c:expr, $m:expr, $($a:tt)*) => { rt::check($c, $m, &|| format!($($a)*)) };
}
