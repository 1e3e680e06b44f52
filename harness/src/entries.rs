//! The table of entries, and running one by name.
macro_rules! entries {
    ($($m:ident :: $f:ident),* $(,)?) => {
        $(#[unsafe(no_mangle)] pub extern "C" fn $f() { $m::$f() })*
        fn main() {
            let entries: &[(&str, extern "C" fn())] = &[$((stringify!($f), $f)),*];
            let a = std::env::args().nth(1).unwrap_or_default();
            for (n, f) in entries {
                if *n == a {
                    #[cfg(feature = "native")]
                    native::start(*f);
                    #[cfg(not(feature = "native"))]
                    f();
                }
            }
        }
    };
}
