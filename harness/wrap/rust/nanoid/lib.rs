//! Stand-in for nanoid: ids that never repeat.
use std::sync::atomic::{AtomicUsize, Ordering};
static N: AtomicUsize = AtomicUsize::new(0);
pub fn next(size: usize) -> String {
    let n = N.fetch_add(1, Ordering::SeqCst);
    format!("{:0>1$}", n, size)
}
pub mod alphabet {
    pub const SAFE: [char; 2] = ['0', '1'];
}
#[macro_export]
macro_rules! nanoid {
    () => { $crate::next(21) };
    ($size:expr) => { $crate::next($size) };
    ($size:expr, $alphabet:expr) => {{ let _ = $alphabet; $crate::next($size) }};
}
