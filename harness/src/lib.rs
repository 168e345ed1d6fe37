//! Property-based testing harness for mdarray: engine, allocator, model and shape catalogue.
pub mod alloc;
pub mod args;
pub mod elems;
pub mod engine;
pub mod inline;
pub mod lazy;
pub mod leaves;
pub mod model;
pub mod shapes;
pub mod track;
pub mod world;

pub use engine::*;
pub use model::*;
pub use shapes::*;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err(format!($($arg)*));
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b));
        }
    }};
}
