//! The public constants of the crate, as numbers.
use object::Wrap;

/// A constant: what it is, and what it should be.
#[derive(Clone, Debug)]
pub struct Cst {
    pub module: &'static str,
    pub name: &'static str,
    pub ty: &'static str,
    pub got: i128,
    pub want: i128,
    pub src: &'static str,
}

pub trait Number {
    fn number(self) -> i128;
}
macro_rules! numbers {
    ($($t:ty)*) => { $(impl Number for $t { fn number(self) -> i128 { self as i128 } })* };
}
numbers!(u8 u16 u32 u64 usize i8 i16 i32 i64);

/// The number of a constant, typed or not.
pub fn number<T: Wrap>(t: T) -> i128
where
    T::Inner: Number,
{
    t.into_inner().number()
}

#[macro_export]
macro_rules! c {
    ($v:ident $m:ident $n:ident $t:literal $x:literal $s:literal) => {
        $v.push(Cst { module: stringify!($m), name: stringify!($n), ty: $t, got: $crate::consts::number(object::$m::$n), want: $x, src: $s })
    };
}

mod list;
pub use list::all;
