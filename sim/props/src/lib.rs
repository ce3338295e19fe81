//! The simulated properties. This crate is compiled with basic-block callbacks, like the code under
//! test, because the generic code of hacspec is instantiated here.
#![allow(clippy::all)]
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod nums;
mod pm;
mod ops;
mod util;
pub fn all() -> Vec<simkit::Prop> {
    vec![c01::prop(), c02::prop(), c03::prop(), c04::prop(), c05::prop(), c06::prop(), c07::prop(), c08::prop(), c12::prop(), c13::prop(), c14::prop(), c09::prop(), c10::prop(), c11::prop()]
}
