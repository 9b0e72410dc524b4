#![allow(dead_code, unused_imports, macro_expanded_macro_exports_accessed_by_absolute_paths, clippy::all)]
#[macro_use]
pub mod api;
#[cfg(feature = "cli")]
include!(concat!(env!("OUT_DIR"), "/cli.rs"));
#[cfg(feature = "p01")]
pub mod p01;
#[cfg(feature = "p02")]
pub mod p02;
#[cfg(feature = "p03")]
pub mod p03;
#[cfg(feature = "p04")]
pub mod p04;
#[cfg(feature = "p05")]
pub mod p05;
#[cfg(feature = "p06")]
pub mod p06;
#[cfg(feature = "p07")]
pub mod p07;
#[cfg(feature = "p08")]
pub mod p08;
#[cfg(feature = "p09")]
pub mod p09;
#[cfg(feature = "p10")]
pub mod p10;
#[cfg(feature = "p11")]
pub mod p11;
#[cfg(feature = "p12")]
pub mod p12;
#[cfg(feature = "p13")]
pub mod p13;
#[cfg(feature = "p14")]
pub mod p14;
#[cfg(feature = "p15")]
pub mod p15;
#[cfg(feature = "p16")]
pub mod p16;
#[cfg(feature = "p17")]
pub mod p17;
#[cfg(feature = "p18")]
pub mod p18;
#[cfg(feature = "p19")]
pub mod p19;
#[cfg(feature = "p20")]
pub mod p20;
#[cfg(feature = "p21")]
pub mod p21;
#[cfg(feature = "p22")]
pub mod p22;
#[cfg(feature = "p23")]
pub mod p23;
#[cfg(feature = "p24")]
pub mod p24;
#[cfg(feature = "p25")]
pub mod p25;
#[cfg(feature = "p26")]
pub mod p26;
#[cfg(feature = "p27")]
pub mod p27;
#[cfg(feature = "p28")]
pub mod p28;

pub fn entries() -> Vec<(&'static str, extern "C" fn())> {
    #[allow(unused_mut)]
    let mut v = vec![];
    #[cfg(feature = "p01")]
    v.extend(p01::entries());
    #[cfg(feature = "p02")]
    v.extend(p02::entries());
    #[cfg(feature = "p03")]
    v.extend(p03::entries());
    #[cfg(feature = "p04")]
    v.extend(p04::entries());
    #[cfg(feature = "p05")]
    v.extend(p05::entries());
    #[cfg(feature = "p06")]
    v.extend(p06::entries());
    #[cfg(feature = "p07")]
    v.extend(p07::entries());
    #[cfg(feature = "p08")]
    v.extend(p08::entries());
    #[cfg(feature = "p09")]
    v.extend(p09::entries());
    #[cfg(feature = "p10")]
    v.extend(p10::entries());
    #[cfg(feature = "p11")]
    v.extend(p11::entries());
    #[cfg(feature = "p12")]
    v.extend(p12::entries());
    #[cfg(feature = "p13")]
    v.extend(p13::entries());
    #[cfg(feature = "p14")]
    v.extend(p14::entries());
    #[cfg(feature = "p15")]
    v.extend(p15::entries());
    #[cfg(feature = "p16")]
    v.extend(p16::entries());
    #[cfg(feature = "p17")]
    v.extend(p17::entries());
    #[cfg(feature = "p18")]
    v.extend(p18::entries());
    #[cfg(feature = "p19")]
    v.extend(p19::entries());
    #[cfg(feature = "p20")]
    v.extend(p20::entries());
    #[cfg(feature = "p21")]
    v.extend(p21::entries());
    #[cfg(feature = "p22")]
    v.extend(p22::entries());
    #[cfg(feature = "p23")]
    v.extend(p23::entries());
    #[cfg(feature = "p24")]
    v.extend(p24::entries());
    #[cfg(feature = "p25")]
    v.extend(p25::entries());
    #[cfg(feature = "p26")]
    v.extend(p26::entries());
    #[cfg(feature = "p27")]
    v.extend(p27::entries());
    #[cfg(feature = "p28")]
    v.extend(p28::entries());
    v
}
