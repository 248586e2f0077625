#[cfg(not(feature = "meter"))]
pub mod c01;
#[cfg(not(feature = "meter"))]
pub mod c02;
#[cfg(not(feature = "meter"))]
pub mod c03;
#[cfg(not(feature = "meter"))]
pub mod c04;
#[cfg(not(feature = "meter"))]
pub mod c05;
#[cfg(not(feature = "meter"))]
pub mod c06;
#[cfg(not(feature = "meter"))]
pub mod c07;
#[cfg(not(feature = "meter"))]
pub mod c08;
#[cfg(not(feature = "meter"))]
pub mod c11;
#[cfg(feature = "meter")]
pub mod c12;
#[cfg(not(feature = "meter"))]
pub mod c13;
#[cfg(not(feature = "meter"))]
pub mod c14;
