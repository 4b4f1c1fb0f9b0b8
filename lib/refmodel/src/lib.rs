//! Reference model of the Recast build stages, written against the published C++ Recast algorithm
//! (not against the Rust code under test) and validated against dumps produced by the C++ library.
pub mod chf;
pub mod contour;
pub mod detail;
pub mod field;
pub mod poly;
pub mod regions;

pub const DX: [i32; 4] = [-1, 0, 1, 0];
pub const DZ: [i32; 4] = [0, 1, 0, -1];
pub const BORDER: u16 = 0x8000;
