//! The properties, each as a list of spaces to explore.

pub use crate::engine::{Res, Sink, Space};
pub use crate::ensure;
pub use crate::shape::*;
pub use crate::tree::*;
pub use crate::worlds::*;
pub use quadtree::*;

pub mod catalog;
pub mod concur;
pub mod dist;
pub mod errors;
pub mod extreme;
pub mod invariance;
pub mod layout;
pub mod numbers;
pub mod ranks;
pub mod search;
pub mod twins;
pub mod vertices;
pub mod zeros;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub fn spaces(prop: &str, tier: Tier) -> Option<Vec<Space>> {
    Some(match prop {
        "C01" => layout::c01(tier),
        "C02" => layout::c02(tier),
        "C03" => layout::c03(tier),
        "C04" => layout::c04(tier),
        "C05" => layout::c05(tier),
        "C06" => search::c06(tier),
        "C07" => search::c07(tier),
        "C08" => search::c08(tier),
        "C09" => search::c09(tier),
        "C10" => search::c10(tier),
        "C11" => search::c11(tier),
        "C12" => dist::c12(tier),
        "C13" => dist::c13(tier),
        "C14" => dist::c14(tier),
        "C15" => errors::c15(tier),
        "C16" => invariance::c16(tier),
        "C17" => concur::c17(tier),
        "C18" => numbers::c18(tier),
        "C20" => extreme::c20(tier),
        "C19" => dist::c19(tier),
        _ => return None,
    })
}
