mod consts;
pub mod vrf;
