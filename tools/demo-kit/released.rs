//! The demonstrations send instructions as they are.
use crate::world::Ix;
pub struct Release;
impl Release {
    pub fn before(&self, _: &str) -> bool {
        false
    }
    pub fn form(&self, ix: &Ix) -> Option<Ix> {
        Some(ix.clone())
    }
    pub fn check_event(&self, _: &[u8]) {}
}
