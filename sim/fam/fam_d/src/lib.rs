use sim_core::hibit_tree::*;
use sim_core::hibit_tree::const_utils::*;
use sim_core::{cont::*, env::*, fams::*, node::*, val::*};
sim_core::fam64!(F64_8, "64x8", 8, w64::depth_8);
pub fn all() -> Vec<Box<dyn FamDyn>> { vec![Box::new(F64_8)] }
