use sim_core::hibit_tree::*;
use sim_core::hibit_tree::const_utils::*;
use sim_core::{cont::*, env::*, fams::*, node::*, val::*};
sim_core::fam64!(F64_3, "64x3", 3, w64::depth_3, more);
pub fn all() -> Vec<Box<dyn FamDyn>> { vec![Box::new(F64_3)] }
