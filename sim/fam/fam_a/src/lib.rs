use sim_core::hibit_tree::*;
use sim_core::hibit_tree::const_utils::*;
use sim_core::{cont::*, env::*, fams::*, node::*, val::*};
sim_core::fam64!(F64_1, "64x1", 1, w64::depth_1);
sim_core::fam64!(F64_2, "64x2", 2, w64::depth_2, more);
pub fn all() -> Vec<Box<dyn FamDyn>> { vec![Box::new(F64_1), Box::new(F64_2)] }
