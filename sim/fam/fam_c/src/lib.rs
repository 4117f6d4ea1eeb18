use sim_core::hibit_tree::*;
use sim_core::hibit_tree::const_utils::*;
use sim_core::{cont::*, env::*, fams::*, node::*, val::*};
sim_core::fam64!(F64_4, "64x4", 4, w64::depth_4);
sim_core::famw!(F256_1, "256x1", 256, 1, w256::depth_1);
pub fn all() -> Vec<Box<dyn FamDyn>> { vec![Box::new(F64_4), Box::new(F256_1)] }
