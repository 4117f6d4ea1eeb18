use sim_core::hibit_tree::*;
use sim_core::hibit_tree::const_utils::*;
use sim_core::{cont::*, env::*, fams::*, node::*, val::*};
sim_core::famw!(F256_2, "256x2", 256, 2, w256::depth_2);
sim_core::famw!(F256_3, "256x3", 256, 3, w256::depth_3);
pub fn all() -> Vec<Box<dyn FamDyn>> { vec![Box::new(F256_2), Box::new(F256_3)] }
