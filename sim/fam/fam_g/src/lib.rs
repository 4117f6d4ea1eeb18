use sim_core::hibit_tree::*;
use sim_core::hibit_tree::const_utils::*;
use sim_core::{cont::*, env::*, fams::*, node::*, val::*};
sim_core::famw!(F256_4, "256x4", 256, 4, w256::depth_4);
pub fn all() -> Vec<Box<dyn FamDyn>> { vec![Box::new(F256_4)] }
