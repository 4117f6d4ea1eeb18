use sim_core::hibit_tree::*;
use sim_core::hibit_tree::const_utils::*;
use sim_core::{cont::*, env::*, fams::*, node::*, val::*};
sim_core::famw!(F128_1, "128x1", 128, 1, w128::depth_1);
sim_core::famw!(F128_2, "128x2", 128, 2, w128::depth_2);
pub fn all() -> Vec<Box<dyn FamDyn>> { vec![Box::new(F128_1), Box::new(F128_2)] }
