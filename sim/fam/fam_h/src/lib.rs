use sim_core::hibit_tree::*;
use sim_core::hibit_tree::const_utils::*;
use sim_core::{cont::*, env::*, fams::*, node::*, val::*};
sim_core::lite64!(L64_5, "64x5", 5, w64::depth_5);
sim_core::lite64!(L64_6, "64x6", 6, w64::depth_6);
sim_core::lite64!(L64_7, "64x7", 7, w64::depth_7);
sim_core::lite!(L128_3, "128x3", 128, 3, w128::depth_3);
sim_core::lite!(L128_4, "128x4", 128, 4, w128::depth_4);
sim_core::lite!(L128_5, "128x5", 128, 5, w128::depth_5);
sim_core::lite!(L128_6, "128x6", 128, 6, w128::depth_6);
sim_core::lite!(L128_7, "128x7", 128, 7, w128::depth_7);
sim_core::lite!(L128_8, "128x8", 128, 8, w128::depth_8);
sim_core::lite!(L256_5, "256x5", 256, 5, w256::depth_5);
sim_core::lite!(L256_6, "256x6", 256, 6, w256::depth_6);
sim_core::lite!(L256_7, "256x7", 256, 7, w256::depth_7);
sim_core::lite!(L256_8, "256x8", 256, 8, w256::depth_8);
pub struct L64_9;
sim_core::fam_dyn!(L64_9, "64x9", 64, 9, views no, [0 => DenseTree<Val, 9>], val [0], sync []);
pub fn all() -> Vec<Box<dyn FamDyn>> { vec![Box::new(L64_5), Box::new(L64_6), Box::new(L64_7), Box::new(L128_3), Box::new(L128_4), Box::new(L128_5), Box::new(L128_6), Box::new(L128_7), Box::new(L128_8), Box::new(L256_5), Box::new(L256_6), Box::new(L256_7), Box::new(L256_8), Box::new(L64_9)] }
