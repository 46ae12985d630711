//! A small property-based testing engine plus the shared vocabulary
//! (generators, reference model, key families) of the checks.

pub mod alloc;
#[cfg(feature = "lib")]
pub mod calls;
pub mod case;
#[cfg(feature = "lib")]
pub mod core;
#[cfg(feature = "lib")]
pub mod count;
#[cfg(feature = "lib")]
pub mod dict;
#[cfg(feature = "lib")]
pub mod folds;
#[cfg(feature = "lib")]
pub mod groups;
#[cfg(feature = "lib")]
pub mod hist;
#[cfg(feature = "lib")]
pub mod iterx;
#[cfg(feature = "lib")]
pub mod kinds;
#[cfg(feature = "lib")]
pub mod model;
pub mod rng;
pub mod runner;
#[cfg(feature = "lib")]
pub mod seg;
#[cfg(feature = "lib")]
pub mod tok;
#[cfg(feature = "lib")]
pub mod walk;

pub use case::*;
#[cfg(feature = "lib")]
pub use hist::{gen_hist, run_hist, Class, HistGen, Sink};
#[cfg(feature = "lib")]
pub use kinds::{TKey, TVal};
#[cfg(feature = "lib")]
pub use model::Model;
pub use rng::Rng;
pub use runner::{Cx, Prop, Stage, Tier};

pub type R = Result<(), String>;

#[cfg(feature = "lib")]
pub type Tree<K, V, A = ()> = sweep_bptree::BPlusTree<sweep_bptree::NodeStoreVec<K, V, A>>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($fmt:tt)*) => {
        if !($c) {
            return Err(format!($($fmt)*));
        }
    };
}
