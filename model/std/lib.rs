//! A stand-in for `std` that the code under test is compiled against: everything is the real standard
//! library except the pieces a symbolic executor has to control - hash maps, console output, sockets,
//! threads, locks, channels and atomics.
#![no_std]
#![allow(unused, static_mut_refs, missing_docs)]
extern crate std as realstd;
pub use realstd::*;

#[macro_export] macro_rules! println { ($($t:tt)*) => {{ let _ = $crate::__fa!($($t)*); }} }
#[macro_export] macro_rules! print { ($($t:tt)*) => {{ let _ = $crate::__fa!($($t)*); }} }
#[macro_export] macro_rules! eprintln { ($($t:tt)*) => {{ let _ = $crate::__fa!($($t)*); }} }
#[macro_export] macro_rules! eprint { ($($t:tt)*) => {{ let _ = $crate::__fa!($($t)*); }} }
#[doc(hidden)] #[macro_export] macro_rules! __fa { () => { () }; ($($t:tt)*) => { $crate::format_args!($($t)*) } }
pub mod prelude {
    pub mod rust_2015 { pub use realstd::prelude::rust_2015::*; pub use crate::{println, print, eprintln, eprint}; }
    pub mod rust_2018 { pub use realstd::prelude::rust_2018::*; pub use crate::{println, print, eprintln, eprint}; }
    pub mod rust_2021 { pub use realstd::prelude::rust_2021::*; pub use crate::{println, print, eprintln, eprint}; }
    pub mod rust_2024 { pub use realstd::prelude::rust_2024::*; pub use crate::{println, print, eprintln, eprint}; }
    pub mod v1 { pub use realstd::prelude::v1::*; }
}
pub mod collections { pub use realstd::collections::*; pub use crate::hash_model::{HashMap, HashSet}; pub mod hash_map { pub use crate::hash_model::*; pub use realstd::collections::hash_map::{DefaultHasher, RandomState}; } pub mod hash_set { pub use crate::hash_model::HashSet; } }
#[path = "hash.rs"] mod hash_model;
#[path = "sync.rs"] pub mod sync;
#[path = "thread.rs"] pub mod thread;
#[path = "net.rs"] pub mod net;
