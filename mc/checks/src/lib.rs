pub use vstd::mc::{opts, Check, Opts};
pub use vstd::rt;
pub mod conf;
pub mod corpus;
pub mod decode_inputs;
pub mod servers;
pub mod upstream;
pub mod wire;
pub mod zones;
