pub mod rng;
pub mod runner;
pub mod textgen;
pub mod cli;
pub mod xtypes;
pub mod stream;
pub mod hist;
pub mod simos;
pub mod e2e;
pub mod e2erun;
pub mod wsdl;
pub mod calls;
pub mod apps;
pub mod parts;
