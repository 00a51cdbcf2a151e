pub mod cells;
pub mod cli;
pub mod debug;
pub mod drive;
pub mod emit;
pub mod host;
pub mod names;
pub mod world;
