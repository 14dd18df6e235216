pub mod bus;
pub mod decode;
pub mod drive;
pub mod engine;
pub mod exec;
pub mod text;
pub mod times;
