pub mod alloc;
pub mod crypto;
#[cfg(feature = "full")]
pub mod db;
pub mod engine;
pub mod feat;
pub mod gen;
#[cfg(feature = "full")]
pub mod genmodel;
pub mod mock;
pub mod props;
pub mod script;
pub mod server;
#[cfg(feature = "full")]
pub mod sql;
#[cfg(feature = "tcp")]
pub mod tcp;
pub mod wire;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;
