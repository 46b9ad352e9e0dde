pub mod alloc;
pub mod coop;
pub mod driver;
pub mod entropy;
pub mod panics;
pub mod rng;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;
