//! Bounded exhaustive exploration of the real kuba code: engine (choice trees, breadth-first state
//! search, watchdog, evidence) and thin adapters over kuba's public API for two and three
//! dimensions.
pub mod alphabet;
pub mod engine;
pub mod rayref;
pub mod space;
