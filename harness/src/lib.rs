//! Bounded exhaustive exploration of telda against reference models.
pub mod cpu;
pub mod objfmt;
pub mod proc;
pub mod refasm;
pub mod refcpu;
pub mod refvm;
pub mod report;
pub mod linkmodel;
