//! Generators, reference models and the search engine behind the checks in /verif.
pub mod engine;
pub mod example;
pub mod gen;
pub mod keys;
pub mod programs;
pub mod signs;
pub mod rfc;
pub mod interp;
pub mod share;
