//! Reference models and the exploration engine. See /verif/DESIGN.md.

pub mod choice;
pub mod cursor;
pub mod engine;
pub mod gen;
pub mod judge;
pub mod meta;
pub mod model;
pub mod names;
pub mod nodes;
pub mod refde;
pub mod refser;
pub mod writer;
pub mod vocab;
pub mod xml;
