//! Types under test. `FromXml`/`ToXml` are the library's derives, `Model` is ours.

pub mod hand;
pub mod leaf;
pub mod misc;
pub mod ns;
pub mod pairs;
pub mod scope;
#[cfg(feature = "wide")]
pub mod triples;
