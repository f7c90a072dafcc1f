//! Nothing of this crate is used by the code under test.
