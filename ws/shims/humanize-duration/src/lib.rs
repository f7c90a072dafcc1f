//! The interface of the `humanize-duration` crate; the text itself is of no interest.
use std::time::Duration;
pub enum Truncate {
    Nano,
    Micro,
    Millis,
    Second,
    Minute,
    Hour,
    Day,
    Month,
    Year,
}
pub mod prelude {
    use super::*;
    pub trait DurationExt {
        fn human(&self, t: Truncate) -> String;
    }
    impl DurationExt for Duration {
        fn human(&self, _: Truncate) -> String {
            format!("{self:?}")
        }
    }
}
