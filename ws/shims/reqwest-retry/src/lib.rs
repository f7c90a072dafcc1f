//! Pauses between tries, with the interface of the `reqwest-retry` crate.
use std::time::Duration;

pub mod policies {
    use super::Duration;
    #[derive(Clone, Copy, Debug)]
    pub struct ExponentialBackoff {
        pub(crate) first: Duration,
        pub(crate) longest: Duration,
        pub(crate) tries: u32,
    }
    pub struct ExponentialBackoffBuilder {
        first: Duration,
        longest: Duration,
    }
    impl ExponentialBackoff {
        pub fn builder() -> ExponentialBackoffBuilder {
            ExponentialBackoffBuilder { first: Duration::from_secs(1), longest: Duration::from_secs(30 * 60) }
        }
    }
    impl ExponentialBackoffBuilder {
        pub fn retry_bounds(mut self, first: Duration, longest: Duration) -> Self {
            (self.first, self.longest) = (first, longest);
            self
        }
        pub fn build_with_max_retries(self, tries: u32) -> ExponentialBackoff {
            ExponentialBackoff { first: self.first, longest: self.longest, tries }
        }
    }
}
pub trait RetryPolicy {
    fn pauses(&self) -> Vec<Duration>;
}
impl RetryPolicy for policies::ExponentialBackoff {
    fn pauses(&self) -> Vec<Duration> {
        (0..self.tries).map(|i| (self.first * 2u32.saturating_pow(i)).min(self.longest)).collect()
    }
}
pub struct RetryTransientMiddleware<T>(T);
impl<T: RetryPolicy> RetryTransientMiddleware<T> {
    pub fn new_with_policy(p: T) -> Self {
        Self(p)
    }
}
impl<T: RetryPolicy> reqwest_middleware::Middleware for RetryTransientMiddleware<T> {
    fn pauses(&self) -> Vec<Duration> {
        self.0.pauses()
    }
}
