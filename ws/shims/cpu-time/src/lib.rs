#[derive(Clone, Copy, Debug)]
pub struct ProcessTime(std::time::Instant);
impl ProcessTime {
    pub fn now() -> Self {
        Self(std::time::Instant::now())
    }
    pub fn elapsed(&self) -> std::time::Duration {
        self.0.elapsed()
    }
    pub fn try_now() -> std::io::Result<Self> {
        Ok(Self::now())
    }
    pub fn try_elapsed(&self) -> std::io::Result<std::time::Duration> {
        Ok(self.elapsed())
    }
}
