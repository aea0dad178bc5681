//! A small stand-in for env_logger: it sets nothing up.
#[derive(Default)]
pub struct Builder;
#[derive(Clone, Copy)]
pub enum TimestampPrecision {
    Seconds,
    Millis,
}
#[derive(Clone, Copy)]
pub enum Target {
    Stdout,
    Stderr,
}
pub fn builder() -> Builder {
    Builder
}
pub fn init() {}
impl Builder {
    pub fn new() -> Self {
        Builder
    }
    pub fn from_default_env() -> Self {
        Builder
    }
    pub fn format_timestamp(&mut self, _: Option<TimestampPrecision>) -> &mut Self {
        self
    }
    pub fn target(&mut self, _: Target) -> &mut Self {
        self
    }
    pub fn init(&mut self) {}
}
