//! Stand-in: time never advances.
use std::time::Duration;
#[derive(Copy, Clone, Debug)]
pub struct ProcessTime(());
impl ProcessTime {
    pub fn now() -> Self { ProcessTime(()) }
    pub fn try_now() -> std::io::Result<Self> { Ok(ProcessTime(())) }
    pub fn elapsed(&self) -> Duration { Duration::from_secs(0) }
    pub fn duration_since(&self, _: ProcessTime) -> Duration { Duration::from_secs(0) }
    pub fn as_duration(&self) -> Duration { Duration::from_secs(0) }
}
