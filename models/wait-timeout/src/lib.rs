//! Model of wait-timeout 0.2: the harness decides when a process ends
use std::{
    io,
    os::unix::process::ExitStatusExt,
    process::{Child, ExitStatus},
    time::Duration,
};
pub trait ChildExt {
    fn wait_timeout_ms(&mut self, ms: u32) -> io::Result<Option<ExitStatus>> {
        self.wait_timeout(Duration::from_millis(ms as u64))
    }
    fn wait_timeout(&mut self, dur: Duration) -> io::Result<Option<ExitStatus>>;
}
impl ChildExt for Child {
    fn wait_timeout(&mut self, dur: Duration) -> io::Result<Option<ExitStatus>> {
        drop(self.stdin.take());
        symrt::os::wait_process(self.id(), dur).map(|s| s.map(ExitStatus::from_raw))
    }
}
