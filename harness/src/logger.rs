//! A tracing subscriber that formats everything and keeps nothing: whatever a deployment logs has to work, too.
use std::cell::Cell;
use std::fmt::{Debug, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use tracing_core::{field::Visit, span, Event, Field, Interest, LevelFilter, Metadata, Subscriber};

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
}
static IDS: AtomicU64 = AtomicU64::new(1);
pub static BYTES: AtomicU64 = AtomicU64::new(0);

/// Logs what happens on this thread
pub fn on(on: bool) {
    let _ = ON.try_with(|o| o.set(on));
}

struct Sink(u64);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        // nobody reads that much
        if self.0 > 20_000 {
            return Err(std::fmt::Error);
        }
        Ok(())
    }
}
impl Visit for Sink {
    fn record_debug(&mut self, f: &Field, v: &dyn Debug) {
        let _ = write!(self, "{}={:?} ", f.name(), v);
    }
}

struct Logger;
impl Subscriber for Logger {
    fn register_callsite(&self, _: &'static Metadata<'static>) -> Interest {
        Interest::sometimes()
    }
    fn enabled(&self, _: &Metadata<'_>) -> bool {
        ON.try_with(|o| o.get()).unwrap_or(false)
    }
    fn max_level_hint(&self) -> Option<LevelFilter> {
        Some(LevelFilter::TRACE)
    }
    fn new_span(&self, s: &span::Attributes<'_>) -> span::Id {
        let mut k = Sink(0);
        s.record(&mut k);
        BYTES.fetch_add(k.0, Ordering::Relaxed);
        span::Id::from_u64(IDS.fetch_add(1, Ordering::Relaxed))
    }
    fn record(&self, _: &span::Id, v: &span::Record<'_>) {
        v.record(&mut Sink(0));
    }
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, e: &Event<'_>) {
        let mut k = Sink(0);
        e.record(&mut k);
        BYTES.fetch_add(k.0, Ordering::Relaxed);
    }
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
}

pub fn install() {
    let _ = tracing_core::dispatcher::set_global_default(tracing_core::Dispatch::new(Logger));
}
