//! Log events of the library are schedule points: they sit between its steps on every path.
use tracing::span::{Attributes, Id, Record};
use tracing::field::{Field, Visit};
use tracing::{Event, Metadata, Subscriber};

struct Points;

impl Subscriber for Points {
    fn enabled(&self, m: &Metadata<'_>) -> bool {
        m.target().starts_with("stream_download") && !m.is_span()
    }
    fn new_span(&self, _: &Attributes<'_>) -> Id {
        Id::from_u64(1)
    }
    fn record(&self, _: &Id, _: &Record<'_>) {}
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, e: &Event<'_>) {
        if *e.metadata().level() <= tracing::Level::WARN {
            let mut g = crate::world::global();
            if g.keep_logs && g.logs.len() < 1000 {
                let mut t = Text(String::new());
                e.record(&mut t);
                g.logs.push(t.0);
            }
        }
        dst::point();
    }
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
}

struct Text(String);

impl Visit for Text {
    fn record_debug(&mut self, _: &Field, v: &dyn std::fmt::Debug) {
        use std::fmt::Write;
        let _ = write!(self.0, "{v:?} ");
    }
    fn record_str(&mut self, _: &Field, v: &str) {
        self.0.push_str(v);
    }
}

pub fn install() {
    let _ = tracing::subscriber::set_global_default(Points);
}
