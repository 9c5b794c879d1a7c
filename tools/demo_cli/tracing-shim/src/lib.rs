//! What pywr-cli uses of tracing-subscriber, without effect: with the real one other features of shared dependencies are
//! chosen, and everything (Polars) is built once more.
use tracing::span::{Attributes, Id, Record};
use tracing::{Event, Metadata};

pub mod filter {
    #[derive(Debug)]
    pub struct ParseError;
    impl std::fmt::Display for ParseError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("ParseError")
        }
    }
    impl std::error::Error for ParseError {}
    pub struct Directive;
    impl std::str::FromStr for Directive {
        type Err = ParseError;
        fn from_str(_: &str) -> Result<Self, ParseError> {
            Ok(Directive)
        }
    }
}
pub mod fmt {
    pub struct Layer;
    pub fn layer() -> Layer {
        Layer
    }
}
pub mod prelude {
    #[allow(non_camel_case_types)]
    pub trait __tracing_subscriber_SubscriberExt: Sized {
        fn with<L>(self, _layer: L) -> Self {
            self
        }
    }
    impl __tracing_subscriber_SubscriberExt for super::Registry {}
}
pub struct EnvFilter;
impl EnvFilter {
    pub fn from_default_env() -> Self {
        EnvFilter
    }
    pub fn add_directive(self, _: filter::Directive) -> Self {
        self
    }
}
#[derive(Default)]
pub struct Registry;
impl tracing::Subscriber for Registry {
    fn enabled(&self, _: &Metadata<'_>) -> bool {
        false
    }
    fn new_span(&self, _: &Attributes<'_>) -> Id {
        Id::from_u64(1)
    }
    fn record(&self, _: &Id, _: &Record<'_>) {}
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, _: &Event<'_>) {}
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
}
