//! Stand-in: metrics are not exported.
#[derive(Default)]
pub struct PrometheusBuilder;
impl PrometheusBuilder {
    pub fn new() -> Self {
        PrometheusBuilder
    }

    pub fn idle_timeout(self, _m: metrics_util::MetricKindMask, _t: Option<std::time::Duration>) -> Self {
        self
    }

    pub fn with_http_listener(self, _a: std::net::SocketAddr) -> Self {
        self
    }

    pub fn install(self) -> Result<(), String> {
        Ok(())
    }
}
