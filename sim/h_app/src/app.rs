//! The whole server in one simulated process: start it, talk HTTP to it, read its data back after it died.
use std::collections::BTreeMap;
use std::net::SocketAddr;
use std::path::PathBuf;
use std::sync::Arc;
use std::sync::Mutex;
use std::time::Duration;

use axum::body::Body;
use axum::http::Request;
use axum_serve::Call;
use common::config::Config;
use common::config::Table;
use serde::Deserialize;
use serde::Serialize;
use serde_json::json;
use serde_json::Value as J;

pub const DATA: &str = "/srv/data";
pub const UI: &str = "/srv/ui";
pub const UA: &str = "/srv/ua.yaml";
pub const GEO: &str = "/srv/geo.txt";

/// what a deployment configures
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conf {
    pub levels: usize,
    pub l0_parts: usize,
    pub l1_size: usize,
    pub level_mult: usize,
    pub log_len: usize,
    pub array_size: usize,
    pub array_page: usize,
    pub page_limit: usize,
    pub l1_part: usize,
    pub part_mult: usize,
    pub rg_values: usize,
    pub chunk: usize,
    pub max_page: usize,
    pub cleaner_s: u64,
    pub session_s: u64,
    pub access_s: u64,
    pub refresh_s: u64,
}

impl Default for Conf {
    fn default() -> Self {
        Conf {
            levels: 7,
            l0_parts: 4,
            l1_size: 1 << 20,
            level_mult: 10,
            log_len: 1 << 20,
            array_size: 10000,
            array_page: 10000,
            page_limit: 1 << 20,
            l1_part: 2048,
            part_mult: 1,
            rg_values: 1000,
            chunk: 1024,
            max_page: 1 << 20,
            cleaner_s: 3600,
            session_s: 86400,
            access_s: 3600,
            refresh_s: 86400,
        }
    }
}

impl Conf {
    fn table(&self) -> Table {
        Table {
            levels: self.levels,
            l0_max_parts: self.l0_parts,
            l1_max_size_bytes: self.l1_size,
            level_size_multiplier: self.level_mult,
            max_log_length_bytes: self.log_len,
            merge_max_l1_part_size_bytes: self.l1_part,
            merge_part_size_multiplier: self.part_mult,
            merge_data_page_size_limit_bytes: self.page_limit,
            merge_row_group_values_limit: self.rg_values,
            merge_array_size: self.array_size,
            merge_chunk_size: self.chunk,
            merge_array_page_size: self.array_page,
            merge_max_page_size: self.max_page,
        }
    }

    pub fn config(&self) -> Config {
        let mut c = Config::default();
        c.data.path = PathBuf::from(DATA);
        c.data.ui_path = PathBuf::from(UI);
        c.data.ua_db_path = PathBuf::from(UA);
        c.data.geo_city_path = PathBuf::from(GEO);
        c.auth.access_token_duration = chrono::Duration::seconds(self.access_s as i64);
        c.auth.refresh_token_duration = chrono::Duration::seconds(self.refresh_s as i64);
        c.misc.session_cleaner_interval = chrono::Duration::seconds(self.cleaner_s as i64);
        c.misc.project_default_session_duration = chrono::Duration::seconds(self.session_s as i64);
        c.events_table = self.table();
        c.group_table = self.table();
        c
    }
}

/// the files a deployment ships with
pub fn install() -> simrt::fs::FsState {
    let mut fs = simrt::fs::FsState::default();
    fs.mkdirs("/srv".as_ref());
    fs.mkdirs(DATA.as_ref());
    fs.mkdirs(UI.as_ref());
    fs.put(UA.as_ref(), b"-".to_vec());
    fs.put(GEO.as_ref(), b"10 Wonderland Oz\n11 Wonderland -\n12 - Atlantis\n".to_vec());
    fs
}

/// the first password of the administrator is only found in the log of the server
static LOG: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);

struct Capture;

impl tracing::Subscriber for Capture {
    fn enabled(&self, m: &tracing::Metadata<'_>) -> bool {
        m.target() == "cmd::command::server"
    }
    fn new_span(&self, _s: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _s: &tracing::span::Id, _v: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _s: &tracing::span::Id, _f: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        struct V;
        impl tracing::field::Visit for V {
            fn record_debug(&mut self, _f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
                let s = format!("{v:?}");
                if let Some(p) = s.strip_prefix("password: ") {
                    *LOG.lock().unwrap() = Some(p.to_string());
                }
            }
        }
        e.record(&mut V)
    }
    fn enter(&self, _s: &tracing::span::Id) {}
    fn exit(&self, _s: &tracing::span::Id) {}
}

pub fn capture_log() {
    let _ = tracing::subscriber::set_global_default(Capture);
}

/// the password the server printed when it last started
pub fn printed_password() -> String {
    LOG.lock().unwrap().clone().unwrap_or_default()
}

pub struct Server {
    slot: Arc<Mutex<Option<Call>>>,
    failed: Arc<Mutex<Option<String>>>,
}

#[derive(Clone, Debug)]
pub struct Resp {
    pub status: u16,
    pub body: J,
    pub cookies: BTreeMap<String, String>,
}

impl Server {
    /// start the server as `store server` does and wait until it listens
    pub fn start(cfg: Config) -> Result<Server, String> {
        let slot = Arc::new(Mutex::new(None));
        let failed = Arc::new(Mutex::new(None));
        *LOG.lock().unwrap() = None;
        let (s2, f2) = (slot.clone(), failed.clone());
        let key = Arc::as_ptr(&slot) as usize;
        simrt::spawn("server", move || {
            axum_serve::listen(s2);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                tokio_sim::block_on(cmd::command::server::start(cfg))
            }));
            match r {
                Ok(Ok(())) => *f2.lock().unwrap() = Some("server returned".to_string()),
                Ok(Err(e)) => *f2.lock().unwrap() = Some(format!("{e:?}")),
                Err(e) => {
                    *f2.lock().unwrap() = Some("panicked".to_string());
                    simrt::wake(key);
                    std::panic::resume_unwind(e)
                }
            }
            simrt::wake(key);
        });
        loop {
            if slot.lock().unwrap().is_some() {
                break;
            }
            if let Some(e) = failed.lock().unwrap().clone() {
                return Err(e);
            }
            simrt::block(key, Some(Duration::from_secs(1)), "start");
        }
        Ok(Server { slot, failed })
    }

    pub fn failed(&self) -> Option<String> {
        self.failed.lock().unwrap().clone()
    }

    fn call(&self) -> Call {
        self.slot.lock().unwrap().clone().expect("not started")
    }

    pub fn send(&self, m: &str, path: &str, token: Option<&str>, cookies: &[(&str, &str)], body: Option<&J>) -> Resp {
        let body = body.map(|b| serde_json::to_vec(b).unwrap());
        self.send_raw(m, path, token, cookies, body)
    }

    pub fn send_raw(
        &self,
        m: &str,
        path: &str,
        token: Option<&str>,
        cookies: &[(&str, &str)],
        body: Option<Vec<u8>>,
    ) -> Resp {
        let mut b = Request::builder().method(m).uri(path);
        if let Some(t) = token {
            b = b.header("authorization", format!("Bearer {t}"));
        }
        if !cookies.is_empty() {
            let c: Vec<String> = cookies.iter().map(|(k, v)| format!("{k}={v}")).collect();
            b = b.header("cookie", c.join("; "));
        }
        let req = match body {
            Some(v) => b.header("content-type", "application/json").body(Body::from(v)),
            None => b.body(Body::empty()),
        }
        .unwrap();
        let call = self.call();
        let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
        let addr: SocketAddr = "10.1.2.3:4000".parse().unwrap();
        rt.block_on(async move {
            let r = call(addr, req).await;
            let status = r.status().as_u16();
            let cookies = r
                .headers()
                .get_all("set-cookie")
                .iter()
                .filter_map(|h| h.to_str().ok())
                .filter_map(|h| h.split(';').next())
                .filter_map(|h| h.split_once('='))
                .map(|(a, b)| (a.to_string(), b.to_string()))
                .collect();
            let bytes = http_body_util::BodyExt::collect(r.into_body()).await.unwrap().to_bytes();
            let body = serde_json::from_slice(&bytes)
                .unwrap_or_else(|_| J::from(String::from_utf8_lossy(&bytes).to_string()));
            Resp { status, body, cookies }
        })
    }

    pub fn post(&self, path: &str, token: Option<&str>, body: J) -> Resp {
        self.send("POST", path, token, &[], Some(&body))
    }

    pub fn put(&self, path: &str, token: Option<&str>, body: J) -> Resp {
        self.send("PUT", path, token, &[], Some(&body))
    }

    pub fn get(&self, path: &str, token: Option<&str>) -> Resp {
        self.send("GET", path, token, &[], None)
    }

    pub fn login(&self, email: &str, pwd: &str) -> Resp {
        self.post("/api/v1/auth/login", None, json!({"email": email, "password": pwd}))
    }
}

pub const ADMIN: &str = "admin@admin.com";

impl Resp {
    pub fn ok(&self) -> bool {
        (200..300).contains(&self.status)
    }
    pub fn s(&self, k: &str) -> String {
        self.body[k].as_str().unwrap_or_default().to_string()
    }
    pub fn u(&self, k: &str) -> u64 {
        self.body[k].as_u64().unwrap_or_default()
    }
}

pub struct Project {
    pub id: u64,
    pub token: String,
}

impl Server {
    pub fn admin(&self) -> Result<String, String> {
        let r = self.login(ADMIN, &printed_password());
        if r.ok() {
            Ok(r.s("accessToken"))
        } else {
            Err(format!("{} {}", r.status, r.body))
        }
    }
    pub fn project(&self, token: &str, name: &str, session_s: u64) -> Result<Project, String> {
        let r = self.post("/api/v1/projects", Some(token), json!({"name": name, "sessionDurationSeconds": session_s}));
        if r.ok() {
            Ok(Project { id: r.u("id"), token: r.s("sdkToken") })
        } else {
            Err(format!("{} {}", r.status, r.body))
        }
    }
}
