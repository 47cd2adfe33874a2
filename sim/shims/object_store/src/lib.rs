//! Stand-in for object_store: a bucket that keeps what has been uploaded completely; a put or a finish can fail
//! (application fault kinds 2 and 3).
use std::collections::BTreeMap;
use std::fmt;
use std::sync::Arc;

#[derive(Debug)]
pub enum Error {
    Generic { store: &'static str, source: String },
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}
pub type Result<T, E = Error> = core::result::Result<T, E>;

fn fault(kind: u32) -> Result<()> {
    simrt::point("object store");
    if simrt::app_fault(kind) {
        return Err(Error::Generic { store: "sim", source: "injected".into() });
    }
    Ok(())
}

pub mod path {
    pub struct Path(pub(crate) String);
    impl<T: AsRef<std::ffi::OsStr>> From<T> for Path {
        fn from(p: T) -> Self {
            Path(p.as_ref().to_string_lossy().to_string())
        }
    }
}


/// objects by bucket and path
pub fn objects() -> Arc<Objects> {
    simrt::durable("object_store", Objects::default)
}

#[derive(Default)]
pub struct Objects(std::sync::Mutex<BTreeMap<(String, String), Vec<u8>>>);
impl Objects {
    pub fn put(&self, k: (String, String), v: Vec<u8>) {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).insert(k, v);
    }

    pub fn get(&self, bucket: &str, path: &str) -> Option<Vec<u8>> {
        let g = self.0.lock().unwrap_or_else(|e| e.into_inner());
        g.get(&(bucket.to_string(), path.to_string())).cloned()
    }
}

pub struct Upload(String, String);

pub trait ObjectStore {
    fn bucket(&self) -> &str;
    #[allow(async_fn_in_trait)]
    async fn put_multipart(&self, p: &path::Path) -> Result<Upload> {
        fault(2)?;
        Ok(Upload(self.bucket().to_string(), p.0.clone()))
    }
}

pub struct WriteMultipart {
    to: Upload,
    buf: Vec<u8>,
}

impl WriteMultipart {
    pub fn new(to: Upload) -> Self {
        WriteMultipart { to, buf: vec![] }
    }

    pub fn write(&mut self, b: &[u8]) {
        self.buf.extend_from_slice(b);
    }

    pub async fn finish(self) -> Result<()> {
        // it takes a while
        simrt::sleep(std::time::Duration::from_millis(300));
        fault(3)?;
        objects().put((self.to.0, self.to.1), self.buf);
        fault(6)
    }
}

pub mod gcp {
    #[derive(Default)]
    pub struct GoogleCloudStorageBuilder {
        bucket: String,
    }
    impl GoogleCloudStorageBuilder {
        pub fn new() -> Self {
            Default::default()
        }

        pub fn with_bucket_name(mut self, b: impl Into<String>) -> Self {
            self.bucket = b.into();
            self
        }

        pub fn with_service_account_key(self, _k: impl Into<String>) -> Self {
            self
        }

        pub fn build(self) -> super::Result<GoogleCloudStorage> {
            Ok(GoogleCloudStorage { bucket: self.bucket })
        }
    }
    pub struct GoogleCloudStorage {
        bucket: String,
    }
    impl super::ObjectStore for GoogleCloudStorage {
        fn bucket(&self) -> &str {
            &self.bucket
        }
    }
}
