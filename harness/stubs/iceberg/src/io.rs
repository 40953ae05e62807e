use crate::{Error, ErrorKind, Result};
use bytes::Bytes;
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex, OnceLock};

pub const S3_ENDPOINT: &str = "s3.endpoint";
pub const S3_ACCESS_KEY_ID: &str = "s3.access-key-id";
pub const S3_SECRET_ACCESS_KEY: &str = "s3.secret-access-key";
pub const S3_SESSION_TOKEN: &str = "s3.session-token";
pub const S3_REGION: &str = "s3.region";
pub const S3_ALLOW_ANONYMOUS: &str = "s3.allow-anonymous";
pub const S3_DISABLE_EC2_METADATA: &str = "s3.disable-ec2-metadata";
pub const S3_DISABLE_CONFIG_LOAD: &str = "s3.disable-config-load";

/// A step that the tests want to see before it happens: the operation and the file. They may delay it or make it fail.
pub type Hook = Arc<dyn Fn(String, String) -> Pin<Box<dyn Future<Output = bool> + Send>> + Send + Sync>;

fn hooks() -> &'static Mutex<Option<Hook>> {
    static HOOK: OnceLock<Mutex<Option<Hook>>> = OnceLock::new();
    HOOK.get_or_init(Default::default)
}

pub fn set_hook(hook: Option<Hook>) {
    *hooks().lock().unwrap() = hook;
}

async fn step(op: &str, path: &str) -> Result<()> {
    let hook = hooks().lock().unwrap().clone();
    if let Some(hook) = hook {
        if !hook(op.to_string(), path.to_string()).await {
            return Err(opendal::Error::new(opendal::ErrorKind::Unexpected, "injected failure").into());
        }
    }
    Ok(())
}

fn memory() -> &'static Mutex<BTreeMap<String, Bytes>> {
    static FILES: OnceLock<Mutex<BTreeMap<String, Bytes>>> = OnceLock::new();
    FILES.get_or_init(Default::default)
}

/// The files of memory locations, by full path
pub fn memory_files() -> BTreeMap<String, Bytes> {
    memory().lock().unwrap().clone()
}

#[derive(Clone, Debug, Default)]
pub struct FileIO {
    pub props: HashMap<String, String>,
}

pub struct FileIOBuilder(FileIO);

impl FileIO {
    pub fn from_path(path: impl AsRef<str>) -> Result<FileIOBuilder> {
        local(path.as_ref())?;
        Ok(FileIOBuilder(FileIO::default()))
    }

    pub fn new_input(&self, path: impl AsRef<str>) -> Result<InputFile> {
        Ok(InputFile(path.as_ref().to_string()))
    }

    pub fn new_output(&self, path: impl AsRef<str>) -> Result<OutputFile> {
        Ok(OutputFile(path.as_ref().to_string()))
    }
}

impl FileIOBuilder {
    pub fn with_props(mut self, props: impl IntoIterator<Item = (impl ToString, impl ToString)>) -> Self {
        self.0.props.extend(props.into_iter().map(|(k, v)| (k.to_string(), v.to_string())));
        self
    }

    pub fn build(self) -> Result<FileIO> {
        Ok(self.0)
    }
}

/// The local path of a location, or none if it is in memory
fn local(path: &str) -> Result<Option<String>> {
    match path.split_once("://") {
        Some(("memory", _)) => Ok(None),
        Some(("file", p)) => Ok(Some(p.to_string())),
        None if path.starts_with('/') => Ok(Some(path.to_string())),
        _ => Err(Error::new(ErrorKind::FeatureUnsupported, format!("Unsupported storage: {path}"))),
    }
}

fn io_error(kind: opendal::ErrorKind, path: &str) -> Error {
    opendal::Error::new(kind, path).into()
}

pub struct InputFile(String);

impl InputFile {
    pub async fn exists(&self) -> Result<bool> {
        step("exists", &self.0).await?;
        Ok(match local(&self.0)? {
            None => memory().lock().unwrap().contains_key(&self.0),
            Some(p) => std::path::Path::new(&p).exists(),
        })
    }

    pub async fn read(&self) -> Result<Bytes> {
        step("read", &self.0).await?;
        match local(&self.0)? {
            None => memory().lock().unwrap().get(&self.0).cloned(),
            Some(p) => std::fs::read(p).ok().map(Bytes::from),
        }
        .ok_or_else(|| io_error(opendal::ErrorKind::NotFound, &self.0))
    }
}

pub struct OutputFile(String);

impl OutputFile {
    pub fn location(&self) -> &str {
        &self.0
    }

    async fn put(&self, bytes: Bytes, exclusive: bool) -> Result<()> {
        match local(&self.0)? {
            None => {
                let mut files = memory().lock().unwrap();
                if exclusive && files.contains_key(&self.0) {
                    return Err(io_error(opendal::ErrorKind::AlreadyExists, &self.0));
                }
                files.insert(self.0.clone(), bytes);
            }
            Some(p) => {
                use std::io::Write;
                let fail = |_| io_error(opendal::ErrorKind::Unexpected, &self.0);
                if let Some(dir) = std::path::Path::new(&p).parent() {
                    std::fs::create_dir_all(dir).map_err(fail)?;
                }
                let mut options = std::fs::OpenOptions::new();
                let options = options.write(true);
                let options = if exclusive { options.create_new(true) } else { options.create(true).truncate(true) };
                let mut file = options.open(&p).map_err(|e| match e.kind() {
                    std::io::ErrorKind::AlreadyExists => io_error(opendal::ErrorKind::AlreadyExists, &self.0),
                    _ => fail(e),
                })?;
                file.write_all(&bytes).map_err(fail)?;
            }
        }
        Ok(())
    }

    pub async fn write(&self, bytes: Bytes) -> Result<()> {
        step("write", &self.0).await?;
        self.put(bytes, false).await
    }

    pub async fn write_exclusive(&self, bytes: Bytes) -> Result<()> {
        step("write_exclusive", &self.0).await?;
        self.put(bytes, true).await
    }
}
