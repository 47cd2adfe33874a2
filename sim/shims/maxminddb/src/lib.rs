//! Stand-in for maxminddb. The database is text: one `<first octet> <country> <city>` line per network,
//! `-` for a name that is missing.
use std::collections::BTreeMap;
use std::fmt;
use std::net::IpAddr;
use std::path::Path;

#[derive(Debug)]
pub enum MaxMindDBError {
    AddressNotFoundError(String),
    InvalidDatabaseError(String),
    IoError(String),
    MapError(String),
    DecodingError(String),
    InvalidNetworkError(String),
}

impl fmt::Display for MaxMindDBError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for MaxMindDBError {}

impl From<std::io::Error> for MaxMindDBError {
    fn from(e: std::io::Error) -> Self {
        MaxMindDBError::IoError(e.to_string())
    }
}

pub struct Reader<S: AsRef<[u8]>> {
    _src: S,
    nets: Vec<(u8, String, String)>,
}

impl Reader<Vec<u8>> {
    pub fn open_readfile<P: AsRef<Path>>(p: P) -> Result<Reader<Vec<u8>>, MaxMindDBError> {
        let data = std::fs::read(p.as_ref())?;
        Self::from_source(data)
    }
}

impl<S: AsRef<[u8]>> Reader<S> {
    pub fn from_source(src: S) -> Result<Reader<S>, MaxMindDBError> {
        let text = String::from_utf8_lossy(src.as_ref()).to_string();
        let bad = || MaxMindDBError::InvalidDatabaseError("bad line".to_string());
        let mut nets = vec![];
        for l in text.lines() {
            let mut it = l.split(' ');
            nets.push((
                it.next().and_then(|v| v.parse().ok()).ok_or_else(bad)?,
                it.next().ok_or_else(bad)?.to_string(),
                it.next().ok_or_else(bad)?.to_string(),
            ));
        }
        Ok(Reader { _src: src, nets })
    }

    pub fn lookup<'a, T: From<(&'a str, &'a str)>>(&'a self, ip: IpAddr) -> Result<T, MaxMindDBError> {
        let o = match ip {
            IpAddr::V4(v) => v.octets()[0],
            IpAddr::V6(v) => v.octets()[0],
        };
        match self.nets.iter().find(|n| n.0 == o) {
            Some(n) => Ok(T::from((n.1.as_str(), n.2.as_str()))),
            None => Err(MaxMindDBError::AddressNotFoundError("Address not found in database".to_string())),
        }
    }
}

pub mod geoip2 {
    use super::BTreeMap;

    pub struct City<'a> {
        pub country: Option<model::Named<'a>>,
        pub city: Option<model::Named<'a>>,
    }

    impl<'a> From<(&'a str, &'a str)> for City<'a> {
        fn from(v: (&'a str, &'a str)) -> Self {
            let f = |s: &'a str| {
                (s != "-").then(|| model::Named {
                    names: Some(BTreeMap::from([("en", s)])),
                })
            };
            City { country: f(v.0), city: f(v.1) }
        }
    }

    pub mod model {
        use super::BTreeMap;

        pub struct Named<'a> {
            pub names: Option<BTreeMap<&'a str, &'a str>>,
        }
    }
}
