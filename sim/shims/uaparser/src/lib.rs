//! Stand-in for uaparser: a user agent is written `family/1.2 device:brand:model os/1.2.3.4`.
use std::borrow::Cow;
use std::fmt;
use std::io::Read;

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

pub type S<'a> = Cow<'a, str>;

pub struct Device<'a> {
    pub family: S<'a>,
    pub brand: Option<S<'a>>,
    pub model: Option<S<'a>>,
}
pub struct OS<'a> {
    pub family: S<'a>,
    pub major: Option<S<'a>>,
    pub minor: Option<S<'a>>,
    pub patch: Option<S<'a>>,
    pub patch_minor: Option<S<'a>>,
}
pub struct UserAgent<'a> {
    pub family: S<'a>,
    pub major: Option<S<'a>>,
    pub minor: Option<S<'a>>,
    pub patch: Option<S<'a>>,
}
pub struct Client<'a> {
    pub device: Device<'a>,
    pub os: OS<'a>,
    pub user_agent: UserAgent<'a>,
}

pub trait Parser {
    fn parse<'a>(&self, ua: &'a str) -> Client<'a>;
}

#[derive(Debug)]
pub struct UserAgentParser;

impl UserAgentParser {
    pub fn from_file<R: Read>(mut f: R) -> Result<UserAgentParser, Error> {
        let mut b = vec![];
        f.read_to_end(&mut b).map_err(|e| Error(e.to_string()))?;
        Ok(UserAgentParser)
    }

    pub fn from_bytes(_b: &[u8]) -> Result<UserAgentParser, Error> {
        Ok(UserAgentParser)
    }
}

fn cut<'a>(s: &'a str, c: char) -> (S<'a>, Vec<Option<S<'a>>>) {
    let (fam, rest) = s.split_once(c).unwrap_or((s, ""));
    let mut v: Vec<Option<S<'a>>> = rest
        .split(['.', ':'])
        .map(|p| (!p.is_empty()).then_some(Cow::Borrowed(p)))
        .collect();
    v.resize(4, None);
    (Cow::Borrowed(if fam.is_empty() { "Other" } else { fam }), v)
}

impl Parser for UserAgentParser {
    fn parse<'a>(&self, ua: &'a str) -> Client<'a> {
        let mut it = ua.split(' ');
        let (f, mut v) = cut(it.next().unwrap_or(""), '/');
        let (df, mut dv) = cut(it.next().unwrap_or(""), ':');
        let (of, mut ov) = cut(it.next().unwrap_or(""), '/');
        Client {
            user_agent: UserAgent { family: f, major: v[0].take(), minor: v[1].take(), patch: v[2].take() },
            device: Device { family: df, brand: dv[0].take(), model: dv[1].take() },
            os: OS {
                family: of,
                major: ov[0].take(),
                minor: ov[1].take(),
                patch: ov[2].take(),
                patch_minor: ov[3].take(),
            },
        }
    }
}
