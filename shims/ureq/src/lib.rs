//! Solver-build stand-in for `ureq`: requests go to `SERVER`, a function the
//! harness installs.
use std::fmt;
use std::io::{self, Cursor, Read};
use std::sync::Mutex;

#[derive(Debug, Clone, Default)]
pub struct ReqData {
    pub method: String,
    pub url: String,
    pub headers: Vec<(String, String)>,
    pub query: Vec<(String, String)>,
    pub body: Vec<u8>,
    /// false if the body's length did not match a Content-Length header
    pub body_complete: bool,
}
impl ReqData {
    pub fn header(&self, k: &str) -> Option<&str> {
        self.headers.iter().find(|(h, _)| h.eq_ignore_ascii_case(k)).map(|(_, v)| v.as_str())
    }
    pub fn q(&self, k: &str) -> Option<&str> {
        self.query.iter().find(|(h, _)| h == k).map(|(_, v)| v.as_str())
    }
}
pub struct RespData { pub status: u16, pub body: Vec<u8> }
pub type ServerFn = fn(&ReqData) -> std::result::Result<RespData, Error>;
pub static SERVER: Mutex<Option<ServerFn>> = Mutex::new(None);

#[derive(Debug)]
pub enum Error {
    StatusCode(u16),
    Io(io::Error),
    Json(serde_json::Error),
    ConnectionFailed,
    HostNotFound,
    Timeout,
    Other(String),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "http error") }
}
impl std::error::Error for Error {}
impl From<io::Error> for Error { fn from(e: io::Error) -> Self { Error::Io(e) } }
impl From<serde_json::Error> for Error { fn from(e: serde_json::Error) -> Self { Error::Json(e) } }

pub mod config {
    #[derive(Clone, Default, Debug)]
    pub struct Config;
    #[derive(Default)]
    pub struct ConfigBuilder;
    impl ConfigBuilder {
        pub fn max_redirects(self, _n: u32) -> Self { self }
        pub fn http_status_as_error(self, _b: bool) -> Self { self }
        pub fn https_only(self, _b: bool) -> Self { self }
        pub fn timeout_global(self, _d: Option<std::time::Duration>) -> Self { self }
        pub fn timeout_connect(self, _d: Option<std::time::Duration>) -> Self { self }
        pub fn user_agent(self, _s: &str) -> Self { self }
        pub fn build(self) -> Config { Config }
    }
}
pub struct Agent;
impl Agent {
    pub fn new_with_defaults() -> Self { Agent }
    pub fn new_with_config(_c: config::Config) -> Self { Agent }
    pub fn config_builder() -> config::ConfigBuilder { config::ConfigBuilder }
    pub fn get(&self, u: impl AsRef<str>) -> RequestBuilder { RequestBuilder::new("GET", u.as_ref()) }
    pub fn post(&self, u: impl AsRef<str>) -> RequestBuilder { RequestBuilder::new("POST", u.as_ref()) }
    pub fn put(&self, u: impl AsRef<str>) -> RequestBuilder { RequestBuilder::new("PUT", u.as_ref()) }
    pub fn delete(&self, u: impl AsRef<str>) -> RequestBuilder { RequestBuilder::new("DELETE", u.as_ref()) }
    pub fn head(&self, u: impl AsRef<str>) -> RequestBuilder { RequestBuilder::new("HEAD", u.as_ref()) }
}
impl From<config::Config> for Agent { fn from(_: config::Config) -> Self { Agent } }
pub fn agent() -> Agent { Agent }
pub fn get(u: impl AsRef<str>) -> RequestBuilder { Agent.get(u) }
pub fn post(u: impl AsRef<str>) -> RequestBuilder { Agent.post(u) }
pub fn put(u: impl AsRef<str>) -> RequestBuilder { Agent.put(u) }
pub fn delete(u: impl AsRef<str>) -> RequestBuilder { Agent.delete(u) }
pub fn head(u: impl AsRef<str>) -> RequestBuilder { Agent.head(u) }

pub struct RequestBuilder { d: ReqData }
impl RequestBuilder {
    fn new(m: &str, u: &str) -> Self {
        Self { d: ReqData { method: m.into(), url: u.into(), body_complete: true, ..Default::default() } }
    }
    pub fn header(mut self, k: impl AsRef<str>, v: impl AsRef<str>) -> Self {
        self.d.headers.push((k.as_ref().into(), v.as_ref().into()));
        self
    }
    pub fn query(mut self, k: impl AsRef<str>, v: impl AsRef<str>) -> Self {
        self.d.query.push((k.as_ref().into(), v.as_ref().into()));
        self
    }
    pub fn content_type(self, v: impl AsRef<str>) -> Self { self.header("Content-Type", v) }
    fn go(self) -> Result<Response, Error> {
        let f = SERVER.lock().unwrap().expect("no server installed");
        let r = f(&self.d)?;
        if r.status >= 400 { return Err(Error::StatusCode(r.status)); }
        Ok(Response { status: r.status, body: Body(r.body) })
    }
    pub fn call(self) -> Result<Response, Error> { self.go() }
    pub fn send(mut self, b: impl AsSendBody) -> Result<Response, Error> {
        let want: Option<u64> = self.d.header("Content-Length").and_then(|s| s.parse().ok());
        let mut b = b.as_body();
        let mut v = Vec::new();
        match want {
            Some(n) => {
                (&mut b).take(n).read_to_end(&mut v)?;
                self.d.body_complete = v.len() as u64 == n;
            }
            None => { b.read_to_end(&mut v)?; }
        }
        self.d.body = v;
        if !self.d.body_complete {
            return Err(Error::Other("body ended early".into()));
        }
        self.go()
    }
    pub fn send_empty(self) -> Result<Response, Error> { self.go() }
    pub fn send_json(mut self, j: impl serde::Serialize) -> Result<Response, Error> {
        self.d.body = serde_json::to_vec(&j)?;
        self.go()
    }
}
pub struct SendBody<'a>(Box<dyn Read + 'a>);
impl<'a> SendBody<'a> {
    pub fn from_reader(r: &'a mut dyn Read) -> SendBody<'a> { SendBody(Box::new(r)) }
    pub fn from_owned_reader(r: impl Read + Send + Sync + 'static) -> SendBody<'static> { SendBody(Box::new(r)) }
    pub fn none() -> SendBody<'static> { SendBody(Box::new(io::empty())) }
}
impl Read for SendBody<'_> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.0.read(b) } }
pub trait AsSendBody { type B: Read; fn as_body(self) -> Self::B; }
impl<'a> AsSendBody for SendBody<'a> { type B = Self; fn as_body(self) -> Self { self } }
impl<'a> AsSendBody for &'a [u8] { type B = &'a [u8]; fn as_body(self) -> Self { self } }
impl<'a> AsSendBody for &'a Vec<u8> { type B = &'a [u8]; fn as_body(self) -> &'a [u8] { self } }
impl<'a> AsSendBody for &'a str { type B = &'a [u8]; fn as_body(self) -> &'a [u8] { self.as_bytes() } }
impl AsSendBody for Vec<u8> { type B = Cursor<Vec<u8>>; fn as_body(self) -> Cursor<Vec<u8>> { Cursor::new(self) } }

#[derive(Debug)]
pub struct Response { status: u16, body: Body }
#[derive(Debug)]
pub struct Body(Vec<u8>);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct StatusCode(u16);
impl StatusCode {
    pub fn as_u16(&self) -> u16 { self.0 }
    pub fn is_success(&self) -> bool { (200..300).contains(&self.0) }
}
impl Response {
    pub fn status(&self) -> StatusCode { StatusCode(self.status) }
    pub fn body(&self) -> &Body { &self.body }
    pub fn body_mut(&mut self) -> &mut Body { &mut self.body }
    pub fn into_body(self) -> Body { self.body }
}
impl Body {
    pub fn read_json<T: serde::de::DeserializeOwned>(&mut self) -> Result<T, Error> {
        Ok(serde_json::from_slice(&std::mem::take(&mut self.0))?)
    }
    pub fn read_to_string(&mut self) -> Result<String, Error> {
        String::from_utf8(std::mem::take(&mut self.0)).map_err(|_| Error::Other("utf8".into()))
    }
    pub fn read_to_vec(&mut self) -> Result<Vec<u8>, Error> { Ok(std::mem::take(&mut self.0)) }
    pub fn into_reader(self) -> BodyReader<'static> { BodyReader(Cursor::new(self.0), Default::default()) }
    pub fn as_reader(&mut self) -> BodyReader<'_> { BodyReader(Cursor::new(std::mem::take(&mut self.0)), Default::default()) }
    pub fn content_length(&self) -> Option<u64> { Some(self.0.len() as u64) }
}
pub struct BodyReader<'a>(Cursor<Vec<u8>>, std::marker::PhantomData<&'a ()>);
impl Read for BodyReader<'_> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.0.read(b) } }
