//! Stand-in for redis with its time series and json modules, and for the crate that modules are written with.
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq)]
pub enum RedisValue {
    SimpleStringStatic(&'static str),
    SimpleString(String),
    BulkString(String),
    StringBuffer(Vec<u8>),
    Integer(i64),
    Float(f64),
    Bool(bool),
    Array(Vec<RedisValue>),
    Null,
    NoReply,
}
#[derive(Debug)]
pub enum RedisError {
    WrongArity,
    Str(&'static str),
    String(String),
    WrongType,
}
impl<T: std::error::Error> From<T> for RedisError {
    fn from(e: T) -> Self {
        RedisError::String(e.to_string())
    }
}
pub type RedisResult = Result<RedisValue, RedisError>;
pub const REDIS_OK: RedisResult = Ok(RedisValue::SimpleStringStatic("OK"));
impl From<()> for RedisValue {
    fn from(_: ()) -> Self {
        RedisValue::Null
    }
}
impl From<String> for RedisValue {
    fn from(s: String) -> Self {
        RedisValue::BulkString(s)
    }
}
impl From<&str> for RedisValue {
    fn from(s: &str) -> Self {
        RedisValue::BulkString(s.to_string())
    }
}
impl From<Vec<u8>> for RedisValue {
    fn from(s: Vec<u8>) -> Self {
        RedisValue::StringBuffer(s)
    }
}
impl From<bool> for RedisValue {
    fn from(s: bool) -> Self {
        RedisValue::Bool(s)
    }
}
impl From<usize> for RedisValue {
    fn from(s: usize) -> Self {
        RedisValue::Integer(s as i64)
    }
}
impl<T: Into<RedisValue>> From<Option<T>> for RedisValue {
    fn from(s: Option<T>) -> Self {
        s.map_or(RedisValue::Null, |x| x.into())
    }
}
impl From<&String> for RedisValue {
    fn from(s: &String) -> Self {
        RedisValue::BulkString(s.clone())
    }
}
impl From<i64> for RedisValue {
    fn from(s: i64) -> Self {
        RedisValue::Integer(s)
    }
}
impl From<f64> for RedisValue {
    fn from(s: f64) -> Self {
        RedisValue::Float(s)
    }
}

pub mod raw {
    pub enum RedisModuleCtx {}
}
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct RedisString(pub(crate) String);
impl RedisString {
    pub fn create(_: *mut raw::RedisModuleCtx, s: &str) -> Self {
        RedisString(s.to_string())
    }
    pub fn try_as_str(&self) -> Result<&str, RedisError> {
        Ok(&self.0)
    }
    pub fn to_string_lossy(&self) -> String {
        self.0.clone()
    }
    pub fn as_slice(&self) -> &[u8] {
        self.0.as_bytes()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn parse_integer(&self) -> Result<i64, RedisError> {
        self.0.parse::<i64>().map_err(|_| RedisError::String("Couldn't parse as integer".to_string()))
    }
    pub fn parse_unsigned_integer(&self) -> Result<u64, RedisError> {
        self.0.parse::<u64>().map_err(|_| RedisError::String("Couldn't parse as integer".to_string()))
    }
    pub fn parse_float(&self) -> Result<f64, RedisError> {
        self.0.parse::<f64>().map_err(|_| RedisError::String("Couldn't parse as float".to_string()))
    }
}
impl From<RedisString> for String {
    fn from(s: RedisString) -> Self {
        s.0
    }
}
impl From<RedisString> for RedisValue {
    fn from(s: RedisString) -> Self {
        RedisValue::BulkString(s.0)
    }
}
pub trait NextArg: Iterator {
    fn next_arg(&mut self) -> Result<RedisString, RedisError>;
    fn next_string(&mut self) -> Result<String, RedisError>;
    fn next_str<'a>(&mut self) -> Result<&'a str, RedisError>;
    fn next_i64(&mut self) -> Result<i64, RedisError>;
    fn next_u64(&mut self) -> Result<u64, RedisError>;
    fn next_f64(&mut self) -> Result<f64, RedisError>;
    fn done(&mut self) -> Result<(), RedisError>;
}
impl<T: Iterator<Item = RedisString>> NextArg for T {
    fn next_arg(&mut self) -> Result<RedisString, RedisError> {
        self.next().ok_or(RedisError::WrongArity)
    }
    fn next_string(&mut self) -> Result<String, RedisError> {
        self.next_arg().map(|s| s.0)
    }
    fn next_str<'a>(&mut self) -> Result<&'a str, RedisError> {
        self.next_arg().map(|s| &*Box::leak(s.0.into_boxed_str()))
    }
    fn next_i64(&mut self) -> Result<i64, RedisError> {
        self.next_arg()?.parse_integer()
    }
    fn next_u64(&mut self) -> Result<u64, RedisError> {
        self.next_arg()?.parse_unsigned_integer()
    }
    fn next_f64(&mut self) -> Result<f64, RedisError> {
        self.next_arg()?.parse_float()
    }
    fn done(&mut self) -> Result<(), RedisError> {
        self.next().map_or(Ok(()), |_| Err(RedisError::WrongArity))
    }
}
impl std::fmt::Display for RedisString {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
#[derive(Debug, Clone, Copy)]
pub struct NotifyEvent;
pub type Command = fn(&Context, Vec<RedisString>) -> RedisResult;
pub type Handler = fn(&Context, NotifyEvent, &str, &str) -> RedisResult;

#[derive(Default)]
pub struct Series {
    pub last_wins: bool,
    pub samples: BTreeMap<u64, f64>,
}
#[derive(Default)]
pub struct Store {
    pub docs: BTreeMap<String, String>,
    pub series: BTreeMap<String, Series>,
    pub published: Vec<(String, String)>,
    pub commands: Vec<(&'static str, Command)>,
    pub handlers: Vec<Handler>,
}
thread_local! { pub static STORE: RefCell<Store> = RefCell::new(Store::default()); }

pub struct Context {
    pub ctx: *mut raw::RedisModuleCtx,
}
fn bad<T>(s: &str) -> Result<T, RedisError> {
    Err(RedisError::String(s.to_string()))
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum RedisLogLevel {
    Debug,
    Notice,
    Verbose,
    Warning,
}
pub type LogLevel = RedisLogLevel;
pub enum StrCallArgs {}
/// the arguments of a command, as the library takes them
pub trait IntoArgs {
    fn words(self) -> Vec<String>;
}
macro_rules! into_args {
    ($($t:ty),*) => {$(
        impl IntoArgs for $t { fn words(self) -> Vec<String> { self.iter().map(|x| x.to_string()).collect() } }
    )*};
}
into_args!(&[&str], &[String], &[&String], Vec<&str>, Vec<String>, &Vec<&str>, &Vec<String>, &[RedisString], &[&RedisString], &Vec<RedisString>, &Vec<&RedisString>);
impl<const N: usize> IntoArgs for &[&str; N] {
    fn words(self) -> Vec<String> {
        self.iter().map(|x| x.to_string()).collect()
    }
}
impl<const N: usize> IntoArgs for &[String; N] {
    fn words(self) -> Vec<String> {
        self.iter().cloned().collect()
    }
}
impl<const N: usize> IntoArgs for &[&String; N] {
    fn words(self) -> Vec<String> {
        self.iter().map(|x| x.to_string()).collect()
    }
}
impl<const N: usize> IntoArgs for &[&RedisString; N] {
    fn words(self) -> Vec<String> {
        self.iter().map(|x| x.to_string()).collect()
    }
}
fn bound(s: Option<&str>, or: u64) -> u64 {
    s.and_then(|x| x.parse().ok()).unwrap_or(or)
}
fn text(v: f64) -> RedisValue {
    RedisValue::SimpleString(v.to_string())
}
impl Context {
    pub fn dummy() -> Self {
        Context { ctx: std::ptr::null_mut() }
    }
    pub fn log_verbose(&self, _: &str) {}
    pub fn log_debug(&self, _: &str) {}
    pub fn log_notice(&self, _: &str) {}
    pub fn log_warning(&self, _: &str) {}
    pub fn log(&self, _: RedisLogLevel, _: &str) {}
    pub fn reply(&self, _: RedisResult) {}
    pub fn replicate_verbatim(&self) {}
    pub fn auto_memory(&self) {}
    pub fn create_string(&self, s: &str) -> RedisString {
        RedisString(s.to_string())
    }
    pub fn call<T: IntoArgs>(&self, command: &str, args: T) -> RedisResult {
        let args = args.words();
        self.run(command, &args.iter().map(|x| x.as_str()).collect::<Vec<_>>())
    }
    fn run(&self, command: &str, args: &[&str]) -> RedisResult {
        let name = command.to_lowercase();
        let key = args.get(0).map(|s| s.to_string()).unwrap_or_default();
        let module = STORE.with(|s| s.borrow().commands.iter().find(|c| c.0 == name).map(|c| c.1));
        if let Some(f) = module {
            let mut v = vec![RedisString(command.to_string())];
            v.extend(args.iter().map(|s| RedisString(s.to_string())));
            return f(self, v);
        }
        match name.as_str() {
            "json.get" => STORE.with(|s| match s.borrow().docs.get(&key) {
                Some(d) => Ok(RedisValue::SimpleString(d.clone())),
                None => Ok(RedisValue::Null),
            }),
            "del" => STORE.with(|s| Ok(RedisValue::Integer(s.borrow_mut().series.remove(&key).is_some() as i64))),
            "exists" => STORE.with(|s| Ok(RedisValue::Integer(s.borrow().series.contains_key(&key) as i64))),
            "ts.create" => STORE.with(|s| {
                let mut s = s.borrow_mut();
                if s.series.contains_key(&key) {
                    return bad("TSDB: key already exists");
                }
                s.series.insert(key, Series { last_wins: args[1..].iter().any(|a| a.to_uppercase() == "LAST"), samples: BTreeMap::new() });
                Ok(RedisValue::SimpleString("OK".to_string()))
            }),
            "ts.range" | "ts.revrange" => STORE.with(|s| match s.borrow().series.get(&key) {
                Some(x) => {
                    let (from, to) = (bound(args.get(1).copied(), 0), bound(args.get(2).copied(), u64::MAX));
                    let mut all: Vec<_> = x.samples.iter().filter(|(t, _)| from <= **t && **t <= to).map(|(t, v)| RedisValue::Array(vec![RedisValue::Integer(*t as i64), text(*v)])).collect();
                    if name == "ts.revrange" {
                        all.reverse();
                    }
                    if let Some(i) = args.iter().position(|a| a.to_uppercase() == "COUNT") {
                        all.truncate(bound(args.get(i + 1).copied(), u64::MAX) as usize);
                    }
                    Ok(RedisValue::Array(all))
                }
                None => bad("TSDB: the key does not exist"),
            }),
            "ts.get" => STORE.with(|s| match s.borrow().series.get(&key) {
                Some(x) => Ok(RedisValue::Array(match x.samples.iter().next_back() {
                    Some((t, v)) => vec![RedisValue::Integer(*t as i64), text(*v)],
                    None => vec![],
                })),
                None => bad("TSDB: the key does not exist"),
            }),
            "ts.add" => {
                let (t, v) = match (args[1].parse::<u64>(), args[2].parse::<f64>()) {
                    (Ok(t), Ok(v)) => (t, v),
                    _ => return bad("TSDB: invalid sample"),
                };
                let twice = STORE.with(|s| {
                    let mut s = s.borrow_mut();
                    let x = s.series.entry(key.clone()).or_default();
                    let twice = !x.last_wins && x.samples.contains_key(&t);
                    if !twice {
                        x.samples.insert(t, v);
                    }
                    twice
                });
                if twice {
                    return bad("TSDB: duplicate");
                }
                let handlers = STORE.with(|s| s.borrow().handlers.clone());
                for h in handlers {
                    let _ = h(self, NotifyEvent, "ts.add", &key);
                }
                Ok(RedisValue::Integer(t as i64))
            }
            "ts.madd" => {
                let r: Vec<RedisValue> = args.chunks(3).map(|a| self.run("ts.add", a).unwrap_or(RedisValue::Null)).collect();
                Ok(RedisValue::Array(r))
            }
            "publish" => STORE.with(|s| {
                s.borrow_mut().published.push((key, args[1].to_string()));
                Ok(RedisValue::Integer(1))
            }),
            _ => bad("unknown command"),
        }
    }
}

#[macro_export]
macro_rules! redis_module {
    (name: $n:expr, version: $v:expr, data_types: [$($d:tt)*], commands: [$([$c:expr, $f:expr, $($r:tt)*]),* $(,)?],
     event_handlers: [$([@ $e:ident : $h:expr]),* $(,)?] $(,)?) => {
        pub fn rt_commands() -> Vec<(&'static str, $crate::Command)> { vec![$(($c, $f as $crate::Command)),*] }
        pub fn rt_handlers() -> Vec<$crate::Handler> { vec![$($h as $crate::Handler),*] }
    };
}
