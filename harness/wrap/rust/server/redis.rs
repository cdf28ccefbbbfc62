//! Stand-in for the client of redis: it takes down the commands.
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use world::{world, Chan};

#[derive(Debug, Clone)]
pub struct RedisError(pub String);
impl std::fmt::Display for RedisError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for RedisError {}
pub type RedisResult<T> = Result<T, RedisError>;

pub trait ToRedisArgs {
    fn text(&self) -> String;
    fn words(&self) -> Vec<String> {
        vec![self.text()]
    }
}
macro_rules! texts { ($($t:ty),*) => { $(impl ToRedisArgs for $t { fn text(&self) -> String { self.to_string() } })* } }
texts!(str, String, u64, i64, u32, i32, usize, f64, f32, bool);
impl<T: ToRedisArgs + ?Sized> ToRedisArgs for &T {
    fn text(&self) -> String {
        (**self).text()
    }
    fn words(&self) -> Vec<String> {
        (**self).words()
    }
}
impl<T: ToRedisArgs> ToRedisArgs for [T] {
    fn text(&self) -> String {
        self.words().join(" ")
    }
    fn words(&self) -> Vec<String> {
        self.iter().flat_map(|x| x.words()).collect()
    }
}
impl<T: ToRedisArgs> ToRedisArgs for Vec<T> {
    fn text(&self) -> String {
        self.words().join(" ")
    }
    fn words(&self) -> Vec<String> {
        self.iter().flat_map(|x| x.words()).collect()
    }
}
impl<T: ToRedisArgs, const N: usize> ToRedisArgs for [T; N] {
    fn text(&self) -> String {
        self.words().join(" ")
    }
    fn words(&self) -> Vec<String> {
        self.iter().flat_map(|x| x.words()).collect()
    }
}
pub trait FromRedisValue: Sized {
    fn of(s: &str) -> RedisResult<Self>;
}
impl FromRedisValue for () {
    fn of(_: &str) -> RedisResult<Self> {
        Ok(())
    }
}
impl FromRedisValue for String {
    fn of(s: &str) -> RedisResult<Self> {
        Ok(s.to_string())
    }
}
impl FromRedisValue for Value {
    fn of(s: &str) -> RedisResult<Self> {
        Ok(Value::Status(s.to_string()))
    }
}
impl<T: FromRedisValue> FromRedisValue for Option<T> {
    fn of(s: &str) -> RedisResult<Self> {
        T::of(s).map(Some)
    }
}
macro_rules! numbers { ($($t:ty),*) => { $(impl FromRedisValue for $t { fn of(s: &str) -> RedisResult<Self> { s.parse().map_err(|_| RedisError("not a number".into())) } })* } }
numbers!(u64, i64, u32, i32, usize, f64);
#[derive(Debug, Clone, PartialEq)]
pub enum Value {
    Nil,
    Int(i64),
    Data(Vec<u8>),
    Bulk(Vec<Value>),
    Status(String),
    Okay,
}
#[derive(Clone, Debug)]
pub struct Cmd(Vec<String>);
pub fn cmd(name: &str) -> Cmd {
    Cmd(vec![name.to_string()])
}
impl Cmd {
    pub fn new() -> Cmd {
        Cmd(vec![])
    }
    pub fn arg<T: ToRedisArgs>(&mut self, x: T) -> &mut Cmd {
        self.0.extend(x.words());
        self
    }
    pub async fn exec_async<C>(&self, con: &mut C) -> RedisResult<()> {
        self.query_async::<C, ()>(con).await
    }
    pub async fn query_async<C, T: FromRedisValue>(&self, _con: &mut C) -> RedisResult<T> {
        tokio::task::yield_now().await;
        let mut line = self.0.clone();
        line[0] = line[0].to_uppercase();
        if line[0] == "TS.ADD" && line.get(3).map(|v| v == "666").unwrap_or(false) {
            return Err(RedisError("ERR TSDB: refused".into()));
        }
        world(|w| w.calls.push(line));
        T::of("OK")
    }
}
pub struct Client(());
pub trait IntoConnectionInfo {}
impl IntoConnectionInfo for &str {}
impl IntoConnectionInfo for String {}
impl IntoConnectionInfo for &String {}
impl Client {
    pub fn open<T: IntoConnectionInfo>(_url: T) -> RedisResult<Client> {
        Ok(Client(()))
    }
    pub async fn get_async_connection(&self) -> RedisResult<aio::Connection> {
        tokio::task::yield_now().await;
        Ok(aio::Connection(()))
    }
    pub async fn get_multiplexed_async_connection(&self) -> RedisResult<aio::Connection> {
        self.get_async_connection().await
    }
    pub async fn get_async_pubsub(&self) -> RedisResult<aio::PubSub> {
        self.get_async_connection().await.map(|c| c.into_pubsub())
    }
    pub async fn get_tokio_connection(&self) -> RedisResult<aio::Connection> {
        self.get_async_connection().await
    }
}
pub struct Msg(String, String);
impl Msg {
    pub fn get_payload<T: FromRedisValue>(&self) -> RedisResult<T> {
        T::of(&self.1)
    }
    pub fn get_channel_name(&self) -> &str {
        &self.0
    }
}
pub mod aio {
    use super::*;
    pub struct Connection(pub(crate) ());
    impl Connection {
        pub fn into_pubsub(self) -> PubSub {
            PubSub(vec![])
        }
    }
    pub struct PubSub(Vec<(String, Chan<String>)>);
    impl PubSub {
        pub async fn subscribe<T: ToRedisArgs>(&mut self, channel: T) -> RedisResult<()> {
            tokio::task::yield_now().await;
            let c = Chan::new();
            self.0.push((channel.text(), c.clone()));
            world(|w| w.subs.push((channel.text(), c)));
            Ok(())
        }
        pub fn on_message(&mut self) -> OnMessage<'_> {
            OnMessage(self)
        }
        pub fn into_on_message(self) -> IntoOnMessage {
            IntoOnMessage(self)
        }
        fn next(&self, cx: &mut Context<'_>) -> Poll<Option<Msg>> {
            for (name, c) in &self.0 {
                if let Poll::Ready(Some(m)) = c.poll(cx) {
                    return Poll::Ready(Some(Msg(name.clone(), m)));
                }
            }
            Poll::Pending
        }
    }
    impl Drop for PubSub {
        fn drop(&mut self) {
            for (_, c) in &self.0 {
                c.reader_gone();
            }
        }
    }
    pub struct OnMessage<'a>(&'a mut PubSub);
    impl<'a> futures_util::Stream for OnMessage<'a> {
        type Item = Msg;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Msg>> {
            self.0.next(cx)
        }
    }
    pub struct IntoOnMessage(PubSub);
    impl futures_util::Stream for IntoOnMessage {
        type Item = Msg;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Msg>> {
            self.0.next(cx)
        }
    }
}
#[allow(dead_code)]
fn unused<F: Future>(_: F) {}
