//! Stand-in for warp: filters over the requests of a job. serve().run() carries the job out.
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::{Duration, Instant};
use world::{world, Client, In};

#[derive(Debug)]
pub struct Error(());
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "the client is gone")
    }
}
impl std::error::Error for Error {}

pub mod http {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct StatusCode(pub u16);
    impl StatusCode {
        pub const OK: StatusCode = StatusCode(200);
        pub const BAD_REQUEST: StatusCode = StatusCode(400);
        pub const UNAUTHORIZED: StatusCode = StatusCode(401);
        pub const FORBIDDEN: StatusCode = StatusCode(403);
        pub const NOT_FOUND: StatusCode = StatusCode(404);
        pub const METHOD_NOT_ALLOWED: StatusCode = StatusCode(405);
        pub const INTERNAL_SERVER_ERROR: StatusCode = StatusCode(500);
    }
}

// ---- requests and replies
pub struct Request {
    path: String,
    ws: bool,
}
type Upgrade = Pin<Box<dyn Future<Output = ()> + Send>>;
pub struct Response {
    pub status: u16,
    pub body: String,
    pub upgrade: Option<Box<dyn FnOnce(ws::WebSocket) -> Upgrade + Send>>,
}
pub mod reply {
    use super::*;
    pub trait Reply {
        fn into_response(self) -> Response;
    }
    pub struct Json(pub(crate) String);
    pub fn json<T: serde::Serialize>(x: &T) -> Json {
        Json(serde_json::to_string(x).unwrap())
    }
    impl Reply for Json {
        fn into_response(self) -> Response {
            Response { status: 200, body: self.0, upgrade: None }
        }
    }
    impl Reply for String {
        fn into_response(self) -> Response {
            Response { status: 200, body: self, upgrade: None }
        }
    }
    impl Reply for &'static str {
        fn into_response(self) -> Response {
            self.to_string().into_response()
        }
    }
    pub struct WithStatus<T>(T, http::StatusCode);
    pub fn with_status<T: Reply>(r: T, s: http::StatusCode) -> WithStatus<T> {
        WithStatus(r, s)
    }
    impl<T: Reply> Reply for WithStatus<T> {
        fn into_response(self) -> Response {
            Response { status: self.1 .0, ..self.0.into_response() }
        }
    }
    pub enum Either<A, B> {
        A(A),
        B(B),
    }
    impl<A: Reply, B: Reply> Reply for Either<A, B> {
        fn into_response(self) -> Response {
            match self {
                Either::A(a) => a.into_response(),
                Either::B(b) => b.into_response(),
            }
        }
    }
    pub struct Upgraded(pub(crate) Box<dyn FnOnce(ws::WebSocket) -> Upgrade + Send>);
    impl Reply for Upgraded {
        fn into_response(self) -> Response {
            Response { status: 101, body: String::new(), upgrade: Some(self.0) }
        }
    }
}
pub use reply::Reply;
pub mod reject {
    #[derive(Debug)]
    pub struct MethodNotAllowed(());
    #[derive(Debug)]
    pub struct MissingHeader(pub(crate) ());
    pub trait Reject: std::fmt::Debug + Sized + Send + Sync + 'static {}
    #[derive(Debug)]
    pub struct Rejection(pub(crate) Option<Box<dyn std::any::Any + Send + Sync>>);
    impl Rejection {
        pub fn is_not_found(&self) -> bool {
            self.0.is_none()
        }
        pub fn find<T: 'static>(&self) -> Option<&T> {
            self.0.as_ref().and_then(|x| x.downcast_ref::<T>())
        }
    }
    pub fn not_found() -> Rejection {
        Rejection(None)
    }
}
pub use reject::Rejection;

// ---- filters
pub trait Combine<B> {
    type Out;
    fn combine(self, b: B) -> Self::Out;
}
impl Combine<()> for () {
    type Out = ();
    fn combine(self, _: ()) {}
}
impl<A> Combine<(A,)> for () {
    type Out = (A,);
    fn combine(self, b: (A,)) -> (A,) {
        b
    }
}
impl<A> Combine<()> for (A,) {
    type Out = (A,);
    fn combine(self, _: ()) -> (A,) {
        self
    }
}
impl<A, B> Combine<(B,)> for (A,) {
    type Out = (A, B);
    fn combine(self, b: (B,)) -> (A, B) {
        (self.0, b.0)
    }
}
impl<A, B> Combine<()> for (A, B) {
    type Out = (A, B);
    fn combine(self, _: ()) -> (A, B) {
        self
    }
}
impl<A, B, C> Combine<(C,)> for (A, B) {
    type Out = (A, B, C);
    fn combine(self, b: (C,)) -> (A, B, C) {
        (self.0, self.1, b.0)
    }
}
impl<F: Fn(A, B, C) -> R, A, B, C, R> Func<(A, B, C)> for F {
    type Output = R;
    fn call(&self, a: (A, B, C)) -> R {
        self(a.0, a.1, a.2)
    }
}
pub trait Func<A> {
    type Output;
    fn call(&self, a: A) -> Self::Output;
}
impl<F: Fn() -> R, R> Func<()> for F {
    type Output = R;
    fn call(&self, _: ()) -> R {
        self()
    }
}
impl<F: Fn(A) -> R, A, R> Func<(A,)> for F {
    type Output = R;
    fn call(&self, a: (A,)) -> R {
        self(a.0)
    }
}
impl<F: Fn(A, B) -> R, A, B, R> Func<(A, B)> for F {
    type Output = R;
    fn call(&self, a: (A, B)) -> R {
        self(a.0, a.1)
    }
}
pub struct Any(());
pub struct Path(&'static str);
pub struct WsFilter(());
pub struct And<A, B>(A, B);
pub struct Map<A, F>(A, F);
pub struct Or<A, B>(A, B);
pub struct Recover<A, F>(A, F);
pub fn any() -> Any {
    Any(())
}
pub fn path(p: &'static str) -> Path {
    Path(p)
}
pub trait Filter: Sized {
    type Extract;
    fn run(&self, r: &Request) -> Result<Self::Extract, Rejection>;
    fn and<B: Filter>(self, b: B) -> And<Self, B>
    where
        Self::Extract: Combine<B::Extract>,
    {
        And(self, b)
    }
    fn map<F: Func<Self::Extract>>(self, f: F) -> Map<Self, F> {
        Map(self, f)
    }
    fn or<B: Filter>(self, b: B) -> Or<Self, B> {
        Or(self, b)
    }
    fn with(self, _: Cors) -> Self {
        self
    }
    fn recover<F>(self, f: F) -> Recover<Self, F> {
        Recover(self, f)
    }
    fn boxed(self) -> Self {
        self
    }
}
impl Filter for Any {
    type Extract = ();
    fn run(&self, _: &Request) -> Result<(), Rejection> {
        Ok(())
    }
}
impl Filter for Path {
    type Extract = ();
    fn run(&self, r: &Request) -> Result<(), Rejection> {
        if r.path.trim_start_matches('/') == self.0 { Ok(()) } else { Err(reject::not_found()) }
    }
}
impl Filter for WsFilter {
    type Extract = (ws::Ws,);
    fn run(&self, r: &Request) -> Result<(ws::Ws,), Rejection> {
        if r.ws { Ok((ws::Ws(()),)) } else { Err(Rejection(Some(Box::new(reject::MissingHeader(()))))) }
    }
}
impl<A: Filter, B: Filter> Filter for And<A, B>
where
    A::Extract: Combine<B::Extract>,
{
    type Extract = <A::Extract as Combine<B::Extract>>::Out;
    fn run(&self, r: &Request) -> Result<Self::Extract, Rejection> {
        Ok(self.0.run(r)?.combine(self.1.run(r)?))
    }
}
impl<A: Filter, F: Func<A::Extract>> Filter for Map<A, F> {
    type Extract = (F::Output,);
    fn run(&self, r: &Request) -> Result<Self::Extract, Rejection> {
        Ok((self.1.call(self.0.run(r)?),))
    }
}
impl<A: Filter<Extract = (X,)>, B: Filter<Extract = (Y,)>, X, Y> Filter for Or<A, B> {
    type Extract = (reply::Either<X, Y>,);
    fn run(&self, r: &Request) -> Result<Self::Extract, Rejection> {
        match self.0.run(r) {
            Ok((x,)) => Ok((reply::Either::A(x),)),
            Err(e) => match self.1.run(r) {
                Ok((y,)) => Ok((reply::Either::B(y),)),
                // what found its place and was refused there says more than what was not found
                Err(e2) => Err(if e2.is_not_found() { e } else { e2 }),
            },
        }
    }
}
pub struct Cors(());
pub fn cors() -> Cors {
    Cors(())
}
impl Cors {
    pub fn allow_any_origin(self) -> Cors {
        self
    }
}
pub fn ws() -> WsFilter {
    WsFilter(())
}
pub mod filters {
    pub mod body {
        #[derive(Debug)]
        pub struct BodyDeserializeError(());
    }
    pub mod ws {
        pub use crate::ws::*;
    }
}
pub mod ws {
    use super::*;
    #[derive(Debug, Clone, PartialEq)]
    pub struct Message(pub(crate) String, pub(crate) bool);
    impl Message {
        pub fn text<S: Into<String>>(s: S) -> Message {
            Message(s.into(), true)
        }
        pub fn binary<V: Into<Vec<u8>>>(v: V) -> Message {
            Message(String::from_utf8_lossy(&v.into()).to_string(), false)
        }
        pub fn to_str(&self) -> Result<&str, ()> {
            Ok(&self.0)
        }
    }
    pub struct Ws(pub(crate) ());
    impl Ws {
        pub fn on_upgrade<F, U>(self, f: F) -> reply::Upgraded
        where
            F: FnOnce(WebSocket) -> U + Send + 'static,
            U: Future<Output = ()> + Send + 'static,
        {
            reply::Upgraded(Box::new(move |s| Box::pin(f(s))))
        }
    }
    pub struct WebSocket(pub(crate) Arc<Mutex<Client>>);
    impl futures_util::Stream for WebSocket {
        type Item = Result<Message, Error>;
        fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> {
            // the clients say nothing
            Poll::Pending
        }
    }
    impl futures_util::Sink<Message> for WebSocket {
        type Error = Error;
        fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
            let mut c = self.0.lock().unwrap();
            if c.left {
                return Poll::Ready(Err(Error(())));
            }
            if c.stalled {
                c.waker = Some(cx.waker().clone());
                return Poll::Pending;
            }
            Poll::Ready(Ok(()))
        }
        fn start_send(self: Pin<&mut Self>, m: Message) -> Result<(), Error> {
            let mut c = self.0.lock().unwrap();
            if c.left {
                return Err(Error(()));
            }
            c.got.push(if m.1 { m.0 } else { "binary".into() });
            Ok(())
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Error>> {
            Poll::Ready(if self.0.lock().unwrap().left { Err(Error(())) } else { Ok(()) })
        }
        fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Error>> {
            Poll::Ready(Ok(()))
        }
    }
}

// ---- serving: the job
trait Route {
    fn respond<'a>(&'a self, r: Request) -> Pin<Box<dyn Future<Output = Response> + 'a>>;
}
impl<A, F, U, R, X> Route for Recover<A, F>
where
    A: Filter<Extract = (X,)>,
    X: Reply,
    F: Fn(Rejection) -> U,
    U: Future<Output = Result<R, std::convert::Infallible>>,
    R: Reply,
{
    fn respond<'a>(&'a self, r: Request) -> Pin<Box<dyn Future<Output = Response> + 'a>> {
        Box::pin(async move {
            match self.0.run(&r) {
                Ok((x,)) => x.into_response(),
                Err(e) => match (self.1)(e).await {
                    Ok(x) => x.into_response(),
                    Err(_) => unreachable!(),
                },
            }
        })
    }
}
pub struct Server<F>(F);
#[allow(private_bounds)]
pub fn serve<F: Route>(f: F) -> Server<F> {
    Server(f)
}
static IN_VAIN: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
async fn until(limit: u64, f: impl Fn() -> bool) -> bool {
    // who waited in vain many times has no patience left
    let limit = (limit >> IN_VAIN.load(std::sync::atomic::Ordering::SeqCst).min(7)).max(20);
    let end = Instant::now() + Duration::from_millis(limit);
    let mut n = 0;
    while !f() {
        if Instant::now() > end {
            IN_VAIN.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            return false;
        }
        n += 1;
        if n < 20 {
            tokio::task::yield_now().await
        } else {
            tokio::time::sleep(Duration::from_micros(200)).await
        }
    }
    true
}
#[allow(private_bounds)]
impl<F: Route> Server<F> {
    pub async fn run(self, _addr: impl Into<std::net::SocketAddr>) {
        let job = world(|w| w.job.clone());
        let steps = job["steps"].as_array().unwrap().clone();
        if job["config"]["redis"].is_object() && job["config"]["input_ws"].is_object() {
            until(3000, || world(|w| w.input.is_some() && !w.subs.is_empty())).await;
        }
        let mut want: Vec<usize> = vec![];
        let mut published = false;
        for s in steps {
            let word = |k: usize| s[k].as_str().unwrap().to_string();
            let client = |k: usize| world(|w| w.clients[s[k].as_u64().unwrap() as usize - 1].clone());
            match word(0).as_str() {
                "in" => {
                    let m = match word(1).as_str() {
                        "ping" => In::Ping(word(2).into_bytes()),
                        "binary" => In::Binary(word(2).into_bytes()),
                        _ => In::Text(word(2)),
                    };
                    world(|w| w.input.as_ref().map(|c| c.push(m)));
                }
                "pub" => {
                    published = true;
                    world(|w| {
                        for (name, c) in &w.subs {
                            if w.calls.iter().any(|l| l[0] == "RTBOT.XRUN" && format!("{}:ps", l[3]) == *name) {
                                c.push(word(1))
                            }
                        }
                        for c in 0..w.clients.len() {
                            want[c] += 1
                        }
                    });
                }
                "connect" => {
                    let c = Arc::new(Mutex::new(Client::default()));
                    world(|w| w.clients.push(c.clone()));
                    want.push(0);
                    let r = self.0.respond(Request { path: "/ws".into(), ws: true }).await;
                    if let Some(u) = r.upgrade {
                        let h = tokio::spawn(u(ws::WebSocket(c)));
                        until(300, || h.is_finished()).await;
                    } else {
                        world(|w| w.result.push(serde_json::json!(["not upgraded", r.status])));
                    }
                }
                "stall" => client(1).lock().unwrap().stalled = true,
                "resume" => {
                    let c = client(1);
                    let mut c = c.lock().unwrap();
                    c.stalled = false;
                    if let Some(w) = c.waker.take() {
                        w.wake()
                    }
                }
                "leave" => {
                    let c = client(1);
                    let mut c = c.lock().unwrap();
                    c.left = true;
                    if let Some(w) = c.waker.take() {
                        w.wake()
                    }
                }
                "get" => {
                    let r = self.0.respond(Request { path: word(1), ws: false }).await;
                    world(|w| w.result.push(serde_json::json!([r.status, r.body])));
                }
                // everything that was sent has gone through
                "settle" => {
                    until(3000, || world(|w| w.input.as_ref().map_or(true, |c| c.settled()) && w.subs.iter().all(|s| s.1.settled()))).await;
                    let all = world(|w| w.clients.clone());
                    until(1500, || {
                        all.iter().zip(&want).all(|(c, n)| {
                            let c = c.lock().unwrap();
                            c.left || c.stalled || c.got.len() >= *n
                        })
                    })
                    .await;
                    // results that nobody takes leave no trace
                    if published && all.iter().all(|c| c.lock().map(|c| c.left || c.stalled).unwrap()) {
                        tokio::time::sleep(Duration::from_millis(1)).await;
                    }
                    published = false;
                }
                "look" => world(|w| {
                    let got: Vec<Vec<String>> = w.clients.iter().map(|c| c.lock().unwrap().got.clone()).collect();
                    let seen = serde_json::json!({"calls": w.calls, "got": got, "inputs": w.inputs, "subs": w.subs.iter().map(|s| s.0.clone()).collect::<Vec<_>>(),
                        "reading": w.input.as_ref().map_or(false, |c| c.settled())});
                    w.result.push(seen);
                }),
                _ => std::process::exit(97),
            }
        }
    }
}
