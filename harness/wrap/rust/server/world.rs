//! What surrounds the server in a check: the websocket that it reads, redis, its clients. One job at a time.
use serde_json::Value;
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

pub struct Inner<T> {
    queue: VecDeque<T>,
    waker: Option<Waker>,
    asked: bool,
    gone: bool,
}
/// a stream of messages that knows whether its reader has done with all of them and asks for more
pub struct Chan<T>(Arc<Mutex<Inner<T>>>);
impl<T> Clone for Chan<T> {
    fn clone(&self) -> Self {
        Chan(self.0.clone())
    }
}
impl<T> Chan<T> {
    pub fn new() -> Self {
        Chan(Arc::new(Mutex::new(Inner { queue: VecDeque::new(), waker: None, asked: false, gone: false })))
    }
    pub fn push(&self, x: T) {
        let mut c = self.0.lock().unwrap();
        c.asked = false;
        c.queue.push_back(x);
        if let Some(w) = c.waker.take() {
            w.wake();
        }
    }
    pub fn poll(&self, cx: &mut Context<'_>) -> Poll<Option<T>> {
        let mut c = self.0.lock().unwrap();
        match c.queue.pop_front() {
            Some(x) => Poll::Ready(Some(x)),
            None => {
                c.asked = true;
                c.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
    pub fn settled(&self) -> bool {
        let c = self.0.lock().unwrap();
        c.asked || c.gone
    }
    pub fn reader_gone(&self) {
        self.0.lock().unwrap().gone = true;
    }
}
#[derive(Clone)]
pub enum In {
    Text(String),
    Binary(Vec<u8>),
    Ping(Vec<u8>),
}
#[derive(Default)]
pub struct Client {
    pub got: Vec<String>,
    pub stalled: bool,
    pub left: bool,
    pub waker: Option<Waker>,
}
#[derive(Default)]
pub struct World {
    pub job: Value,
    pub calls: Vec<Vec<String>>,
    pub input: Option<Chan<In>>,
    pub inputs: Vec<String>,
    pub subs: Vec<(String, Chan<String>)>,
    pub clients: Vec<Arc<Mutex<Client>>>,
    pub result: Vec<Value>,
}
pub static WORLD: Mutex<Option<World>> = Mutex::new(None);
pub fn world<R>(f: impl FnOnce(&mut World) -> R) -> R {
    let mut w = WORLD.lock().unwrap_or_else(|e| e.into_inner());
    f(w.get_or_insert_with(Default::default))
}
