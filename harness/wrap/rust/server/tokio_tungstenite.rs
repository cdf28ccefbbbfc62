//! Stand-in for the websocket that the server reads.
use std::pin::Pin;
use std::task::{Context, Poll};
use world::{world, Chan, In};

pub mod tungstenite {
    #[derive(Debug)]
    pub enum Error {
        ConnectionClosed,
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "closed")
        }
    }
    impl std::error::Error for Error {}
    pub type Result<T, E = Error> = std::result::Result<T, E>;
    #[derive(Debug, Clone, PartialEq)]
    pub enum Message {
        Text(String),
        Binary(Vec<u8>),
        Ping(Vec<u8>),
        Pong(Vec<u8>),
        Close(Option<()>),
    }
    impl Message {
        pub fn is_text(&self) -> bool {
            matches!(self, Message::Text(_))
        }
        pub fn into_text(self) -> Result<String> {
            match self {
                Message::Text(s) => Ok(s),
                Message::Binary(b) | Message::Ping(b) | Message::Pong(b) => String::from_utf8(b).map_err(|_| Error::ConnectionClosed),
                Message::Close(_) => Ok(String::new()),
            }
        }
        pub fn to_text(&self) -> Result<&str> {
            match self {
                Message::Text(s) => Ok(s),
                Message::Binary(b) | Message::Ping(b) | Message::Pong(b) => std::str::from_utf8(b).map_err(|_| Error::ConnectionClosed),
                Message::Close(_) => Ok(""),
            }
        }
    }
}
use tungstenite::{Error, Message};
pub struct WebSocketStream(Chan<In>);
impl futures_util::Stream for WebSocketStream {
    type Item = Result<Message, Error>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        self.0.poll(cx).map(|m| {
            m.map(|m| {
                Ok(match m {
                    In::Text(s) => Message::Text(s),
                    In::Binary(b) => Message::Binary(b),
                    In::Ping(b) => Message::Ping(b),
                })
            })
        })
    }
}
impl futures_util::Sink<Message> for WebSocketStream {
    type Error = Error;
    fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Error>> {
        Poll::Ready(Ok(()))
    }
    fn start_send(self: Pin<&mut Self>, _: Message) -> Result<(), Error> {
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Error>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Error>> {
        Poll::Ready(Ok(()))
    }
}
impl Drop for WebSocketStream {
    fn drop(&mut self) {
        self.0.reader_gone();
    }
}
pub async fn connect_async<R: ToString>(request: R) -> Result<(WebSocketStream, ()), Error> {
    tokio::task::yield_now().await;
    let c = Chan::new();
    world(|w| {
        w.inputs.push(request.to_string());
        w.input = Some(c.clone());
    });
    Ok((WebSocketStream(c), ()))
}
