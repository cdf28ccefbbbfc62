//! Runs the server once for each job; one job in each line, one answer in each line.
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use world::{world, World};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = unsafe {
        extern "C" {
            fn dup(fd: i32) -> i32;
            fn dup2(a: i32, b: i32) -> i32;
        }
        use std::os::fd::{AsRawFd, FromRawFd};
        let keep = dup(1);
        dup2(std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap().as_raw_fd(), 1);
        std::fs::File::from_raw_fd(keep)
    };
    for line in std::io::stdin().lock().lines() {
        let job: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let id = job["id"].clone();
        world(|w| *w = World { job, ..Default::default() });
        let r = std::panic::catch_unwind(|| rtbot_server::rt_main());
        let mut res = world(|w| std::mem::take(&mut w.result));
        match r {
            Ok(s) if s.is_empty() => {}
            Ok(s) => res.push(json!({"failed": s})),
            Err(_) => res.push(json!({"failed": "panic"})),
        }
        writeln!(out, "{}", json!({"id": id, "res": res})).unwrap();
        out.flush().unwrap();
    }
}
