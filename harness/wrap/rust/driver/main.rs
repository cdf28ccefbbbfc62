//! Executes operations of the registry of pipelines and of the redis module; one job in each line, one answer in each line.
use redis_module::{Context, RedisValue, STORE};
use rtbot_rs::cxx_bindings::ffi::{ENGINE, WRONG};
use rtbot_rs::pipelines_registry::{PipelinesRegistry, PIPELINES_REGISTRY};
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

static BEAT: AtomicU64 = AtomicU64::new(0);

fn answer<T: std::fmt::Display, E: std::fmt::Debug>(r: Result<T, E>) -> Value {
    match r {
        Ok(x) => json!({"ok": x.to_string()}),
        Err(e) => json!({"err": format!("{:?}", e)}),
    }
}
fn registry(cmds: &[Value]) -> Vec<Value> {
    let r = PipelinesRegistry::new();
    let s = |v: &Value| v.as_str().unwrap().to_string();
    cmds.iter()
        .map(|c| match c[0].as_str().unwrap() {
            "create" => answer(r.create(&s(&c[1]), &s(&c[2]), &s(&c[3]))),
            "del" => answer(r.delete(&s(&c[1]), &s(&c[2]))),
            "delin" => answer(r.delete_by_input_key(&s(&c[1]))),
            "recv" => match r.receive(&s(&c[1]), c[2].as_u64().unwrap(), c[3].as_array().unwrap().iter().map(|x| x.as_f64().unwrap()).collect()) {
                Ok(m) => json!({"ok": m.iter().map(|(k, ms)| json!([k, ms.iter().map(|x| json!([x.timestamp, x.values])).collect::<Vec<_>>()])).collect::<Vec<_>>()}),
                Err(e) => json!({"err": format!("{:?}", e)}),
            },
            _ => json!({"alive": ENGINE.lock().unwrap().keys().cloned().collect::<Vec<_>>(), "wrong": *WRONG.lock().unwrap()}),
        })
        .collect()
}
fn redis(cmds: &[Value]) -> Vec<Value> {
    *PIPELINES_REGISTRY.write().unwrap() = None;
    STORE.with(|s| {
        let mut s = s.borrow_mut();
        *s = Default::default();
        s.commands = redis_rtbot::rt_commands();
        s.handlers = redis_rtbot::rt_handlers();
    });
    let ctx = Context::dummy();
    cmds.iter()
        .map(|c| {
            let args: Vec<String> = c.as_array().unwrap().iter().map(|x| x.as_str().map(|s| s.to_string()).unwrap_or_else(|| x.to_string())).collect();
            match args[0].as_str() {
                "doc" => {
                    STORE.with(|s| s.borrow_mut().docs.insert(args[1].clone(), args[2].clone()));
                    json!({})
                }
                "look" => STORE.with(|s| {
                    let s = s.borrow();
                    json!({"series": s.series.iter().map(|(k, x)| json!([k, x.samples.iter().map(|(t, v)| json!([t, v])).collect::<Vec<_>>()])).collect::<Vec<_>>(),
                           "published": s.published, "alive": ENGINE.lock().unwrap().len(), "wrong": *WRONG.lock().unwrap()})
                }),
                name => {
                    let rest: Vec<&str> = args[1..].iter().map(|s| s.as_str()).collect();
                    match ctx.call(name, &rest) {
                        Ok(RedisValue::SimpleString(s)) | Ok(RedisValue::BulkString(s)) => json!({"ok": s}),
                        Ok(_) => json!({"ok": ""}),
                        Err(e) => json!({"err": format!("{:?}", e)}),
                    }
                }
            }
        })
        .collect()
}
fn main() {
    let limit: u64 = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(20);
    // what the code prints is of no interest
    let out = unsafe {
        extern "C" {
            fn dup(fd: i32) -> i32;
            fn dup2(a: i32, b: i32) -> i32;
        }
        use std::os::fd::{AsRawFd, FromRawFd};
        let keep = dup(1);
        dup2(std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap().as_raw_fd(), 1);
        std::fs::File::from_raw_fd(keep)
    };
    let mut out = std::io::BufWriter::new(out);
    std::thread::spawn(move || {
        let mut seen = 0;
        let mut idle = 0;
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = BEAT.load(Ordering::SeqCst);
            idle = if now == seen { idle + 1 } else { 0 };
            seen = now;
            if idle > 2 * limit {
                std::process::exit(98);
            }
        }
    });
    for line in std::io::stdin().lock().lines() {
        let job: Value = serde_json::from_str(&line.unwrap()).unwrap();
        BEAT.fetch_add(1, Ordering::SeqCst);
        ENGINE.lock().unwrap().clear();
        WRONG.lock().unwrap().clear();
        let f = if job["redis"].is_array() { redis } else { registry };
        let cmds = if job["redis"].is_array() { &job["redis"] } else { &job["cmds"] };
        let res = f(cmds.as_array().unwrap());
        writeln!(out, "{}", json!({"id": job["id"], "res": res})).unwrap();
        out.flush().unwrap();
    }
}
