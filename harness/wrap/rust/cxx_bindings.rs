//! Stand-in for the engine behind cxx: a program keeps the sum of the values that arrive in order of time.
//! A program says its kind in its text: "even" is silent when the sum is odd, "twice" says the sum and its double,
//! "raw" takes any time, "refused" is not accepted. A number after "unit=" is the unit of its values. With a sum
//! comes the number of values of the message.
pub mod ffi {
    use std::collections::BTreeMap;
    use std::sync::Mutex;
    #[derive(Debug, Clone, PartialEq)]
    pub struct RtBotMessage {
        pub timestamp: u64,
        pub values: Vec<f64>,
    }
    pub struct Alive {
        pub kind: String,
        pub last: Option<u64>,
        pub sum: f64,
        pub unit: f64,
    }
    pub static ENGINE: Mutex<BTreeMap<String, Alive>> = Mutex::new(BTreeMap::new());
    pub static WRONG: Mutex<Vec<String>> = Mutex::new(Vec::new());
    fn wrong(what: String) {
        WRONG.lock().unwrap().push(what);
    }
    pub fn create_pipeline(id: String, program: String) -> String {
        let mut e = ENGINE.lock().unwrap();
        if e.contains_key(&id) {
            wrong(format!("id {} is taken", id));
            return "taken".into();
        }
        if program.contains("refused") {
            return "no such program".into();
        }
        let kind = ["even", "twice", "raw"].iter().find(|k| program.contains(*k)).unwrap_or(&"sum").to_string();
        let unit = program.split("unit=").nth(1).and_then(|x| x.split('"').next()).and_then(|x| x.parse().ok()).unwrap_or(1.0);
        e.insert(id, Alive { kind, last: None, sum: 0.0, unit });
        "".into()
    }
    pub fn delete_pipeline(id: String) -> String {
        if ENGINE.lock().unwrap().remove(&id).is_none() {
            wrong(format!("deletion of {}, which is not there", id));
            return "unknown".into();
        }
        "".into()
    }
    pub fn receive_message_in_pipeline(id: String, message: RtBotMessage) -> Vec<RtBotMessage> {
        let mut e = ENGINE.lock().unwrap();
        match e.get_mut(&id) {
            None => {
                wrong(format!("message to {}, which is not there", id));
                vec![]
            }
            Some(p) => {
                if p.kind != "raw" && p.last.map_or(false, |l| message.timestamp <= l) {
                    return vec![];
                }
                p.last = Some(message.timestamp);
                p.sum += message.values.iter().sum::<f64>();
                let n = message.values.len() as f64;
                if p.kind == "even" && (p.sum / p.unit) % 2.0 != 0.0 {
                    return vec![];
                }
                let mut said = vec![RtBotMessage { timestamp: message.timestamp, values: vec![p.sum, n] }];
                if p.kind == "twice" {
                    said.push(RtBotMessage { timestamp: message.timestamp, values: vec![2.0 * p.sum, n] });
                }
                said
            }
        }
    }
}
