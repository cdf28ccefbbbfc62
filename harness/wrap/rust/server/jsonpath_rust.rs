//! Stand-in for paths in json: $.a.b
use serde_json::Value;
pub struct JsonPathFinder(Value, Vec<String>);
impl JsonPathFinder {
    pub fn from_str(json: &str, path: &str) -> Result<Self, String> {
        let j = serde_json::from_str(json).map_err(|e| e.to_string())?;
        let p = path.strip_prefix("$").ok_or("no path")?;
        Ok(JsonPathFinder(j, p.split('.').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()))
    }
    /// the values found, in a list; what there is when there are none depends on the version of the crate
    pub fn find(&self) -> Value {
        let mut v = &self.0;
        for k in &self.1 {
            match v.get(k) {
                Some(x) => v = x,
                None => return if world::world(|w| w.job["null"].as_bool().unwrap_or(false)) { Value::Null } else { Value::Array(vec![]) },
            }
        }
        Value::Array(vec![v.clone()])
    }
}
