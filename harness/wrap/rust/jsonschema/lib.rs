//! Stand-in for jsonschema: what the schema of the redis module uses.
use serde_json::Value;
pub struct ValidationError {
    what: String,
    pub instance_path: String,
}
impl std::fmt::Display for ValidationError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.what)
    }
}
impl std::fmt::Debug for ValidationError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.what)
    }
}
pub struct JSONSchema {
    schema: Value,
}
impl JSONSchema {
    pub fn compile(schema: &Value) -> Result<JSONSchema, ValidationError> {
        Ok(JSONSchema { schema: schema.clone() })
    }
    pub fn validate(&self, v: &Value) -> Result<(), std::vec::IntoIter<ValidationError>> {
        let mut es = vec![];
        check(&self.schema, v, "", &mut es);
        if es.is_empty() { Ok(()) } else { Err(es.into_iter()) }
    }
    pub fn is_valid(&self, v: &Value) -> bool {
        self.validate(v).is_ok()
    }
}
fn check(s: &Value, v: &Value, path: &str, es: &mut Vec<ValidationError>) {
    let mut no = |what: String| es.push(ValidationError { what, instance_path: path.to_string() });
    if let Some(t) = s["type"].as_str() {
        let ok = match t {
            "object" => v.is_object(),
            "array" => v.is_array(),
            "string" => v.is_string(),
            "number" => v.is_number(),
            "integer" => v.is_i64() || v.is_u64(),
            "boolean" => v.is_boolean(),
            _ => true,
        };
        if !ok {
            no(format!("not of type {}", t));
            return;
        }
    }
    if let Some(xs) = s["enum"].as_array() {
        if !xs.contains(v) {
            no("not in enum".to_string());
        }
    }
    if let (Some(rs), Some(o)) = (s["required"].as_array(), v.as_object()) {
        for r in rs {
            if !o.contains_key(r.as_str().unwrap()) {
                no(format!("{} is required", r));
            }
        }
    }
    if let Some(o) = v.as_object() {
        for (k, x) in o {
            if !s["properties"][k].is_null() {
                check(&s["properties"][k], x, &format!("{}/{}", path, k), es);
            } else if s["additionalProperties"] == Value::Bool(false) {
                es.push(ValidationError { what: format!("unexpected {}", k), instance_path: path.to_string() });
            }
        }
    }
    if let (Some(a), true) = (v.as_array(), s["items"].is_object()) {
        for (i, x) in a.iter().enumerate() {
            check(&s["items"], x, &format!("{}/{}", path, i), es);
        }
    }
}
