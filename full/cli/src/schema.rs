//! W10 the published schema of the configuration file, and what is accepted

use std::collections::BTreeSet;
use std::sync::OnceLock;

use mc::{Check, Ctx, Tier, Verdict, ensure};
use serde_json::{Value, json};

use crate::toml::{Case, KEYS, Toml, document};

pub struct Schema;

fn schema() -> &'static Value {
    static SCHEMA: OnceLock<Value> = OnceLock::new();
    SCHEMA.get_or_init(|| {
        let text = std::fs::read_to_string("/repo/artifacts/air.schema.json").expect("schema");
        serde_json::from_str(&text).expect("schema")
    })
}

fn to_json(value: &::toml::Value) -> Value {
    match value {
        ::toml::Value::String(s) => json!(s),
        ::toml::Value::Integer(n) => json!(n),
        // `1.0` is not an integer in TOML
        ::toml::Value::Float(x) => json!({ "$float": x.to_string() }),
        ::toml::Value::Boolean(b) => json!(b),
        ::toml::Value::Datetime(d) => json!({ "$datetime": d.to_string() }),
        ::toml::Value::Array(all) => all.iter().map(to_json).collect(),
        ::toml::Value::Table(all) => Value::Object(all.iter().map(|(k, v)| (k.clone(), to_json(v))).collect()),
    }
}

fn is_type(name: &str, value: &Value) -> bool {
    match name {
        "object" => value.as_object().is_some_and(|o| !o.contains_key("$float") && !o.contains_key("$datetime")),
        "array" => value.is_array(),
        "string" => value.is_string(),
        "boolean" => value.is_boolean(),
        "null" => value.is_null(),
        "integer" => value.is_i64() || value.is_u64(),
        "number" => value.is_number() || value.get("$float").is_some(),
        _ => panic!("type {name} in the schema"),
    }
}

/// JSON Schema, as far as it is used. Panics for what is not known: no answer rather than a wrong one.
fn accepts(schema: &Value, root: &Value, value: &Value) -> bool {
    let schema = match schema {
        Value::Bool(all) => return *all,
        Value::Object(schema) => schema,
        _ => panic!("not a schema: {schema}"),
    };
    schema.iter().all(|(keyword, s)| match keyword.as_str() {
        "$schema" | "$id" | "$defs" | "$comment" | "title" | "description" | "format" | "default" | "examples" | "deprecated" => true,
        "$ref" => {
            let path = s.as_str().and_then(|r| r.strip_prefix('#')).expect("reference");
            accepts(root.pointer(path).unwrap_or_else(|| panic!("{path} is not in the schema")), root, value)
        }
        "type" => match s {
            Value::Array(all) => all.iter().any(|t| is_type(t.as_str().unwrap(), value)),
            t => is_type(t.as_str().unwrap(), value),
        },
        "const" => s == value,
        "enum" => s.as_array().unwrap().contains(value),
        "anyOf" => s.as_array().unwrap().iter().any(|s| accepts(s, root, value)),
        "allOf" => s.as_array().unwrap().iter().all(|s| accepts(s, root, value)),
        "oneOf" => s.as_array().unwrap().iter().filter(|s| accepts(s, root, value)).count() == 1,
        "not" => !accepts(s, root, value),
        "minimum" => value.as_i64().is_none_or(|n| n >= s.as_i64().unwrap()),
        "maximum" => value.as_i64().is_none_or(|n| n <= s.as_i64().unwrap()),
        "exclusiveMinimum" => value.as_i64().is_none_or(|n| n > s.as_i64().unwrap()),
        "exclusiveMaximum" => value.as_i64().is_none_or(|n| n < s.as_i64().unwrap()),
        "minLength" => value.as_str().is_none_or(|t| t.chars().count() as u64 >= s.as_u64().unwrap()),
        "minItems" => value.as_array().is_none_or(|a| a.len() as u64 >= s.as_u64().unwrap()),
        "maxItems" => value.as_array().is_none_or(|a| a.len() as u64 <= s.as_u64().unwrap()),
        "uniqueItems" => s != &json!(true) || value.as_array().is_none_or(|a| a.iter().map(|v| v.to_string()).collect::<BTreeSet<_>>().len() == a.len()),
        "items" => value.as_array().is_none_or(|a| a.iter().all(|v| accepts(s, root, v))),
        "required" => value.as_object().is_none_or(|o| s.as_array().unwrap().iter().all(|k| o.contains_key(k.as_str().unwrap()))),
        "properties" => value.as_object().is_none_or(|o| s.as_object().unwrap().iter().all(|(k, s)| o.get(k).is_none_or(|v| accepts(s, root, v)))),
        "additionalProperties" => value.as_object().is_none_or(|o| {
            let known = schema.get("properties").and_then(|p| p.as_object());
            o.iter().all(|(k, v)| known.is_some_and(|p| p.contains_key(k)) || accepts(s, root, v))
        }),
        _ => panic!("keyword {keyword} in the schema"),
    })
}

impl Check for Schema {
    type Case = Case;
    fn id(&self) -> &'static str {
        "W10"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!("{}; besides, every integer up to 70000 as each of the numbers", Toml.bounds(tier))
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the syntax of exclude patterns is not part of the schema; editors take floats and dates for what they are in TOML".into()]
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Case)) {
        Toml.explore(tier, emit);
        for key in 0..KEYS.len() {
            let dense = if KEYS[key].contains("width") { 70_000 } else { 30 };
            for n in -300..=dense {
                emit(Case::Document { text: format!("[format]\n{} = {n}\n", KEYS[key]), valid: true });
            }
        }
    }
    fn judge(&self, case: &Case, ctx: &mut Ctx) -> Verdict {
        let text = match case {
            Case::Options { options, form } => match document(options, *form) {
                Some(text) => text,
                None => return Ok(()),
            },
            Case::Document { text, .. } => text.clone(),
        };
        ctx.step(1);
        ctx.state(&text);
        let Ok(table) = text.parse::<::toml::Table>() else {
            // Editors do not get as far as the schema
            ensure!(workspace::toml::parse_air_inline_toml(&text).is_err(), "accepts {text:?}, which is not TOML");
            ctx.outcome("not TOML");
            return Ok(());
        };
        let valid = accepts(schema(), schema(), &to_json(&::toml::Value::Table(table)));
        let got = workspace::toml::parse_air_inline_toml(&text);
        match (valid, &got) {
            (true, Err(error)) => return Err(format!("the schema allows {text:?}, but: {error}").into()),
            (false, Ok(_)) => return Err(format!("{text:?} is accepted, but the schema does not allow it").into()),
            _ => {}
        }
        ctx.outcome(if valid { "valid" } else { "invalid" });
        Ok(())
    }
}
