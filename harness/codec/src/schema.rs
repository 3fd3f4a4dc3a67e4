//! C26: the JSON schema.
use crate::types::Num;
use crate::{cd, ntypes, same, Res};
use fxcore::case::Case;
use fxcore::engine::{call, Cx, Prop};
use fxcore::gen::Gen;
use schemars::gen::SchemaGenerator;
use schemars::JsonSchema;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub struct Schema_;

/// Validates the keywords that a schema of this library may plausibly contain.
pub fn valid(schema: &Value, v: &Value) -> Result<(), String> {
    let o = match schema {
        Value::Bool(true) => return Ok(()),
        Value::Bool(false) => return Err("schema is false".into()),
        Value::Object(o) => o,
        _ => return Err("schema is not an object".into()),
    };
    for (k, s) in o {
        match k.as_str() {
            "type" => {
                let is = |t: &str| match t {
                    "null" => v.is_null(),
                    "boolean" => v.is_boolean(),
                    "object" => v.is_object(),
                    "array" => v.is_array(),
                    "string" => v.is_string(),
                    "number" => v.is_number(),
                    "integer" => v.is_i64() || v.is_u64(),
                    _ => false,
                };
                let ok = match s {
                    Value::String(t) => is(t),
                    Value::Array(a) => a.iter().any(|t| is(t.as_str().unwrap_or(""))),
                    _ => false,
                };
                if !ok {
                    return Err(format!("{} is not of type {}", v, s));
                }
            }
            "anyOf" | "oneOf" => {
                let n = s.as_array().into_iter().flatten().filter(|x| valid(x, v).is_ok()).count();
                if n == 0 || (k == "oneOf" && n > 1) {
                    return Err(format!("{} matches {} alternatives of {}", v, n, k));
                }
            }
            "allOf" => {
                for x in s.as_array().into_iter().flatten() {
                    valid(x, v)?;
                }
            }
            "not" => {
                if valid(s, v).is_ok() {
                    return Err(format!("{} matches 'not'", v));
                }
            }
            "enum" => {
                if !s.as_array().is_some_and(|a| a.contains(v)) {
                    return Err(format!("{} is not in {}", v, s));
                }
            }
            "const" => {
                if s != v {
                    return Err(format!("{} is not {}", v, s));
                }
            }
            "pattern" => {
                if let (Some(p), Some(t)) = (s.as_str(), v.as_str()) {
                    let r = regex::Regex::new(p).map_err(|e| format!("bad pattern: {}", e))?;
                    if !r.is_match(t) {
                        return Err(format!("{} does not match {}", v, p));
                    }
                }
            }
            "minLength" | "maxLength" => {
                if let (Some(n), Some(t)) = (s.as_u64(), v.as_str()) {
                    let l = t.chars().count() as u64;
                    if (k == "minLength" && l < n) || (k == "maxLength" && l > n) {
                        return Err(format!("{} violates {} {}", v, k, n));
                    }
                }
            }
            "minItems" | "maxItems" => {
                if let (Some(n), Some(a)) = (s.as_u64(), v.as_array()) {
                    let l = a.len() as u64;
                    if (k == "minItems" && l < n) || (k == "maxItems" && l > n) {
                        return Err(format!("{} violates {} {}", v, k, n));
                    }
                }
            }
            "items" => {
                for (i, x) in v.as_array().into_iter().flatten().enumerate() {
                    match s {
                        Value::Array(a) => {
                            if let Some(s) = a.get(i) {
                                valid(s, x)?
                            }
                        }
                        s => valid(s, x)?,
                    }
                }
            }
            "additionalProperties" => {
                for x in v.as_object().into_iter().flat_map(|o| o.values()) {
                    valid(s, x)?;
                }
            }
            "minimum" | "maximum" | "exclusiveMinimum" | "exclusiveMaximum" => {
                if let (Some(n), Some(x)) = (s.as_f64(), v.as_f64()) {
                    let ok = match k.as_str() {
                        "minimum" => x >= n,
                        "maximum" => x <= n,
                        "exclusiveMinimum" => x > n,
                        _ => x < n,
                    };
                    if !ok {
                        return Err(format!("{} violates {} {}", v, k, n));
                    }
                }
            }
            "$ref" => return Err("a reference instead of an inlined schema".into()),
            // annotations
            _ => {}
        }
    }
    Ok(())
}

fn inline<T: JsonSchema>() -> (Value, usize) {
    let mut g = SchemaGenerator::default();
    let s = g.subschema_for::<T>();
    (serde_json::to_value(s).expect("harness: schema to json"), g.definitions().len())
}

pub fn check<T: Num>(c: &Case, cx: &mut Cx) -> Res {
    let t = T::TY;
    if c.v.iter().any(|x| !t.has(*x)) {
        return cx.skip();
    }
    cx.nontrivial_if(c.v[0] != 0);
    let (s, defs) = call(|| inline::<T>())?;
    cx.label("values");
    same("definitions", defs, 0)?;
    same("type keyword", s.get("type"), Some(&json!("string")))?;
    let (other, _) = call(|| inline::<fixnum::FixedPoint<i64, fixnum::typenum::U9>>())?;
    same("schema of another type", &other, &s)?;
    same("is_referenceable", <T as JsonSchema>::is_referenceable(), false)?;
    let (list, d1) = call(|| inline::<Vec<T>>())?;
    let (opt, d2) = call(|| inline::<Option<T>>())?;
    let (map, d3) = call(|| inline::<BTreeMap<String, (T, Option<T>)>>())?;
    same("definitions of containers", d1 + d2 + d3, 0)?;
    let root = call(|| serde_json::to_value(SchemaGenerator::default().into_root_schema_for::<T>()).unwrap())?;
    let vals: Vec<T> = c.v.iter().map(|x| T::new(*x)).collect();
    for x in &vals {
        let j = call(|| serde_json::to_value(x).map_err(|e| e.to_string()))??;
        valid(&s, &j)?;
        valid(&root, &j)?;
        valid(&opt, &j)?;
        same("value read back", call(|| serde_json::from_value::<T>(j.clone()).ok())?, Some(*x))?;
    }
    valid(&opt, &call(|| serde_json::to_value(None::<T>).unwrap())?)?;
    valid(&list, &call(|| serde_json::to_value(&vals).unwrap())?)?;
    let mut m = BTreeMap::new();
    m.insert("a".to_string(), (vals[0], None));
    m.insert("b".to_string(), (vals[0], Some(*vals.last().unwrap())));
    valid(&map, &call(|| serde_json::to_value(&m).unwrap())?)?;
    // numbers and other kinds are not values of the schema
    for bad in [json!(1), json!(null), json!([]), json!({}), json!(true)] {
        if valid(&s, &bad).is_ok() {
            return Err(format!("{} is valid under {}", bad, s));
        }
    }
    Ok(())
}

impl Prop for Schema_ {
    fn gen(&self, g: &mut Gen, i: u64) -> Case {
        let ty = (i % ntypes()) as u32;
        let t = cd(ty).ty();
        let n = g.range(1, 6);
        let v: Vec<i128> = (0..n).map(|_| t.val(g)).collect();
        Case::new(ty, 0, &v)
    }
    fn check(&self, c: &Case, cx: &mut Cx) -> Res {
        cd(c.ty).schema(c, cx)
    }
    fn show(&self, c: &Case) -> String {
        format!("{} schema and values raw {:?}", cd(c.ty).name(), c.v)
    }
    fn fixed(&self, shard: u64, shards: u64, _th: bool, f: &mut dyn FnMut(Case) -> bool) {
        for ty in 0..ntypes() as u32 {
            let t = cd(ty).ty();
            if ty as u64 % shards == shard {
                f(Case::new(ty, 0, &[t.max(), t.min(), 0, 1, -1, t.coef()]));
            }
            if t.bits == 16 {
                for x in (t.min()..=t.max() - 7).step_by(8) {
                    if (x / 8).rem_euclid(shards as i128) as u64 == shard && !f(Case::new(ty, 0, &(x..x + 8).collect::<Vec<_>>())) {
                        return;
                    }
                }
            }
        }
    }
    fn cases(&self, th: bool) -> u64 {
        if th {
            20_000_000
        } else {
            1_000_000
        }
    }
    fn rule(&self) -> String {
        "lists of 1..8 values of 15 types (all i16 values): the generated schemas of the type, of lists, options and maps of it are inlined string schemas, equal for all types, and the JSON of the values validates and reads back; non-trivial = first value non-zero".into()
    }
}
