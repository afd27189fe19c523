//! The universe of items used by dynamically composed codecs.
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Value {
    Unit,
    U(u64),
    I(i64),
    /// Bit pattern of a float.
    F(u64),
    Bytes(Vec<u8>),
    Str(String),
    List(Vec<Value>),
    Opt(Option<Box<Value>>),
    Sum(usize, Box<Value>),
    Mapped(Box<Value>),
    Json(Box<Doc>),
    Bin(Box<BDoc>),
}
impl Value {
    pub fn list(self) -> Vec<Value> {
        match self {
            Value::List(v) => v,
            v => panic!("HARNESS: not a list: {:?}", v),
        }
    }
    pub fn u(&self) -> u64 {
        match self {
            Value::U(n) => *n,
            v => panic!("HARNESS: not a number: {:?}", v),
        }
    }
    pub fn bytes(self) -> Vec<u8> {
        match self {
            Value::Bytes(b) => b,
            v => panic!("HARNESS: not bytes: {:?}", v),
        }
    }
    pub fn str(self) -> String {
        match self {
            Value::Str(b) => b,
            v => panic!("HARNESS: not a string: {:?}", v),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Doc {
    pub a: u32,
    pub b: String,
    pub c: Vec<i16>,
    pub d: Option<bool>,
    pub m: BTreeMap<String, u8>,
    pub n: Option<Box<Doc>>,
}
/// No strings and maps: bincode 1.x allocates what a claimed string length says (see known findings).
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct BDoc {
    pub a: u32,
    pub c: Vec<i16>,
    pub d: Option<bool>,
    pub e: (u8, i64),
    pub f: Vec<Vec<u8>>,
}
