//! A minimal JSON value and writer (no dependencies, deterministic output).
use std::fmt::Write;

pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(&'static str, J)>),
    Map(Vec<(String, J)>),
}

pub fn s(x: impl Into<String>) -> J { J::Str(x.into()) }
pub fn n(x: usize) -> J { J::Int(x as i128) }

impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => { let _ = write!(o, "{i}"); }
            J::Str(x) => esc(x, o),
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } x.write(o); }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(',') } esc(k, o); o.push(':'); x.write(o); }
                o.push('}');
            }
            J::Map(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(',') } esc(k, o); o.push(':'); x.write(o); o.push('\n'); }
                o.push('}');
            }
        }
    }
}

fn esc(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}
