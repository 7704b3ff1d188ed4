use std::fmt::Write;
#[derive(Clone, Debug)]
pub enum J {
    Null,
    B(bool),
    I(i128),
    U(u128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
pub fn s<T: Into<String>>(x: T) -> J { J::S(x.into()) }
pub fn u(x: usize) -> J { J::U(x as u128) }
fn esc(out: &mut String, t: &str) {
    out.push('"');
    for c in t.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(out, "\\u{:04x}", c as u32); }
            c => out.push(c),
        }
    }
    out.push('"');
}
impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => { let _ = write!(o, "{}", i); }
            J::U(i) => { let _ = write!(o, "{}", i); }
            J::S(t) => esc(o, t),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.write(o); }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } esc(o, k); o.push(':'); x.write(o); }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } esc(o, k); o.push(':'); x.write(o); o.push('\n'); }
                o.push('}');
            }
        }
    }
}
