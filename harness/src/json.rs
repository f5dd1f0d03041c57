//! Just enough JSON output.
pub fn s(x: &str) -> String {
    let mut o = String::from("\"");
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn arr(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}
pub fn obj(v: &[(&str, String)]) -> String {
    format!("{{{}}}", v.iter().map(|(k, x)| format!("{}:{}", s(k), x)).collect::<Vec<_>>().join(","))
}
