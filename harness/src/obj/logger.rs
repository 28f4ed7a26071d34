//! A logger on its own.
use super::*;
use crate::core::{civil, now_sec};
use node_tree::prelude::*;
use node_tree::structs::logger::{Logger, SystemCall};

pub fn level<'a>(l: &str, m: &'a str) -> Log<'a> {
    match l { "D" => Log::Debug(m), "I" => Log::Info(m), "W" => Log::Warn(m), _ => Log::Panic(m) }
}
pub fn verbosity(v: &str) -> LoggerVerbosity {
    match v { "All" => LoggerVerbosity::All, "NoDebug" => LoggerVerbosity::NoDebug, "OnlyIssues" => LoggerVerbosity::OnlyIssues, _ => LoggerVerbosity::OnlyPanics }
}

/// Replaces the time, where it is one of this moment, by a mark.
fn untimed(text: &str, from: u64, to: u64) -> String {
    for t in from..=to {
        let w = format!("<{} UTC>", civil(t));
        if let Some(rest) = text.strip_prefix(&w) { return format!("<T>{rest}"); }
    }
    text.to_string()
}

pub fn run(rec: &mut Rec, start: &Value, ops: &[Value]) {
    let t0 = now_sec();
    let mut l = Logger::new(verbosity(s(start, "v")));
    let mut seen = l.to_str().len();
    rec.put(json!({ "e": "op", "op": "look", "got": "ok", "o": untimed(l.to_str(), t0, now_sec()) }));
    for op in ops {
        let t = now_sec();
        let got = guarded(|| {
            let sys = if s(op, "sys") == "named" { SystemCall::Named(s(op, "from").to_string()) } else { SystemCall::NodePath(s(op, "from").to_string()) };
            let time = l.post_manual(sys, level(s(op, "l"), s(op, "m")));
            json!(untimed(&format!("<{time} UTC>"), t, now_sec()))
        });
        let all = l.to_str();
        let o = if all.is_char_boundary(seen) { untimed(&all[seen..], t, now_sec()) } else { "changed".to_string() };
        seen = all.len();
        rec.put(event(op, json!({ "got": got, "o": o })));
    }
}
