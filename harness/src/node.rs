//! A node process that answers one JSON line with another.
use serde_json::Value;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::sync::atomic::{AtomicU32, Ordering};
use std::time::Duration;

/// how often an answer did not come: after a few there is no use in waiting again
static SILENT: AtomicU32 = AtomicU32::new(0);

pub struct Node {
    child: Child,
    stdin: ChildStdin,
    lines: Receiver<String>,
}
impl Node {
    pub fn start(script: &str, arg: &str) -> Node {
        let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let mut child = Command::new("node").arg(format!("{dir}/{script}")).arg(arg).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::inherit()).spawn().expect("node");
        let stdin = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let (tx, lines) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines().map_while(Result::ok) {
                if tx.send(l).is_err() {
                    break;
                }
            }
        });
        Node { child, stdin, lines }
    }
    /// `None` if there is no answer within 100 s or the process died.
    pub fn ask(&mut self, m: &Value) -> Option<Value> {
        let mut l = m.to_string();
        l.push('\n');
        self.stdin.write_all(l.as_bytes()).ok()?;
        let wait = if SILENT.load(Ordering::Relaxed) < 2 { 100 } else { 5 };
        let l = match self.lines.recv_timeout(Duration::from_secs(wait)) {
            Ok(l) => l,
            Err(e) => {
                if e == RecvTimeoutError::Timeout {
                    SILENT.fetch_add(1, Ordering::Relaxed);
                }
                return None;
            }
        };
        Some(serde_json::from_str(&l).expect("an answer in JSON"))
    }
}
impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
