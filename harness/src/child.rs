//! Long-lived helper processes that answer one line per line.

use crate::engine::Fail;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::Duration;

/// Processor seconds after which one answer counts as not coming. Answers take milliseconds.
const CPU_LIMIT: f64 = 60.0;
/// Waiting longer than this without that much work says nothing about the code.
const WALL_LIMIT: u32 = 240;

struct Served {
    child: Child,
    stdin: ChildStdin,
    answers: Receiver<String>,
    answered: u32,
}

impl Drop for Served {
    fn drop(&mut self) {
        self.child.kill().ok();
        self.child.wait().ok();
    }
}

thread_local!(static SERVED: RefCell<BTreeMap<&'static str, Served>> = const { RefCell::new(BTreeMap::new()) });

/// Lets the helper of that name be started anew after so many answers.
pub fn renew(name: &str, after: u32) {
    SERVED.with(|s| s.borrow_mut().retain(|n, c| *n != name || c.answered < after));
}

/// Sends one line to the helper of that name, starting it when needed.
/// A helper that ends instead of answering is a failure with the signature `NAME-died`.
pub fn ask(name: &'static str, line: &str, command: impl Fn() -> Command) -> Result<String, Fail> {
    SERVED.with(|s| {
        let mut s = s.borrow_mut();
        if !s.contains_key(name) {
            let mut child = command()
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .map_err(|e| Fail::new("harness:child", format!("cannot start {name}: {e}")))?;
            let stdin = child.stdin.take().expect("piped");
            let mut stdout = BufReader::new(child.stdout.take().expect("piped"));
            let (tx, answers) = channel();
            std::thread::spawn(move || loop {
                let mut t = String::new();
                if !matches!(stdout.read_line(&mut t), Ok(n) if n > 0) || tx.send(t).is_err() {
                    break;
                }
            });
            s.insert(name, Served { child, stdin, answers, answered: 0 });
        }
        let c = s.get_mut(name).expect("inserted");
        let short = || line.chars().take(1000).collect::<String>();
        let before = cpu_seconds(c.child.id());
        let (mut t, mut ended) = (None, false);
        if writeln!(c.stdin, "{line}").and_then(|_| c.stdin.flush()).is_ok() {
            for _ in 0..WALL_LIMIT {
                match c.answers.recv_timeout(Duration::from_secs(1)) {
                    Ok(x) => {
                        t = Some(x);
                        break;
                    }
                    Err(RecvTimeoutError::Disconnected) => {
                        ended = true;
                        break;
                    }
                    Err(RecvTimeoutError::Timeout) if cpu_seconds(c.child.id()) - before > CPU_LIMIT => {
                        s.remove(name);
                        return Err(Fail::new(format!("{name}-hangs"), format!("{name} works for more than {CPU_LIMIT} s on {}", short())));
                    }
                    Err(RecvTimeoutError::Timeout) => {}
                }
            }
            if t.is_none() && !ended {
                s.remove(name);
                return Err(Fail::new("harness:child", format!("{name} does not answer within {WALL_LIMIT} s")));
            }
        }
        let Some(mut t) = t else {
            s.remove(name);
            return Err(Fail::new(format!("{name}-died"), format!("{name} ends on {}", short())));
        };
        c.answered += 1;
        t.truncate(t.trim_end_matches('\n').len());
        Ok(t)
    })
}

fn cpu_seconds(pid: u32) -> f64 {
    let stat = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let after = stat.rsplit(") ").next().unwrap_or_default();
    let f: Vec<f64> = after.split(' ').skip(11).take(2).filter_map(|x| x.parse().ok()).collect();
    f.iter().sum::<f64>() / 100.0
}
