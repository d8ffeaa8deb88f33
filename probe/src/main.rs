//! Runs the library in one feature configuration, answering requests on stdin.
mod ops;
use std::io::{BufRead, Write};

fn main() {
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(|| {
        let out = std::io::stdout();
        for l in std::io::stdin().lock().lines() {
            let Ok(l) = l else { break };
            let a = ops::answer(&l);
            let mut o = out.lock();
            if writeln!(o, "{}", a).and_then(|_| o.flush()).is_err() {
                break;
            }
        }
    });
    let _ = h.unwrap().join();
}
