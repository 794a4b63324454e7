//! The executor: runs the real compiler in-process, one JSON request per line on stdin, one JSON
//! answer per line on stdout.  It follows src/main.rs step by step (arguments -> compiler ->
//! compile -> target -> backup -> write) and reports how each step ended, catching panics, so that
//! monitors outside can judge what came out.
use clap::Parser;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

static LAST_PANIC: Mutex<Vec<String>> = Mutex::new(Vec::new());

fn take_panics() -> Vec<String> {
    std::mem::take(&mut *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()))
}

fn strs(v: &Value) -> Vec<String> {
    v.as_array()
        .map(|a| a.iter().map(|s| s.as_str().unwrap_or("").to_string()).collect())
        .unwrap_or_default()
}

/// Do what `main` does, for the given command line
fn compile_and_write(argv: &[String], stage: &Mutex<&'static str>) -> Result<(), String> {
    let set = |s: &'static str| *stage.lock().unwrap_or_else(|e| e.into_inner()) = s;
    set("args");
    let args = csvpp::CliArgs::try_parse_from(argv).map_err(|e| e.to_string())?;
    let compiler = csvpp::Compiler::try_from(&args).map_err(|e| e.to_string())?;
    set("compile");
    let module = compiler.compile().map_err(|e| e.to_string())?;
    set("target");
    let target = compiler.target().map_err(|e| e.to_string())?;
    if args.backup {
        set("backup");
        target.write_backup().map_err(|e| e.to_string())?;
    }
    set("write");
    target.write(&module).map_err(|e| e.to_string())?;
    set("done");
    Ok(())
}

fn op_run(req: &Value) -> Value {
    if let Some(d) = req["cwd"].as_str() {
        if let Err(e) = std::env::set_current_dir(d) {
            return json!({"harness_error": format!("chdir {d}: {e}")});
        }
    }
    let mut argv = vec!["csvpp".to_string()];
    argv.extend(strs(&req["argv"]));
    let stage = Mutex::new("start");
    take_panics();
    let r = catch_unwind(AssertUnwindSafe(|| compile_and_write(&argv, &stage)));
    let at = *stage.lock().unwrap_or_else(|e| e.into_inner());
    match r {
        Ok(Ok(())) => json!({"ok": true, "stage": at, "panics": take_panics()}),
        Ok(Err(e)) => json!({"ok": false, "stage": at, "error": e, "panics": take_panics()}),
        Err(_) => json!({"ok": false, "stage": at, "panic": true, "panics": take_panics()}),
    }
}

/// Several command lines at once, each on its own thread, in one process
fn op_par(req: &Value) -> Value {
    let reqs: Vec<Value> = req["runs"].as_array().cloned().unwrap_or_default();
    let n = reqs.len();
    let barrier = std::sync::Arc::new(std::sync::Barrier::new(n.max(1)));
    let hs: Vec<_> = reqs
        .into_iter()
        .map(|r| {
            let b = barrier.clone();
            std::thread::spawn(move || {
                b.wait();
                op_run(&r)
            })
        })
        .collect();
    Value::Array(
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| json!({"harness_error": "thread"})))
            .collect(),
    )
}

#[allow(clippy::needless_update)]
fn op_csvp(req: &Value) -> Value {
    let sep = req["sep"].as_str().and_then(|s| s.chars().next()).unwrap_or(',');
    let config = csvp::Config {
        separator: sep,
        lines_above: req["above"].as_u64().unwrap_or(0) as usize,
        ..csvp::Config::default()
    };
    let input = req["input"].as_str().unwrap_or("");
    take_panics();
    let r = catch_unwind(AssertUnwindSafe(|| csvp::parse(input, &config)));
    match r {
        Err(_) => json!({"panic": true, "panics": take_panics()}),
        #[allow(unreachable_patterns)]
        Ok(Err(e)) => match &e {
            csvp::Error::ParseError { message, position, .. } => {
                json!({"error": message, "at": [position.line_offset, position.line_number]})
            }
            _ => json!({"error": format!("{e:?}"), "at": null}),
        },
        Ok(Ok(recs)) => {
            let rows: Vec<Value> = recs
                .iter()
                .map(|r| {
                    Value::Array(
                        r.iter()
                            .map(|f| {
                                let pos: Vec<Value> = f
                                    .positions
                                    .iter()
                                    .map(|p| json!([p.line_offset, p.line_number]))
                                    .collect();
                                json!({"v": f.value, "x": f.address.column.x, "y": f.address.row.y, "p": pos})
                            })
                            .collect(),
                    )
                })
                .collect();
            json!({"records": rows})
        }
    }
}

fn main() {
    colored::control::set_override(false);
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| (*s).to_string()))
            .unwrap_or_default();
        let m: String = msg.chars().take(300).collect();
        LAST_PANIC
            .lock()
            .unwrap_or_else(|e| e.into_inner())
            .push(format!("{m} @ {loc}"));
    }));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let req: Value = match serde_json::from_str(&line) {
            Ok(v) => v,
            Err(e) => {
                println!("{}", json!({"harness_error": e.to_string()}));
                continue;
            }
        };
        let ans = match req["op"].as_str().unwrap_or("") {
            "run" => op_run(&req),
            "par" => op_par(&req),
            "csvp" => op_csvp(&req),
            "ping" => json!({"pong": true}),
            o => json!({"harness_error": format!("unknown op {o}")}),
        };
        let mut o = stdout.lock();
        let _ = writeln!(o, "{ans}");
        let _ = o.flush();
    }
}
