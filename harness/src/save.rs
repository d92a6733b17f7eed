//! save_to_file under faults. Every path lives in a scratch directory that the
//! orchestrator creates and removes; file size limits apply to a child process.
use layout::core::utils::save_to_file;
use serde_json::{json, Value};
use std::fs;
use std::path::Path;

/// `n` bytes that no other step writes: plain lines, wide characters, lines
/// that end in both ways, or a drawing. How it begins and ends differs as well.
fn content(n: usize, tag: &str, kind: u64) -> String {
    let unit = match kind % 5 {
        0 => format!("{}0\n", tag),
        1 => format!("\u{e9}\u{4e2d}{}\u{1f600}", tag),
        2 => format!("{}\r\n\r\n\t \n", tag),
        3 => format!("<g id=\"{}\">&amp;</g>\0", tag),
        _ => format!("{}  ", tag),
    };
    let last = ["\n", "x", " ", "\n\n", "\u{e9}", "</svg>", "\r\n", "\0", "\\", "\""][(kind / 5) as usize % 10];
    let first = ["", "\u{feff}", "<?xml version=\"1.0\"?>\n", "\n", " "][(kind / 50) as usize % 5];
    let mut s = String::with_capacity(n + tag.len());
    if first.len() + last.len() <= n {
        s.push_str(first);
    }
    while s.len() + unit.len() + last.len() <= n {
        s.push_str(&unit);
    }
    while s.len() + last.len() < n {
        s.push('.');
    }
    if s.len() + last.len() == n {
        s.push_str(last);
    }
    while s.len() < n {
        s.push('!');
    }
    s
}

/// Every file below the directory.
fn listing(dir: &Path, at: &str, out: &mut Vec<String>) {
    for e in fs::read_dir(dir).unwrap() {
        let e = e.unwrap();
        let name = format!("{}{}", at, e.file_name().to_string_lossy());
        if e.file_type().unwrap().is_dir() {
            listing(&e.path(), &format!("{}/", name), out);
        }
        out.push(name);
    }
}

fn describe(path: &Path, new: &str, old: &[u8]) -> &'static str {
    match fs::read(path) {
        Err(_) => "none",
        Ok(b) => {
            if b == new.as_bytes() {
                "new"
            } else if b.is_empty() {
                "empty"
            } else if b == old {
                "old"
            } else if new.as_bytes().starts_with(&b) {
                "prefix"
            } else {
                "mixed"
            }
        }
    }
}

/// A history of saves to a few targets. Each step: {"t":target,"n":bytes,
/// "limit":bytes or -1}; target kinds: file, missing (directory does not
/// exist), dir (path is a directory), full (/dev/full), ro (may not be written).
pub fn save(case: &Value) -> Value {
    let dir = Path::new(case["scratch"].as_str().unwrap()).join(format!("c{}", case["id"]));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(dir.join("d")).unwrap();
    let mut steps = Vec::new();
    let mut before = Vec::new();
    let mut prev: std::collections::HashMap<String, Vec<u8>> = Default::default();
    let name = |t: &str| case["names"][t].as_str().unwrap().to_string();
    // Files that have nothing to do with the saves, with telling names.
    for t in ["a", "b"] {
        for more in [".tmp", "~", ".bak", ".new", ".part", ".old", ".lock"] {
            let f = format!("{}{}", name(t), more);
            if f.len() < 200 {
                fs::write(dir.join(&f), "bystander").unwrap();
                prev.insert(format!("={}", f), b"bystander".to_vec());
            }
        }
    }
    // A file that the user may read but not write, in a directory of the user.
    fs::write(dir.join(name("ro")), "keep").unwrap();
    prev.insert("ro".to_string(), b"keep".to_vec());
    unsafe {
        for (p, mode) in [(dir.clone(), 0o755), (dir.join("d"), 0o755), (dir.join(name("ro")), 0o444)] {
            let c = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
            if libc::geteuid() == 0 {
                libc::chown(c.as_ptr(), 65534, 65534);
            }
            libc::chmod(c.as_ptr(), mode);
        }
    }
    listing(&dir, "", &mut before);
    for (i, s) in case["ops"].as_array().unwrap().iter().enumerate() {
        let t = s["t"].as_str().unwrap();
        let path = match t {
            "missing" => dir.join("nowhere").join("x.svg"),
            "dir" => dir.join("d"),
            "full" => Path::new("/dev/full").to_path_buf(),
            "empty" => Path::new("").to_path_buf(),
            f => dir.join(name(f)),
        };
        let n = s["n"].as_u64().unwrap() as usize;
        let limit = s["limit"].as_i64().unwrap_or(-1);
        let mut new = content(n, &format!("{}-{};", t, i), s["k"].as_u64().unwrap_or(0));
        let old = prev.get(t).cloned().unwrap_or_default();
        if s["like"] == true && old.len() >= 3 && old.len() == n {
            // All but the same: only a character in the middle is another one.
            if let Ok(mut same) = String::from_utf8(old.clone()) {
                let mut at = n / 2;
                while !(same.is_char_boundary(at) && same.as_bytes()[at] < 128) && at > 0 {
                    at -= 1;
                }
                if same.as_bytes()[at] < 128 {
                    let c = if same.as_bytes()[at] == b'#' { "+" } else { "#" };
                    same.replace_range(at..at + 1, c);
                    new = same;
                }
            }
        }
        let rel = s["rel"].as_bool().unwrap_or(false) && path.starts_with(&dir);
        let p = if rel { path.strip_prefix(&dir).unwrap() } else { &path }.to_str().unwrap().to_string();
        // Run the call in a child, so a limit or a signal touches only it.
        let ok;
        unsafe {
            let pid = libc::fork();
            if pid == 0 {
                // The call under test runs as a user who owns nothing but
                // the scratch directory.
                if libc::geteuid() == 0 {
                    libc::setgroups(0, std::ptr::null());
                    if libc::setgid(65534) != 0 || libc::setuid(65534) != 0 {
                        libc::_exit(9);
                    }
                }
                if rel {
                    std::env::set_current_dir(&dir).unwrap();
                }
                if limit >= 0 {
                    libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                    let l = libc::rlimit { rlim_cur: limit as u64, rlim_max: limit as u64 };
                    libc::setrlimit(libc::RLIMIT_FSIZE, &l);
                }
                let r = std::panic::catch_unwind(|| save_to_file(&p, &new).is_ok());
                libc::_exit(match r {
                    Ok(true) => 0,
                    Ok(false) => 1,
                    Err(_) => 2,
                });
            }
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            ok = if libc::WIFEXITED(st) {
                match libc::WEXITSTATUS(st) {
                    0 => "ok",
                    1 => "err",
                    9 => "nouser",
                    _ => "panic",
                }
            } else {
                "killed"
            };
        }
        let regular = !matches!(t, "missing" | "dir" | "full" | "empty");
        // The other targets hold what they held.
        let kept: Vec<bool> = prev
            .iter()
            .filter(|(k, _)| *k != t)
            .map(|(k, v)| {
                let f = dir.join(k.strip_prefix('=').map(String::from).unwrap_or_else(|| name(k)));
                fs::read(f).map(|b| b == *v).unwrap_or(v.is_empty())
            })
            .collect();
        let after = if regular { describe(&path, &new, &old) } else { "na" };
        if regular {
            prev.insert(t.to_string(), fs::read(&path).unwrap_or_default());
        }
        // Everything the step may have touched: the files in the directory.
        let mut others = Vec::new();
        listing(&dir, "", &mut others);
        others.sort();
        steps.push(json!({"res":ok,"after":after,"files":others,"kept":kept}));
    }
    let _ = fs::remove_dir_all(&dir);
    json!({ "steps": steps, "before": before })
}
