//! Output: the saved stdout, evidence, replay files and the known-findings list.
use std::fs;
use std::io::Write;
use std::os::unix::io::FromRawFd;
use std::path::PathBuf;
use std::sync::Mutex;

pub static OUT: Mutex<Option<fs::File>> = Mutex::new(None);

/// The program under test prints to stdout; keep it out of the way.
pub fn redirect() {
    unsafe {
        let saved = libc::dup(1);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(null, 1);
        *OUT.lock().unwrap() = Some(fs::File::from_raw_fd(saved));
    }
}
pub fn say(s: &str) {
    let mut g = OUT.lock().unwrap();
    match g.as_mut() {
        Some(f) => {
            let _ = writeln!(f, "{s}");
            let _ = f.flush();
        }
        None => println!("{s}"),
    }
}
pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}
pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "))
}

/// One violation, ready to be reported.
#[derive(Clone, Debug)]
pub struct Report {
    /// scenario or matrix the case belongs to
    pub group: String,
    /// operation path (scenarios) or a single case label (matrices)
    pub path: Vec<u16>,
    pub trace: Vec<String>,
    pub what: String,
}
impl Report {
    /// identifies the failing history; what the known-findings file lists
    pub fn key(&self) -> String {
        format!("{}|{}", self.group, self.trace.join(";"))
    }
}
pub fn known(property: &str) -> Vec<String> {
    let s = fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| l.strip_prefix(&format!("property={property} key=")))
        .map(|l| l.split(" :: ").next().unwrap_or(l).trim().to_string())
        .collect()
}

/// Small reader for the replay files written below.
pub fn field(j: &str, name: &str) -> Option<String> {
    let i = j.find(&format!("\"{name}\":"))? + name.len() + 3;
    let r = j[i..].trim_start();
    if let Some(q) = r.strip_prefix('"') {
        let mut o = String::new();
        let mut it = q.chars();
        while let Some(c) = it.next() {
            match c {
                '"' => return Some(o),
                '\\' => match it.next()? {
                    'n' => o.push('\n'),
                    't' => o.push('\t'),
                    'u' => {
                        for _ in 0..4 {
                            it.next();
                        }
                    }
                    c => o.push(c),
                },
                c => o.push(c),
            }
        }
        None
    } else {
        let e = r.find(|c| c == ']' || c == '\n').map(|e| if r.as_bytes()[e] == b']' { e + 1 } else { e })?;
        Some(r[..e].trim_end_matches(',').to_string())
    }
}
pub fn write_replay(property: &str, tier: &str, i: usize, r: &Report) -> PathBuf {
    let dir = root().join("evidence").join("replay");
    let _ = fs::create_dir_all(&dir);
    let p = dir.join(format!("{property}-{i}.json"));
    let path = format!("[{}]", r.path.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    let j = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"group\": {},\n \"path\": {},\n \"trace\": {},\n \"what\": {},\n \"rerun\": {}\n}}\n",
        esc(property),
        esc(tier),
        esc(&r.group),
        path,
        list(&r.trace),
        esc(&r.what),
        esc(&format!("/verif/check.sh replay {}", p.display()))
    );
    let _ = fs::write(&p, j);
    p
}
