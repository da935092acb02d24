use crate::common::*;
use std::fs::File;
use std::io::Read;
use std::os::fd::{FromRawFd, OwnedFd};
use std::process::{Command, Stdio};

struct Moment {
    cycle: usize,
    evals: i64,
    /// The cycle ended between these, in seconds since the display appeared.
    when: (f64, f64),
    front: Vec<(usize, f64, String)>,
}

struct Truth {
    niterations: usize,
    populations: usize,
    moments: Vec<Moment>,
}

fn read_truth(s: &str) -> Option<Truth> {
    let mut t = Truth { niterations: 0, populations: 0, moments: Vec::new() };
    let mut ended = false;
    for l in s.lines() {
        let mut f = l.split('\t');
        match f.next()? {
            "setup" => {
                t.niterations = f.next()?.parse().ok()?;
                t.populations = f.next()?.parse().ok()?;
            }
            "cycle" => t.moments.push(Moment { cycle: f.next()?.parse().ok()?, evals: f.next()?.parse().ok()?, when: (f.next()?.parse().ok()?, f.next()?.parse().ok()?), front: Vec::new() }),
            "entry" => {
                let c = f.next()?.parse().ok()?;
                let l = f64::from_bits(u64::from_str_radix(f.next()?, 16).ok()?);
                t.moments.last_mut()?.front.push((c, l, f.next()?.to_string()));
            }
            "end" => ended = true,
            _ => return None,
        }
    }
    ended.then_some(t)
}

fn open_terminal(rows: u16, cols: u16) -> std::io::Result<(OwnedFd, OwnedFd)> {
    // SAFETY: plain calls into libc with owned descriptors and a buffer of the stated size.
    unsafe {
        let m = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        if m < 0 {
            return Err(std::io::Error::last_os_error());
        }
        let master = OwnedFd::from_raw_fd(m);
        let mut name = [0 as libc::c_char; 128];
        if libc::grantpt(m) != 0 || libc::unlockpt(m) != 0 || libc::ptsname_r(m, name.as_mut_ptr(), name.len()) != 0 {
            return Err(std::io::Error::last_os_error());
        }
        let s = libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        if s < 0 {
            return Err(std::io::Error::last_os_error());
        }
        let slave = OwnedFd::from_raw_fd(s);
        let ws = libc::winsize { ws_row: rows, ws_col: cols, ws_xpixel: 0, ws_ypixel: 0 };
        if libc::ioctl(s, libc::TIOCSWINSZ, &ws) != 0 {
            return Err(std::io::Error::last_os_error());
        }
        Ok((master, slave))
    }
}

pub fn terminal_works() -> bool {
    open_terminal(24, 80).is_ok()
}

/// A terminal of the given width and endless height: what was on it before every redraw, and in the end.
fn play(bytes: &[u8], cols: usize) -> (Vec<String>, String) {
    let s = String::from_utf8_lossy(bytes);
    let mut grid: Vec<Vec<char>> = vec![vec![' '; cols]];
    let (mut row, mut col) = (0usize, 0usize);
    let mut fresh = false;
    let mut shots = Vec::new();
    let shot = |grid: &Vec<Vec<char>>| {
        let lines: Vec<String> = grid.iter().map(|l| l.iter().collect::<String>().trim_end().to_string()).collect();
        lines.join("\n").trim_end().to_string()
    };
    let mut it = s.chars().peekable();
    while let Some(ch) = it.next() {
        match ch {
            '\u{1b}' if it.peek() == Some(&'[') => {
                it.next();
                let mut arg = String::new();
                let mut last = ' ';
                for c in it.by_ref() {
                    if c.is_ascii_alphabetic() {
                        last = c;
                        break;
                    }
                    arg.push(c);
                }
                let n: usize = arg.parse().unwrap_or(1);
                if fresh && matches!(last, 'A' | 'K' | 'J') {
                    shots.push(shot(&grid));
                    fresh = false;
                }
                match last {
                    'A' => row = row.saturating_sub(n),
                    'B' => row += n,
                    'C' => col = (col + n).min(cols - 1),
                    'D' => col = col.min(cols - 1).saturating_sub(n),
                    'K' => {
                        if let Some(l) = grid.get_mut(row) {
                            let from = if arg == "2" { 0 } else { col.min(cols) };
                            l[from..].fill(' ');
                        }
                    }
                    'J' => grid.truncate(row + 1),
                    _ => {}
                }
            }
            '\r' => col = 0,
            '\n' => row += 1,
            c if c.is_control() => {}
            c => {
                if col >= cols {
                    col = 0;
                    row += 1;
                }
                while grid.len() <= row {
                    grid.push(vec![' '; cols]);
                }
                grid[row][col] = c;
                col += 1;
                fresh = true;
            }
        }
        while grid.len() <= row {
            grid.push(vec![' '; cols]);
        }
    }
    if fresh {
        shots.push(shot(&grid));
    }
    (shots, shot(&grid))
}

struct Frame {
    pos: usize,
    len: usize,
    niterations: usize,
    evals: Option<i64>,
    elapsed: Option<f64>,
    rate: Option<f64>,
    table: Option<Vec<(String, String, String)>>,
    wrapped: usize,
}

/// One drawing of the display, from its bar to the end of its table.
fn read_frame(text: &str) -> Result<Frame, String> {
    let lines: Vec<&str> = text.lines().map(|l| l.trim_end()).filter(|l| !l.is_empty()).collect();
    let head = lines.first().ok_or("no bar")?;
    let rest = head.strip_prefix("Evolving for ").ok_or("no prefix")?;
    let niterations = rest.split(' ').next().and_then(|v| v.parse().ok()).ok_or("no iterations")?;
    let before = head.split(" [").next().unwrap_or("");
    let counts = before.split_whitespace().find(|w| w.contains('/')).map(|w| w.to_string());
    let all: String = before.split_whitespace().last().unwrap_or("").to_string();
    let counts = counts.unwrap_or(all);
    let (p, l) = counts.rsplit_once('/').ok_or_else(|| format!("no counts in {head:?}"))?;
    let digits: String = p.chars().rev().take_while(|c| c.is_ascii_digit()).collect::<Vec<_>>().into_iter().rev().collect();
    let mut f = Frame {
        pos: digits.parse().map_err(|_| format!("no position in {head:?}"))?,
        len: l.trim().parse().map_err(|_| format!("no length in {head:?}"))?,
        niterations,
        evals: None,
        elapsed: None,
        rate: None,
        table: None,
        wrapped: 0,
    };
    if let Some(info) = lines.iter().find(|l| l.starts_with("Info:")) {
        for part in info.split('|').map(|p| p.trim()) {
            if let Some(v) = part.strip_prefix("evals=") {
                f.evals = v.parse().ok();
            }
            if let Some(v) = part.strip_prefix("Info: eval/s~") {
                f.rate = v.parse().ok();
            }
            if let Some(v) = part.strip_prefix("t=") {
                f.elapsed = v.trim_end_matches('s').parse().ok();
            }
        }
    }
    if let Some(at) = lines.iter().position(|l| l.starts_with("Hall of Fame:")) {
        let body = &lines[at + 1..];
        let border = |l: &str| l.chars().count() > 20 && l.chars().all(|c| c == '─');
        if body.len() < 3 || !border(body[0]) || !body[1].starts_with("Complexity") || !body[1].contains("Loss") || !body[1].contains("Equation") {
            return Err(format!("no table header in {body:?}"));
        }
        let end = 2 + body[2..].iter().position(|l| border(l)).ok_or("the table has no end")?;
        let mut rows: Vec<(String, String, String)> = Vec::new();
        let mut left = 0;
        for l in &body[2..end] {
            if l.starts_with(' ') {
                let last = rows.last_mut().ok_or("a continuation of nothing")?;
                let cut = last.2.strip_suffix("...").ok_or_else(|| format!("a line is continued without dots: {last:?}"))?;
                let indent = l.chars().take_while(|c| *c == ' ').count();
                if indent < left {
                    return Err(format!("a continuation starts in column {indent}, not {left}"));
                }
                last.2 = format!("{cut}{}", l.chars().skip(left).collect::<String>());
                f.wrapped += 1;
            } else {
                let mut w = l.split_whitespace();
                let c = w.next().unwrap_or("").to_string();
                let loss = w.next().unwrap_or("").to_string();
                left = format!("{c:<10}  {loss:<10}  ").chars().count();
                rows.push((c, loss, l.chars().skip(left).collect()));
            }
        }
        f.table = Some(rows);
    }
    Ok(f)
}

fn shows(m: &Moment, t: &[(String, String, String)]) -> bool {
    m.front.len() == t.len()
        && m.front.iter().zip(t).all(|(a, b)| a.0.to_string() == b.0 && format!("{:.3e}", a.1) == b.1 && a.2.trim_end() == b.2)
}

fn case(c: &mut Case, mode: &str, tty: bool) {
    let cols = 80 + c.rng.u16(..120);
    let seed = c.rng.u64(..);
    let (master, slave) = match open_terminal(400, cols) {
        Ok(p) => p,
        Err(e) => {
            c.count("terminals refused", 1);
            let _ = e;
            return;
        }
    };
    let started = std::time::Instant::now();
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.args(["--child", &seed.to_string(), mode])
        .env("TERM", "xterm-256color")
        .env_remove("NO_COLOR")
        .env_remove("CLICOLOR")
        .env_remove("CLICOLOR_FORCE")
        .env("RAYON_NUM_THREADS", "3")
        .stdin(Stdio::null())
        .stdout(Stdio::piped());
    if tty {
        cmd.stderr(Stdio::from(slave));
    } else {
        drop(slave);
        cmd.stderr(Stdio::piped());
    }
    let mut child = cmd.spawn().expect("spawn");
    drop(cmd); // closes our copy of the terminal
    let mut log = child.stdout.take().unwrap();
    let (done, waiting) = std::sync::mpsc::channel::<()>();
    let pid = child.id() as libc::pid_t;
    let guard = std::thread::spawn(move || {
        let late = waiting.recv_timeout(std::time::Duration::from_secs(200)) == Err(std::sync::mpsc::RecvTimeoutError::Timeout);
        if late {
            // SAFETY: our own child, not waited for yet.
            unsafe { libc::kill(pid, libc::SIGKILL) };
        }
        late
    });
    let logger = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = log.read_to_string(&mut s);
        s
    });
    let mut shown = Vec::new();
    if tty {
        let mut t = File::from(master);
        let mut buf = [0u8; 8192];
        loop {
            match t.read(&mut buf) {
                Ok(n) if n > 0 => shown.extend_from_slice(&buf[..n]),
                _ => break, // the other end was closed
            }
        }
    } else {
        let _ = child.stderr.take().unwrap().read_to_end(&mut shown);
    }
    drop(done);
    let late = guard.join().unwrap_or(false);
    let status = child.wait().expect("wait");
    let wall = started.elapsed().as_secs_f64();
    let text = logger.join().unwrap_or_default();
    c.eval();
    let (shots, screen) = play(&shown, cols as usize);
    let ctx = |what: &str| format!("{what}; seed {seed} mode {mode} columns {cols}; the terminal showed:\n{}", tail(&screen, 3000));
    if late {
        c.fail("a search with its display on does not end", ctx("after 200 s"));
        return;
    }
    if !status.success() {
        c.fail("a search with its display on fails", ctx(&format!("{status:?}")));
        return;
    }
    let Some(truth) = read_truth(&text) else {
        c.fail("a search with its display on fails", ctx(&format!("unfinished log {text:?}")));
        return;
    };
    if mode == "quiet" || !tty {
        c.count("silent searches", 1);
        if !screen.trim().is_empty() || !shots.is_empty() {
            c.fail("a display where none was asked for", ctx("expected nothing"));
        }
        return;
    }
    let total = truth.niterations * truth.populations;
    let mut parsed = Vec::new();
    for (k, f) in shots.iter().enumerate() {
        if !f.trim_start().starts_with("Evolving for ") && parsed.is_empty() {
            continue; // the library's own bar, before the first drawing of ours
        }
        match read_frame(f) {
            Ok(f) => parsed.push(f),
            Err(e) => {
                c.fail("the display is not the documented one", ctx(&format!("frame {k}: {e}: {f}")));
                return;
            }
        }
    }
    if parsed.is_empty() {
        c.fail("nothing is displayed", ctx(""));
        return;
    }
    let last = match read_frame(&screen) {
        Ok(f) => f,
        Err(e) => {
            c.fail("the final state does not stay on the screen", ctx(&e));
            return;
        }
    };
    let mut from = 0;
    let mut before: Option<&Frame> = None;
    for (k, f) in parsed.iter().enumerate() {
        c.count("frames seen", 1);
        if f.niterations != truth.niterations || f.len != total || f.pos > total {
            c.fail("the bar counts something else", ctx(&format!("frame {k}: {} iterations, {}/{}, expected {} and /{total}", f.niterations, f.pos, f.len, truth.niterations)));
        }
        if let Some(t) = f.elapsed {
            if t > wall + 0.11 {
                c.fail("the time shown has not passed", ctx(&format!("frame {k}: {t} s of {wall}")));
            }
        }
        if let Some(b) = before {
            if f.pos < b.pos || f.evals < b.evals || f.elapsed < b.elapsed || (b.table.is_some() && f.table.is_none()) {
                c.fail("the display goes back", ctx(&format!("frame {k}: {}, {:?}, {:?} after {}, {:?}, {:?}", f.pos, f.evals, f.elapsed, b.pos, b.evals, b.elapsed)));
            }
        }
        before = Some(f);
        let times = |i: usize| truth.moments[i].when;
        // what is shown may be old by half a second and a cycle
        let stale = |since: f64| (1..f.pos.min(truth.moments.len())).find(|i| times(*i).0 - since > 0.55);
        let Some(table) = &f.table else {
            if mode != "parallel" {
                if let Some(i) = stale(times(0).1) {
                    c.fail("the display lags behind", ctx(&format!("frame {k}: no table at {}/{}, cycle {i} ended at {:?}", f.pos, f.len, times(i))));
                }
            }
            continue;
        };
        c.count("tables read", 1);
        c.count("equations wrapped", (f.wrapped > 0) as u64);
        let numbers: Vec<(usize, f64)> = table.iter().map(|r| (r.0.parse().unwrap_or(0), r.1.parse().unwrap_or(f64::NAN))).collect();
        if numbers.windows(2).any(|w| w[0].0 >= w[1].0 || !(w[0].1 >= w[1].1)) {
            c.fail("the table is not a Pareto front", ctx(&format!("frame {k}: {numbers:?}")));
        }
        if mode == "parallel" {
            continue; // only the final state is known
        }
        // some completed cycle, not before the one shown last, not after the position of the bar
        match (from..truth.moments.len()).find(|i| truth.moments[*i].cycle <= f.pos && Some(truth.moments[*i].evals) == f.evals && shows(&truth.moments[*i], table)) {
            Some(i) => {
                from = i;
                if f.elapsed.is_none_or(|t| t < times(i).0 - 0.06 || t > times(i).1 + 0.06) {
                    c.fail("the time shown is not that of the table", ctx(&format!("frame {k}: {:?}, cycle {i} ended at {:?}", f.elapsed, times(i))));
                }
                if let Some(j) = stale(times(i).1) {
                    c.fail("the display lags behind", ctx(&format!("frame {k} at {}/{}: the state after cycle {i}, {:?}, cycle {j} ended at {:?}", f.pos, f.len, times(i), times(j))));
                }
                if let Some(v) = f.rate {
                    c.count("rates read", 1);
                    // a mean of evaluations per second over stretches of at least a second that ended at some cycle
                    let (mut lo, mut hi) = (f64::INFINITY, 0.0f64);
                    for b in 1..=i {
                        for a in 0..b {
                            let n = (truth.moments[b].evals - truth.moments[a].evals) as f64;
                            let most = times(b).1 - times(a).0;
                            let least = (times(b).0 - times(a).1).max(1.0);
                            // it had not lasted a second at the cycle before
                            let early = b - 1 == a || times(b - 1).0 - times(a).1 < 1.0;
                            if most >= 1.0 && early {
                                lo = lo.min(n / most);
                                hi = hi.max(n / least);
                            }
                        }
                    }
                    if !(v >= lo * 0.99 - 1e-9 && v <= hi * 1.01 + 1e-9) {
                        c.fail("the speed shown is not that of the search", ctx(&format!("frame {k}: {v} per second, expected {lo} to {hi}")));
                    }
                } else if (1..=i).any(|j| times(j).0 - times(0).1 > 1.0) {
                    c.fail("the speed is not shown", ctx(&format!("frame {k}")));
                }
            }
            None => {
                let want = truth.moments.iter().find(|m| Some(m.evals) == f.evals).map(|m| format!("after cycle {}: {:?}", m.cycle, m.front));
                c.fail("the table is not the Pareto front of any moment", ctx(&format!("frame {k} at {}/{}, evals {:?}: {table:?}, expected {want:?}", f.pos, f.len, f.evals)));
            }
        }
    }
    // in the end: everything done, and the final front
    let end = truth.moments.last().unwrap();
    let ok = last.pos == total && last.table.as_ref().is_some_and(|t| shows(end, t)) && (mode == "parallel" || last.evals == Some(end.evals));
    if !ok {
        c.fail("the final display is not the final state", ctx(&format!("{}/{total}, evals {:?}, table {:?}, expected {} and {:?}", last.pos, last.evals, last.table, end.evals, end.front)));
    }
    c.distinct(hash_of(&format!("{:?}", end.front)));
    c.sample(|| tail(&screen, 1500));
}

fn tail(s: &str, n: usize) -> String {
    let mut at = s.len().saturating_sub(n);
    while !s.is_char_boundary(at) {
        at += 1;
    }
    s[at..].to_string()
}

pub fn p29(m: &Mon) {
    m.rule("distinct final fronts of searches run under a pseudo-terminal; every frame drawn is parsed back and compared with the log of what the search had found after each cycle");
    m.assume("terminals of at least 80 columns and enough rows for the table");
    if !terminal_works() {
        m.assume("no pseudo-terminal could be opened: only redirected output was watched");
        m.cases("redirected", 50, |c| case(c, "step", false));
        return;
    }
    m.require("tables read", 300);
    m.require("equations wrapped", 50);
    m.require("silent searches", 20);
    m.require("rates read", 100);
    m.cases("step", m.scale(300, 4000), |c| case(c, "step", true));
    m.cases("parallel", m.scale(200, 3000), |c| case(c, "parallel", true));
    m.cases_on(24, "paced", m.scale(96, 1200), |c| case(c, "paced", true));
    m.cases("quiet", m.scale(30, 300), |c| case(c, "quiet", true));
    m.cases("redirected", m.scale(30, 300), |c| case(c, "step", false));
}
