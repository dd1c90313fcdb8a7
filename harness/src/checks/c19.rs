//! C19: sessions on a real terminal behave like scripted ones and restore it.
use crate::infra::*;
use crate::keys::*;
use crate::sess::*;
use liner::{Buffer, Completer, Context, EditorContext, Event, EventKind, KeyBindings, Prompt, ViStatus};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::io::ErrorKind;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    vi: bool,
    cols: u16,
    hist: Vec<String>,
    words: Vec<String>,
    prompt: String,
    init: String,
    /// keys of each read; the last key ends it
    reads: Vec<Vec<K>>,
    /// before the key of this number the terminal gets this width
    resize: Vec<(u8, u16)>,
    /// all keys of a read at once, where no lone escape is among them
    burst: bool,
    /// the terminal's settings beforehand
    flags: [bool; 6],
    min: u8,
    /// the process ends by a panic in the middle of the last read
    panics: bool,
}

/// What the session process is told and what it reports, as JSON lines.
#[derive(Serialize, Deserialize)]
struct Job {
    vi: bool,
    hist: Vec<String>,
    words: Vec<String>,
    prompt: String,
    init: String,
    reads: usize,
    panic_at: Option<usize>,
}

const CTL: i32 = 3;

fn tell(s: &str) {
    let b = format!("{s}\n");
    let mut off = 0;
    while off < b.len() {
        let n = unsafe { libc::write(CTL, b[off..].as_ptr() as *const _, b.len() - off) };
        if n <= 0 {
            std::process::exit(3);
        }
        off += n as usize;
    }
}

fn term() -> libc::termios {
    unsafe {
        let mut t = std::mem::zeroed();
        libc::tcgetattr(0, &mut t);
        t
    }
}

fn same_term(a: &libc::termios, b: &libc::termios) -> bool {
    (a.c_iflag, a.c_oflag, a.c_cflag, a.c_lflag, a.c_line) == (b.c_iflag, b.c_oflag, b.c_cflag, b.c_lflag, b.c_line)
        && a.c_cc == b.c_cc
}

struct PtyComp {
    words: Vec<String>,
    events: usize,
    panic_at: Option<usize>,
}
impl Completer for PtyComp {
    fn completions(&mut self, start: &str) -> Vec<String> {
        self.words.iter().filter(|w| w.starts_with(start)).cloned().collect()
    }
    fn on_event<C: EditorContext>(&mut self, e: Event<C>) {
        match e.kind {
            EventKind::BeforeKey(k) => {
                let t = term();
                let cooked = t.c_lflag & (libc::ICANON | libc::ECHO | libc::ISIG) != 0 || t.c_oflag & libc::OPOST != 0;
                if cooked {
                    tell("cooked");
                }
                if self.panic_at == Some(self.events) {
                    panic!("as told");
                }
                self.events += 1;
                tell(&format!("before {k:?}"));
            }
            EventKind::AfterKey(_) => tell("after"),
            EventKind::BeforeComplete => {}
        }
    }
}

fn prompt(vi: bool, p: &str) -> Prompt {
    Prompt { prompt: p.to_owned(), vi_status: if vi { Some(ViStatus::default()) } else { None } }
}

/// The process on the pseudo-terminal: reads lines as told, reports and leaves.
pub fn session_process(args: &[String]) {
    let job: Job = serde_json::from_str(&args[0]).unwrap();
    let before = term();
    let res = std::panic::catch_unwind(|| {
        let mut c = match Context::new() {
            Ok(c) => c,
            Err(e) => {
                tell(&format!("no context: {e}"));
                return;
            }
        };
        c.key_bindings = if job.vi { KeyBindings::Vi } else { KeyBindings::Emacs };
        for h in &job.hist {
            c.history.buffers.push_back(Buffer::from(h.as_str()));
        }
        let mut comp = PtyComp { words: job.words.clone(), events: 0, panic_at: job.panic_at };
        for n in 0..job.reads {
            tell("ready");
            let init = if n == 0 { job.init.as_str() } else { "" };
            let r = (&mut c).read_line_with_init_buffer(prompt(job.vi, &job.prompt), &mut comp, None, init);
            let r = r.map_err(|e| format!("{:?}", e.kind()));
            tell(&format!("result {}", serde_json::to_string(&r).unwrap()));
            if let Ok(l) = r {
                let _ = c.history.push(Buffer::from(l));
            }
        }
    });
    if res.is_err() {
        tell("panicked");
    }
    tell(if same_term(&before, &term()) { "restored" } else { "not restored" });
    tell("end");
}

fn bytes(k: K) -> Vec<u8> {
    match k.0 {
        Key::Char('\n') => b"\r".to_vec(),
        Key::Char('\t') => b"\t".to_vec(),
        Key::Char(c) => c.to_string().into_bytes(),
        Key::Ctrl(c) => vec![(c as u8) & 0x1f],
        Key::Alt(c) => [b"\x1b".to_vec(), c.to_string().into_bytes()].concat(),
        Key::Left => b"\x1b[D".to_vec(),
        Key::Right => b"\x1b[C".to_vec(),
        Key::Up => b"\x1b[A".to_vec(),
        Key::Down => b"\x1b[B".to_vec(),
        Key::Home => b"\x1b[H".to_vec(),
        Key::End => b"\x1b[F".to_vec(),
        Key::Backspace => b"\x7f".to_vec(),
        Key::Delete => b"\x1b[3~".to_vec(),
        Key::Insert => b"\x1b[2~".to_vec(),
        Key::PageUp => b"\x1b[5~".to_vec(),
        Key::PageDown => b"\x1b[6~".to_vec(),
        Key::F(n @ 1..=4) => vec![0x1b, b'O', b'P' + n - 1],
        Key::Esc => b"\x1b".to_vec(),
        Key::Null => vec![0],
        _ => vec![],
    }
}

struct Pty {
    master: OwnedFd,
    slave: OwnedFd,
    ctl: OwnedFd,
    out: Vec<u8>,
    lines: std::collections::VecDeque<String>,
    part: Vec<u8>,
    ctl_open: bool,
}

impl Pty {
    /// Collects what is written and reported until a line is there.
    fn line(&mut self, limit: Duration) -> Result<Option<String>, String> {
        let end = Instant::now() + limit;
        loop {
            if let Some(l) = self.lines.pop_front() {
                return Ok(Some(l));
            }
            if !self.ctl_open {
                return Ok(None);
            }
            if Instant::now() > end {
                return Err("the session process does not answer".into());
            }
            self.poll(200);
        }
    }
    fn poll(&mut self, ms: i32) {
        let mut fds = [
            libc::pollfd { fd: self.master.as_raw_fd(), events: libc::POLLIN, revents: 0 },
            libc::pollfd { fd: if self.ctl_open { self.ctl.as_raw_fd() } else { -1 }, events: libc::POLLIN, revents: 0 },
        ];
        unsafe { libc::poll(fds.as_mut_ptr(), 2, ms) };
        let mut buf = [0u8; 65536];
        if fds[0].revents & libc::POLLIN != 0 {
            let n = unsafe { libc::read(fds[0].fd, buf.as_mut_ptr() as *mut _, buf.len()) };
            if n > 0 {
                self.out.extend_from_slice(&buf[..n as usize]);
            }
        }
        if fds[1].revents & (libc::POLLIN | libc::POLLHUP) != 0 {
            let n = unsafe { libc::read(fds[1].fd, buf.as_mut_ptr() as *mut _, buf.len()) };
            if n <= 0 {
                self.ctl_open = false;
                return;
            }
            for &b in &buf[..n as usize] {
                if b == b'\n' {
                    let l = String::from_utf8_lossy(&std::mem::take(&mut self.part)).into_owned();
                    self.lines.push_back(l);
                } else {
                    self.part.push(b);
                }
            }
        }
    }
    fn send(&mut self, b: &[u8]) -> Result<(), String> {
        let mut off = 0;
        while off < b.len() {
            let n = unsafe { libc::write(self.master.as_raw_fd(), b[off..].as_ptr() as *const _, b.len() - off) };
            if n < 0 {
                return Err(format!("harness: {}", std::io::Error::last_os_error()));
            }
            off += n as usize;
        }
        Ok(())
    }
    fn settings(&self) -> libc::termios {
        unsafe {
            let mut t = std::mem::zeroed();
            libc::tcgetattr(self.slave.as_raw_fd(), &mut t);
            t
        }
    }
}

struct Kill(std::process::Child);
impl Drop for Kill {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

fn check(case: &Case, obs: &mut Obs) -> Res {
    let limit = Duration::from_secs(20);
    // the same with a scripted terminal
    let mut c = ctx(case.cols as usize, &case.hist, case.vi);
    let burst_ok = |ks: &[K]| case.burst && !ks.iter().any(|k| k.0 == Key::Esc);
    // a resize takes place while the process waits for the next key
    let any_burst = case.reads.iter().any(|r| burst_ok(r));
    let mut resizes: Vec<(u64, usize)> =
        if any_burst { vec![] } else { case.resize.iter().map(|r| (r.0 as u64, r.1 as usize)).collect() };
    resizes.sort_by_key(|r| r.0);
    resizes.dedup_by_key(|r| r.0);
    c.terminal.resize = resizes.iter().copied().collect();
    let mut results = vec![];
    let mut used = vec![];
    let mut out_ends = vec![];
    for (n, ks) in case.reads.iter().enumerate() {
        c.terminal.keys = ks.iter().map(|k| k.0).collect();
        let mut comp = RecComp { words: case.words.clone(), filter: true, ..Default::default() };
        let init = if n == 0 { case.init.as_str() } else { "" };
        let r = (&mut c).read_line_with_init_buffer(prompt(case.vi, &case.prompt), &mut comp, None, init);
        let left = c.terminal.keys.len();
        used.push(ks.len() - left);
        // input that ends, or keys left over, belong elsewhere
        let by_key = match &r {
            Ok(_) => ks[..ks.len() - left].last() == Some(&K(Key::Char('\n'))) && comp.events.last().map_or(false, |e| e.0 == 'a'),
            Err(e) => matches!(e.kind(), ErrorKind::Interrupted | ErrorKind::UnexpectedEof),
        };
        let r = r.map_err(|e| format!("{:?}", e.kind()));
        let complete = match &r {
            Ok(_) => by_key && complete_events(&comp, ks.len() - left),
            Err(_) => by_key,
        };
        if !complete {
            used.pop();
            break;
        }
        out_ends.push(c.terminal.out.len());
        if let Ok(l) = &r {
            let _ = c.history.push(Buffer::from(l.as_str()));
        }
        results.push(r);
    }
    let reads = results.len();
    if reads == 0 {
        return Ok(());
    }
    // where the panic is to happen: on a key of the last read
    let total: usize = used.iter().sum();
    let panic_at = if case.panics { Some(total - 1) } else { None };

    let (mut m, mut s) = (0, 0);
    let mut ws: libc::winsize = unsafe { std::mem::zeroed() };
    ws.ws_col = case.cols;
    ws.ws_row = 24;
    let mut pipe = [0; 2];
    unsafe {
        if libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null(), &ws) != 0
            || libc::pipe2(pipe.as_mut_ptr(), libc::O_CLOEXEC) != 0
        {
            return Err("harness: no pseudo-terminal".into());
        }
        libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC);
        libc::fcntl(s, libc::F_SETFD, libc::FD_CLOEXEC);
    }
    let (master, slave) = unsafe { (OwnedFd::from_raw_fd(m), OwnedFd::from_raw_fd(s)) };
    let (ctl, ctl_w) = unsafe { (OwnedFd::from_raw_fd(pipe[0]), OwnedFd::from_raw_fd(pipe[1])) };
    let mut p = Pty { master, slave, ctl, out: vec![], lines: Default::default(), part: vec![], ctl_open: true };
    let mut t = p.settings();
    let flip = |b: bool, f: &mut libc::tcflag_t, bit: libc::tcflag_t| {
        if b {
            *f ^= bit
        }
    };
    flip(case.flags[0], &mut t.c_lflag, libc::ECHO);
    flip(case.flags[1], &mut t.c_lflag, libc::ISIG);
    flip(case.flags[2], &mut t.c_iflag, libc::IXON);
    flip(case.flags[3], &mut t.c_oflag, libc::OPOST);
    flip(case.flags[4], &mut t.c_lflag, libc::ICANON);
    flip(case.flags[5], &mut t.c_iflag, libc::ICRNL);
    t.c_cc[libc::VMIN] = case.min;
    t.c_cc[libc::VERASE] = case.min.wrapping_add(3);
    unsafe { libc::tcsetattr(s, libc::TCSANOW, &t) };
    let before = p.settings();

    let job = Job {
        vi: case.vi,
        hist: case.hist.clone(),
        words: case.words.clone(),
        prompt: case.prompt.clone(),
        init: case.init.clone(),
        reads,
        panic_at,
    };
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg("--pty-session").arg(serde_json::to_string(&job).unwrap());
    let w = ctl_w.as_raw_fd();
    unsafe {
        cmd.stdin(Stdio::from_raw_fd(libc::fcntl(s, libc::F_DUPFD_CLOEXEC, 10)));
        cmd.stdout(Stdio::from_raw_fd(libc::fcntl(s, libc::F_DUPFD_CLOEXEC, 10)));
        cmd.stderr(Stdio::null());
        cmd.pre_exec(move || {
            if w == CTL {
                libc::fcntl(CTL, libc::F_SETFD, 0);
            } else {
                libc::dup2(w, CTL);
            }
            Ok(())
        });
    }
    let mut child = Kill(cmd.spawn().map_err(|e| format!("harness: {e}"))?);
    drop(cmd);
    drop(ctl_w);

    let desc = format!(
        "{} columns, {} bindings, {:?} {}",
        case.cols,
        if case.vi { "Vi" } else { "Emacs" },
        case.init,
        case.reads.iter().map(|k| show(k)).collect::<Vec<_>>().join(" | ")
    );
    let at = |e: String| format!("{desc}: {e}");
    let mut got = vec![];
    let mut events = 0;
    let mut panicked = false;
    'reads: for n in 0..reads {
        match p.line(limit).map_err(at)?.as_deref() {
            Some("ready") => {}
            l => return Err(at(format!("read {n} does not start: {l:?}"))),
        }
        let keys = &case.reads[n][..used[n]];
        let burst = any_burst && burst_ok(&case.reads[n]);
        if burst {
            let all: Vec<u8> = keys.iter().flat_map(|k| bytes(*k)).collect();
            p.send(&all)?;
            obs.label("all keys at once");
        }
        for (i, &k) in keys.iter().enumerate() {
            if !burst {
                // all that is printed so far is there before the key is
                let want = c.terminal.marks[events];
                let end = Instant::now() + limit / 2;
                while p.out.len() < want {
                    if Instant::now() > end {
                        return Err(at(format!(
                            "while waiting for key {i} of read {n} only {} of the {want} bytes printed are on the terminal",
                            p.out.len()
                        )));
                    }
                    p.poll(100);
                }
                if let Some(r) = resizes.iter().find(|r| r.0 == events as u64) {
                    ws.ws_col = r.1 as u16;
                    unsafe { libc::ioctl(p.master.as_raw_fd(), libc::TIOCSWINSZ, &ws) };
                    obs.label("resized");
                }
                p.send(&bytes(k))?;
            }
            // before, after (unless the key ends the read by an error)
            loop {
                match p.line(limit).map_err(at)? {
                    Some(l) if l.starts_with("before ") => {
                        events += 1;
                        let want = format!("before {:?}", k.0);
                        if l != want {
                            return Err(at(format!("key {i} of read {n} arrives as {l:?} instead of {want:?}")));
                        }
                    }
                    Some(l) if l == "after" => {
                        if i + 1 < keys.len() {
                            break;
                        }
                    }
                    Some(l) if l == "cooked" => return Err(at("the terminal is not in raw mode".into())),
                    Some(l) if l == "panicked" => {
                        panicked = true;
                        break 'reads;
                    }
                    Some(l) => match l.strip_prefix("result ") {
                        Some(r) => {
                            if i + 1 < keys.len() {
                                return Err(at(format!("read {n} ends with {r} after {} keys", i + 1)));
                            }
                            got.push(serde_json::from_str::<Result<String, String>>(r).unwrap());
                            break;
                        }
                        None => return Err(at(format!("the process says {l:?}"))),
                    },
                    None => return Err(at("the process dies".into())),
                }
            }
        }
    }
    if panicked != case.panics {
        return Err(at("the process panics".into()));
    }
    match p.line(limit).map_err(at)?.as_deref() {
        Some("restored") => {}
        l => return Err(at(format!("the settings of the terminal after dropping the context: {l:?}"))),
    }
    while p.line(limit).map_err(at)?.is_some() {}
    let end = Instant::now() + limit;
    while child.0.try_wait().map_or(true, |s| s.is_none()) {
        if Instant::now() > end {
            return Err(at("the process does not end".into()));
        }
        std::thread::sleep(Duration::from_micros(200));
    }
    if !same_term(&before, &p.settings()) {
        return Err(at("the terminal's settings differ afterwards".into()));
    }
    let want = &results[..got.len()];
    if got != want || (!case.panics && got.len() != reads) {
        return Err(at(format!("gives {got:?} instead of {results:?}")));
    }
    // what was printed
    loop {
        let n = p.out.len();
        p.poll(0);
        if p.out.len() == n {
            break;
        }
    }
    let scripted = &c.terminal.out[..*out_ends.last().unwrap()];
    let same = if case.panics { scripted.starts_with(&p.out) } else { scripted == p.out };
    if !same {
        let k = scripted.iter().zip(&p.out).take_while(|(a, b)| a == b).count();
        return Err(at(format!(
            "prints {:?} instead of {:?} after {k} bytes",
            String::from_utf8_lossy(&p.out[k..(k + 60).min(p.out.len())]),
            String::from_utf8_lossy(&scripted[k..(k + 60).min(scripted.len())])
        )));
    }
    obs.nontrivial = events >= 3;
    obs.label_if(reads > 1, "2+ reads");
    obs.label_if(case.panics, "ended by a panic");
    obs.label_if(results.iter().any(|r| r.is_err()), "error");
    obs.labels_add("keys", events as u64);
    Ok(())
}

/// Whether every key consumed had its effect.
fn complete_events(comp: &RecComp, keys: usize) -> bool {
    keys > 0 && comp.events.iter().filter(|e| e.0 == 'a').count() == keys
}

fn gen() -> impl Strategy<Value = Case> {
    any::<bool>().prop_flat_map(|vi| {
        let ok = |k: &K| !matches!(k.0, Key::BackTab | Key::F(5..) | Key::Alt('\x7f')) && !matches!(k.0, Key::Char(c) if c.is_control() && c != '\n' && c != '\t');
        let read = (keys_for(vi, 8), select(&['\n', '\n', '\n', 'c', 'd'][..])).prop_map(move |(k, end)| {
            let mut k: Vec<K> = k.into_iter().filter(ok).collect();
            match end {
                '\n' => k.push(K(Key::Char('\n'))),
                'c' => k.push(ctrl('c')),
                _ => k.extend([ctrl('u'), ctrl('d'), K(Key::Char('\n')), K(Key::Char('\n'))]),
            }
            // what ends it otherwise
            k.extend([K(Key::Char('\n')), ctrl('c')]);
            k
        });
        (
            (prop_oneof![1 => Just(0u16), 4 => 2u16..40, 2 => 40u16..200], prop_oneof![3 => select(&["", "$ ", "l1\nl2> ", "é> "][..]).prop_map(str::to_owned), 1 => any_prompt(false)]),
            history(3, true),
            vec(select(&["ab", "abc", "foo", "b"][..]).prop_map(|s: &str| s.to_owned()), 0..4),
            prop_oneof![2 => Just(String::new()), 1 => text(14)],
            vec(read, 1..4),
            vec((1u8..20, prop_oneof![1 => Just(0u16), 8 => 2u16..90]), 0..3),
            (any::<bool>(), any::<[bool; 6]>(), 1u8..4, prop_oneof![9 => Just(false), 1 => Just(true)]),
        )
            .prop_map(move |((cols, prompt), hist, words, init, reads, resize, (burst, flags, min, panics))| Case {
                vi,
                cols,
                hist,
                words,
                prompt,
                init,
                reads,
                resize,
                burst,
                flags,
                min,
                panics,
            })
    })
}

pub fn suites() -> Vec<Box<dyn DynSuite>> {
    vec![suite(
        "terminal",
        "reads in a process of its own on a pseudo-terminal of a given width and settings, fed the bytes of the keys one by one or at once, compared to the same reads through a scripted terminal: results, keys, output bytes, raw mode during and settings after; non-trivial: 3+ keys",
        6_000,
        200_000,
        gen,
        check,
    )]
}
