//! C27: the terminal a context uses by default, on a pseudo terminal, against the same keys on a scripted one.
use crate::engine::*;
use crate::props::keys::ctrl;
use crate::term::PASS;
use liner::{Buffer, Completer, Context, EditorContext, Event, EventKind, Key, KeyBindings, Prompt, Tty};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::fs::File;
use std::io::{self, Read, Write};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd, RawFd};
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};
use Key::*;

const HIST: &[&str] = &["ab é", "世 c"];

/// Reports every key handled.
struct Told<W: Write>(W);

impl<W: Write> Completer for Told<W> {
    fn completions(&mut self, start: &str) -> Vec<String> {
        ["abc", "abd", "é"].iter().filter(|c| c.starts_with(start)).map(|c| c.to_string()).collect()
    }
    fn on_event<C: EditorContext>(&mut self, event: Event<C>) {
        if let EventKind::AfterKey(k) = event.kind {
            writeln!(self.0, "key {:?}", k).unwrap();
        }
    }
}

fn result(r: &io::Result<String>) -> String {
    match r {
        Ok(s) => format!("line {:?}", s),
        Err(e) => format!("error {:?}", e.kind()),
    }
}

/// `mc pty-child KEYMAP READS INIT`: reads lines from the terminal it was started on.
pub fn child(args: &[String]) {
    PASS.store(true, Ordering::SeqCst);
    let mut report = io::stderr();
    let mut ctx = match Context::new() {
        Ok(c) => c,
        Err(_) => {
            writeln!(report, "no terminal").unwrap();
            return;
        }
    };
    writeln!(report, "ready").unwrap();
    if args[0] == "vi" {
        ctx.key_bindings = KeyBindings::Vi;
    }
    for h in HIST {
        ctx.history.buffers.push_back(Buffer::from(*h));
    }
    for _ in 0..args[1].parse::<usize>().unwrap() {
        let r = (&mut ctx).read_line_with_init_buffer(Prompt::from("$ "), &mut Told(io::stderr()), None, args[2].as_str());
        writeln!(report, "{}", result(&r)).unwrap();
    }
    drop(ctx);
    writeln!(report, "dropped").unwrap();
}

fn bytes(k: Key) -> Vec<u8> {
    match k {
        Char('\n') => b"\r".to_vec(),
        Char(c) => c.to_string().into_bytes(),
        Ctrl(c) => vec![c as u8 & 31],
        Alt(c) => format!("\x1b{}", c).into_bytes(),
        Backspace => vec![127],
        Up => b"\x1b[A".to_vec(),
        Down => b"\x1b[B".to_vec(),
        Right => b"\x1b[C".to_vec(),
        Left => b"\x1b[D".to_vec(),
        Home => b"\x1b[H".to_vec(),
        End => b"\x1b[F".to_vec(),
        Delete => b"\x1b[3~".to_vec(),
        Esc => vec![27],
        k => panic!("{:?}", k),
    }
}

#[derive(Clone, Copy, Debug)]
enum Tok {
    K(Key),
    /// The terminal gets another width, then the key is pressed.
    Width(u16, Key),
}

impl Tok {
    fn parts(self) -> (Option<u16>, Key) {
        match self {
            Tok::K(k) => (None, k),
            Tok::Width(w, k) => (Some(w), k),
        }
    }
}

/// The scripted terminal.
struct Script {
    keys: VecDeque<Tok>,
    width: Cell<usize>,
    out: Vec<u8>,
    told: Rc<RefCell<Vec<Vec<String>>>>,
    /// How much had been printed when each key was read.
    printed: Vec<usize>,
}

fn usable(w: u16) -> usize {
    // a terminal that does not know its width
    if w == 0 {
        80
    } else {
        w as usize
    }
}

impl Tty for Script {
    fn next_key(&mut self) -> Option<io::Result<Key>> {
        let (w, k) = self.keys.pop_front()?.parts();
        if let Some(w) = w {
            self.width.set(usable(w));
        }
        self.told.borrow_mut().push(vec![]);
        self.printed.push(self.out.len());
        Some(Ok(k))
    }
    fn width(&self) -> io::Result<usize> {
        Ok(self.width.get())
    }
}

impl Write for Script {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.out.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct Rep(Rc<RefCell<Vec<Vec<String>>>>);
impl Write for Rep {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut v = self.0.borrow_mut();
        let last = v.last_mut().unwrap();
        match last.last_mut() {
            Some(s) if !s.ends_with('\n') => s.push_str(std::str::from_utf8(b).unwrap()),
            _ => last.push(String::from_utf8(b.to_vec()).unwrap()),
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[derive(Clone, Copy)]
struct Cfg {
    vi: bool,
    init: &'static str,
    width: u16,
    /// The input is a pipe, and ends.
    pipe: bool,
}

struct Expected {
    /// What is reported for each key, and at the end of the input.
    told: Vec<Vec<String>>,
    out: Vec<u8>,
    printed: Vec<usize>,
    reads: usize,
}

fn expected(c: &Cfg, keys: &[Tok]) -> Expected {
    let told = Rc::new(RefCell::new(vec![]));
    let script = Script { keys: keys.iter().copied().collect(), width: Cell::new(usable(c.width)), out: vec![], told: told.clone(), printed: vec![] };
    let mut ctx: Context<Script> = Context::with_terminal(script);
    if c.vi {
        ctx.key_bindings = KeyBindings::Vi;
    }
    for h in HIST {
        ctx.history.buffers.push_back(Buffer::from(*h));
    }
    let mut reads = 0;
    loop {
        let r = (&mut ctx).read_line_with_init_buffer(Prompt::from("$ "), &mut Told(Rep(told.clone())), None, c.init);
        reads += 1;
        if told.borrow().is_empty() {
            told.borrow_mut().push(vec![]);
        }
        told.borrow_mut().last_mut().unwrap().push(format!("{}\n", result(&r)));
        if ctx.terminal.keys.is_empty() {
            break;
        }
    }
    let out = std::mem::take(&mut ctx.terminal.out);
    let printed = std::mem::take(&mut ctx.terminal.printed);
    drop(ctx);
    let told = Rc::try_unwrap(told).unwrap().into_inner();
    Expected { told, out, printed, reads }
}

fn ioctl(fd: RawFd, req: libc::c_ulong, arg: *mut libc::c_void) -> bool {
    unsafe { libc::syscall(libc::SYS_ioctl, fd, req, arg) == 0 }
}

fn set_width(fd: RawFd, w: u16) {
    let mut ws = libc::winsize { ws_row: 24, ws_col: w, ws_xpixel: 0, ws_ypixel: 0 };
    assert!(ioctl(fd, libc::TIOCSWINSZ as libc::c_ulong, &mut ws as *mut _ as *mut libc::c_void));
}

fn modes(fd: RawFd) -> libc::termios {
    unsafe {
        let mut t = std::mem::zeroed();
        assert_eq!(libc::tcgetattr(fd, &mut t), 0);
        t
    }
}

fn same(a: &libc::termios, b: &libc::termios) -> bool {
    (a.c_iflag, a.c_oflag, a.c_cflag, a.c_lflag, a.c_cc) == (b.c_iflag, b.c_oflag, b.c_cflag, b.c_lflag, b.c_cc)
}

/// A pseudo terminal: the side of the terminal, and that of the program.
fn open() -> (File, File) {
    unsafe {
        let m = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        assert!(m >= 0, "no pseudo terminals");
        let master = File::from_raw_fd(m);
        assert_eq!(libc::grantpt(m), 0);
        assert_eq!(libc::unlockpt(m), 0);
        let mut name = [0 as libc::c_char; 128];
        assert_eq!(libc::ptsname_r(m, name.as_mut_ptr(), name.len()), 0);
        let s = libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        assert!(s >= 0);
        libc::fcntl(m, libc::F_SETFL, libc::O_NONBLOCK);
        (master, File::from_raw_fd(s))
    }
}

fn differ(got: &[u8], want: &[u8]) -> String {
    format!("the terminal is sent {:?}, expected {:?}", String::from_utf8_lossy(got), String::from_utf8_lossy(want))
}

struct Session {
    master: File,
    slave: File,
    child: std::process::Child,
    report: std::process::ChildStderr,
    /// The pipe used as input.
    pipe: Option<std::process::ChildStdin>,
    told: String,
    out: Vec<u8>,
    before: libc::termios,
}

impl Drop for Session {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Session {
    fn start(c: &Cfg, reads: usize) -> Session {
        let (master, slave) = open();
        set_width(master.as_raw_fd(), c.width);
        let before = modes(slave.as_raw_fd());
        let dup = |f: &File| Stdio::from(OwnedFd::from(f.try_clone().unwrap()));
        let mut child = Command::new(std::env::current_exe().unwrap())
            .args(["pty-child", if c.vi { "vi" } else { "emacs" }, &reads.to_string(), c.init])
            .stdin(if c.pipe { Stdio::piped() } else { dup(&slave) })
            .stdout(dup(&slave))
            .stderr(Stdio::piped())
            .spawn()
            .unwrap();
        let report = child.stderr.take().unwrap();
        unsafe { libc::fcntl(report.as_raw_fd(), libc::F_SETFL, libc::O_NONBLOCK) };
        let pipe = child.stdin.take();
        Session { master, slave, child, report, pipe, told: String::new(), out: vec![], before }
    }

    /// Takes what there is; false at the end of the reports.
    fn take(&mut self) -> bool {
        let mut b = [0; 4096];
        while let Ok(n) = self.master.read(&mut b) {
            if n == 0 {
                break;
            }
            self.out.extend_from_slice(&b[..n]);
        }
        loop {
            match self.report.read(&mut b) {
                Ok(0) => return false,
                Ok(n) => self.told.push_str(&String::from_utf8_lossy(&b[..n])),
                Err(_) => return true,
            }
        }
    }

    /// Waits until everything expected has been reported and printed.
    fn wait(&mut self, want: &str, out: &[u8], printed: usize) -> Result<(), String> {
        // counted in short steps: time in which the machine stood still does not count
        let mut left = Duration::from_secs(30);
        let mut last = Instant::now();
        loop {
            left = left.saturating_sub(last.elapsed().min(Duration::from_millis(1100)));
            last = Instant::now();
            let over = left.is_zero();
            let more = self.take();
            if self.told == want && self.out.len() >= printed {
                return Ok(());
            }
            let n = self.out.len().min(out.len());
            if self.out[..n] != out[..n] {
                return Err(differ(&self.out, out));
            }
            if over && self.told == want {
                return Err(differ(&self.out, out));
            }
            if !want.starts_with(&self.told) || !more || over {
                return Err(format!("it reports {:?}, expected {:?}", self.told, want));
            }
            let fds = [self.master.as_raw_fd(), self.report.as_raw_fd()];
            let mut p = fds.map(|fd| libc::pollfd { fd, events: libc::POLLIN, revents: 0 });
            unsafe { libc::poll(p.as_mut_ptr(), 2, 1000) };
        }
    }

    fn press(&mut self, k: Key) {
        let b = bytes(k);
        match &mut self.pipe {
            Some(p) => p.write_all(&b).unwrap(),
            None => self.master.write_all(&b).unwrap(),
        }
    }
}

struct Pty {
    cfgs: Vec<Cfg>,
    toks: Vec<Tok>,
    depth: usize,
    name: &'static str,
    /// All keys are there before the first is read.
    ahead: bool,
}

impl Space for Pty {
    fn name(&self) -> String {
        self.name.into()
    }
    fn configs(&self) -> usize {
        self.cfgs.len()
    }
    fn tokens(&self, _: usize) -> usize {
        self.toks.len()
    }
    fn max_depth(&self) -> usize {
        self.depth
    }
    fn min_depth(&self) -> usize {
        self.depth
    }
    fn run(&self, c: usize, seq: &[u16], stats: &mut Stats) -> RunResult {
        let cfg = &self.cfgs[c];
        let mut keys: Vec<Tok> = seq.iter().map(|t| self.toks[*t as usize]).collect();
        if !cfg.pipe {
            keys.push(Tok::K(Ctrl('c')));
        }
        let want = expected(cfg, &keys);
        let mut s = Session::start(cfg, want.reads);
        let mut told = String::from("ready\n");
        s.wait(&told, &want.out, want.printed.first().copied().unwrap_or(0))?;
        let raw = modes(s.slave.as_raw_fd());
        if raw.c_lflag & (libc::ICANON | libc::ECHO | libc::ISIG) != 0 || raw.c_oflag & libc::OPOST != 0 {
            return Err("the terminal is not in raw mode".into());
        }
        for (i, k) in keys.iter().enumerate() {
            let (w, k) = k.parts();
            if let Some(w) = w {
                set_width(s.master.as_raw_fd(), w);
            }
            s.press(k);
            stats.steps += 1;
            told.push_str(&want.told[i].concat());
            if cfg.pipe && i + 1 == keys.len() && s.pipe.take().is_none() {
                return Err("no pipe".into());
            }
            if !self.ahead && i + 1 < keys.len() {
                s.wait(&told, &want.out, want.printed[i + 1]).map_err(|e| format!("at key {} {:?}: {}", i + 1, k, e))?;
            }
        }
        if keys.is_empty() {
            s.pipe = None;
            told.push_str(&want.told[0].concat());
        }
        told.push_str("dropped\n");
        s.wait(&told, &want.out, 0).map_err(|e| format!("at the end: {}", e))?;
        if !s.child.wait().unwrap().success() {
            return Err("the program failed".into());
        }
        s.take();
        if !same(&modes(s.slave.as_raw_fd()), &s.before) {
            return Err("the terminal's modes are not what they were".into());
        }
        if s.out != want.out {
            return Err(differ(&s.out, &want.out));
        }
        stats.compared += 1;
        stats.state(&(c, &want.out));
        stats.outcome(want.told.last().and_then(|t| t.last()).map_or("", |t| t.split(' ').next().unwrap()));
        Ok(seq.len())
    }
    fn describe(&self, c: usize, seq: &[u16]) -> String {
        let cfg = &self.cfgs[c];
        format!(
            "{} history={:?} init={:?} width={}{} | keys: {:?}",
            if cfg.vi { "Vi" } else { "Emacs" },
            HIST,
            cfg.init,
            cfg.width,
            if cfg.pipe { " (keys from a pipe)" } else { "" },
            seq.iter().map(|t| self.toks[*t as usize]).collect::<Vec<_>>()
        )
    }
}

/// A standard output that is no terminal.
struct NoTerminal;

impl Space for NoTerminal {
    fn name(&self) -> String {
        "no terminal".into()
    }
    fn configs(&self) -> usize {
        2
    }
    fn tokens(&self, _: usize) -> usize {
        1
    }
    fn max_depth(&self) -> usize {
        0
    }
    fn run(&self, c: usize, _: &[u16], stats: &mut Stats) -> RunResult {
        let (_master, slave) = open();
        let before = modes(slave.as_raw_fd());
        let out = Command::new(std::env::current_exe().unwrap())
            .args(["pty-child", "emacs", "1", ""])
            .stdin(if c == 0 { Stdio::null() } else { Stdio::from(OwnedFd::from(slave.try_clone().unwrap())) })
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .output()
            .unwrap();
        stats.compared += 1;
        if String::from_utf8_lossy(&out.stderr) != "no terminal\n" || !same(&before, &modes(slave.as_raw_fd())) {
            return Err(format!("reports {:?}", String::from_utf8_lossy(&out.stderr)));
        }
        Ok(0)
    }
    fn describe(&self, c: usize, _: &[u16]) -> String {
        format!("standard output is a pipe{}", if c == 1 { ", standard input is a terminal" } else { "" })
    }
}

pub fn c27(ex: &mut Explorer) {
    ex.explore(&NoTerminal);
    let k = |v: &[Key]| v.iter().map(|k| Tok::K(*k)).collect::<Vec<_>>();
    let mut toks = k(&[Char('a'), Char('é'), Char('世'), Char('\n'), Char('\t'), Char('\\'), Backspace, Up, Down, Left, Right, Home, End, Delete]);
    toks.extend(k(&ctrl("acdfhrswx")));
    toks.extend(k(&[Alt('b'), Alt('.'), Alt('<')]));
    toks.extend([Tok::Width(4, Char('a')), Tok::Width(0, Char('b')), Tok::Width(60000, Char('\t'))]);
    let e = Cfg { vi: false, init: "", width: 80, pipe: false };
    let cfgs = vec![e, Cfg { init: "x 世ab", width: 5, ..e }];
    let d = ex.pick(3, 4);
    ex.explore(&Pty { name: "emacs", cfgs, toks: toks.clone(), depth: d, ahead: false });
    let cfgs = vec![Cfg { pipe: true, ..e }, Cfg { pipe: true, init: "ab c", width: 0, ..e }];
    let few = k(&[Char('a'), Char('世'), Char('\n'), Backspace, Up, Ctrl('d'), Ctrl('c'), Alt('b'), Delete, Ctrl('r')]);
    let d = ex.pick(4, 5);
    ex.explore(&Pty { name: "keys from a pipe", cfgs: cfgs.clone(), toks: few.clone(), depth: d, ahead: false });
    ex.explore(&Pty { name: "keys typed ahead", cfgs: vec![cfgs[0], Cfg { width: 3, ..e }], toks: few, depth: d, ahead: true });
    let cfgs = vec![Cfg { vi: true, ..e }, Cfg { vi: true, init: "ab é", width: 7, ..e }];
    let vi = k(&[Esc, Char('x'), Char('i'), Char('世'), Char('u'), Char('d'), Char('w'), Char('\n'), Left, Up, Char('.'), Ctrl('c')]);
    ex.explore(&Pty { name: "vi", cfgs, toks: vi, depth: d, ahead: false });
}
