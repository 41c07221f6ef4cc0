//! The harness side of the terminal: a scripted `Tty` and a small VT100-style emulator.
use liner::{Key, Tty};
use std::cell::Cell;
use std::collections::VecDeque;
use std::io::{self, Write};
use unicode_width::UnicodeWidthChar;

thread_local! {
    /// Width the process' own stdout pretends to have (None: stdout is no terminal).
    pub static STDOUT_WIDTH: Cell<Option<u16>> = const { Cell::new(None) };
}

/// Set in the processes that run on a (pseudo) terminal of their own.
pub static PASS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Replaces libc's `ioctl` in this binary, so that a query for the size of the process' stdout gets an answer
/// the harness decides on (nothing of the surroundings of the check leaks in).
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: libc::c_int, req: libc::c_ulong, arg: *mut libc::c_void) -> libc::c_int {
    if req == libc::TIOCGWINSZ as libc::c_ulong && !PASS.load(std::sync::atomic::Ordering::Relaxed) {
        match STDOUT_WIDTH.with(|w| w.get()) {
            Some(w) => {
                let ws = arg as *mut libc::winsize;
                (*ws).ws_row = 24;
                (*ws).ws_col = w;
                (*ws).ws_xpixel = 0;
                (*ws).ws_ypixel = 0;
                0
            }
            None => {
                *libc::__errno_location() = libc::ENOTTY;
                -1
            }
        }
    } else {
        libc::syscall(libc::SYS_ioctl, fd, req, arg) as libc::c_int
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TermOp {
    Key,
    Write,
    Flush,
    Width,
}

/// A scripted terminal.
pub struct Term {
    pub out: Vec<u8>,
    pub keys: VecDeque<Key>,
    pub width: usize,
    /// Number of operations so far (key reads, writes, flushes, width queries).
    pub ops: Cell<usize>,
    /// The operation (0-based) to fail, once.
    pub fail_at: Option<usize>,
    pub failed: Cell<Option<TermOp>>,
    /// How many bytes one write takes at most (short writes).
    pub max_write: usize,
    /// Fail with Interrupted kind for writes (must be retried by the caller's write_all), instead of a hard error.
    pub soft: bool,
    /// Number of the operation that read the last key.
    pub last_key: usize,
    /// All operations after the failing one fail, too.
    pub gone: bool,
    /// The kind of error a failing operation gives.
    pub kind: io::ErrorKind,
}

pub const FAULT_MSG: &str = "injected terminal fault";

impl Term {
    pub fn new(width: usize) -> Self {
        Term {
            out: Vec::new(),
            keys: VecDeque::new(),
            width,
            ops: Cell::new(0),
            fail_at: None,
            failed: Cell::new(None),
            max_write: usize::MAX,
            soft: false,
            last_key: 0,
            gone: false,
            kind: io::ErrorKind::TimedOut,
        }
    }
    fn op(&self, op: TermOp) -> io::Result<()> {
        let n = self.ops.get();
        self.ops.set(n + 1);
        if self.fail_at == Some(n) || (self.gone && self.failed.get().is_some()) {
            if self.failed.get().is_none() {
                self.failed.set(Some(op));
            }
            if self.soft && op == TermOp::Write {
                return Err(io::Error::new(io::ErrorKind::Interrupted, "retry"));
            }
            return Err(io::Error::new(self.kind, FAULT_MSG));
        }
        Ok(())
    }
    pub fn take_out(&mut self) -> Vec<u8> {
        std::mem::take(&mut self.out)
    }
}

impl Tty for Term {
    fn next_key(&mut self) -> Option<io::Result<Key>> {
        if let Err(e) = self.op(TermOp::Key) {
            return Some(Err(e));
        }
        if !self.keys.is_empty() {
            self.last_key = self.ops.get();
        }
        self.keys.pop_front().map(Ok)
    }
    fn width(&self) -> io::Result<usize> {
        self.op(TermOp::Width)?;
        Ok(self.width)
    }
}

impl Write for Term {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.op(TermOp::Write)?;
        let n = buf.len().min(self.max_write);
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.op(TermOp::Flush)
    }
}

/// One cell: the text shown in it (a base character and zero-width followers); a wide character occupies its
/// cell and leaves a `Cont` cell to its right.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub enum Cell1 {
    #[default]
    Blank,
    Text(String),
    Cont,
}

/// Foreground and background colour; 0 is the terminal's own.
pub type Pen = (u32, u32);

/// A terminal with deferred wrap (as xterm and every VT100 descendant has) and unlimited rows.
#[derive(Clone, Debug)]
pub struct Vt {
    pub width: usize,
    pub rows: Vec<Vec<Cell1>>,
    /// The colours of the cells, and those of what is printed next.
    pub pens: Vec<Vec<Pen>>,
    pub pen: Pen,
    pub row: usize,
    pub col: usize,
    pub pending_wrap: bool,
    /// First row of the visible screen (Ctrl-L starts a fresh one).
    pub errors: Vec<String>,
}

impl Vt {
    pub fn new(width: usize) -> Self {
        Vt { width, rows: vec![vec![Cell1::Blank; width]], pens: vec![vec![(0, 0); width]], pen: (0, 0), row: 0, col: 0, pending_wrap: false, errors: vec![] }
    }
    fn ensure(&mut self, r: usize) {
        while self.rows.len() <= r {
            self.rows.push(vec![Cell1::Blank; self.width]);
            self.pens.push(vec![(0, 0); self.width]);
        }
    }
    fn blank(&mut self, r: usize, c: usize) {
        // Overwriting half of a wide character blanks the other half.
        if self.rows[r][c] == Cell1::Cont && c > 0 {
            self.rows[r][c - 1] = Cell1::Blank;
        }
        if c + 1 < self.width && self.rows[r][c + 1] == Cell1::Cont {
            self.rows[r][c + 1] = Cell1::Blank;
        }
        self.rows[r][c] = Cell1::Blank;
        self.pens[r][c] = (0, 0);
    }
    fn colours(&mut self, params: &str) {
        let mut p = params.split(';').map(|x| x.parse::<u32>().unwrap_or(0));
        while let Some(n) = p.next() {
            match n {
                0 => self.pen = (0, 0),
                30..=37 | 90..=97 => self.pen.0 = n,
                39 => self.pen.0 = 0,
                40..=47 | 100..=107 => self.pen.1 = n,
                49 => self.pen.1 = 0,
                38 | 48 => {
                    let mut v = 1000;
                    for x in p.by_ref().take(2) {
                        v = v * 1000 + x;
                    }
                    if n == 38 {
                        self.pen.0 = v
                    } else {
                        self.pen.1 = v
                    }
                }
                _ => {}
            }
        }
    }
    pub fn put(&mut self, ch: char) {
        let w = ch.width().unwrap_or(0);
        if w == 0 {
            if ch.is_control() {
                self.errors.push(format!("control character {:?} sent to the terminal", ch));
                return;
            }
            // combines with the character before
            let (r, c) = if self.pending_wrap {
                (self.row, self.col)
            } else if self.col > 0 {
                (self.row, self.col - 1)
            } else {
                // nothing to combine with: not shown
                return;
            };
            let c = if self.rows[r][c] == Cell1::Cont { c - 1 } else { c };
            if let Cell1::Text(s) = &mut self.rows[r][c] {
                s.push(ch);
            } else {
                self.rows[r][c] = Cell1::Text(format!(" {}", ch));
            }
            return;
        }
        if self.pending_wrap || self.col + w > self.width {
            self.row += 1;
            self.col = 0;
            self.pending_wrap = false;
            self.ensure(self.row);
        }
        let (r, c) = (self.row, self.col);
        for k in 0..w {
            if c + k < self.width {
                self.blank(r, c + k);
                self.pens[r][c + k] = self.pen;
            }
        }
        self.rows[r][c] = if ch == ' ' { Cell1::Text(" ".into()) } else { Cell1::Text(ch.to_string()) };
        if w == 2 && c + 1 < self.width {
            self.rows[r][c + 1] = Cell1::Cont;
        }
        if c + w >= self.width {
            self.col = self.width - 1;
            self.pending_wrap = true;
        } else {
            self.col = c + w;
        }
    }
    fn clear_from(&mut self, row: usize, col: usize) {
        for c in col..self.width {
            self.blank(row, c);
        }
        self.rows.truncate(row + 1);
        self.pens.truncate(row + 1);
    }
    pub fn feed(&mut self, bytes: &[u8]) {
        let s = match std::str::from_utf8(bytes) {
            Ok(s) => s,
            Err(e) => {
                self.errors.push(format!("output is not UTF-8: {}", e));
                return;
            }
        };
        let mut it = s.chars().peekable();
        while let Some(ch) = it.next() {
            match ch {
                '\r' => {
                    self.col = 0;
                    self.pending_wrap = false;
                }
                '\n' => {
                    self.row += 1;
                    self.pending_wrap = false;
                    self.ensure(self.row);
                }
                '\x1b' => {
                    match it.next() {
                        Some('[') => {}
                        Some(']') => {
                            while let Some(c) = it.next() {
                                if c == '\x07' {
                                    break;
                                }
                                if c == '\x1b' {
                                    it.next();
                                    break;
                                }
                            }
                            continue;
                        }
                        Some(' '..='/') => {
                            for c in it.by_ref() {
                                if !(' '..='/').contains(&c) {
                                    break;
                                }
                            }
                            continue;
                        }
                        _ => continue,
                    }
                    let mut params = String::new();
                    let mut fin = ' ';
                    for c in it.by_ref() {
                        if ('\x40'..='\x7e').contains(&c) {
                            fin = c;
                            break;
                        }
                        params.push(c);
                    }
                    // A parameter of 0 means 1 for movements.
                    let n = params.parse::<usize>().unwrap_or(1).max(1);
                    match fin {
                        'A' => {
                            if n > self.row {
                                self.errors.push(format!("cursor moved up {} rows from row {}", n, self.row));
                            }
                            self.row = self.row.saturating_sub(n);
                            self.pending_wrap = false;
                        }
                        'B' => {
                            self.row += n;
                            self.ensure(self.row);
                            self.pending_wrap = false;
                        }
                        'C' => {
                            self.col = (self.col + n).min(self.width - 1);
                            self.pending_wrap = false;
                        }
                        'D' => {
                            self.col = self.col.saturating_sub(n);
                            self.pending_wrap = false;
                        }
                        'H' => {
                            let mut p = params.split(';');
                            let r = p.next().and_then(|x| x.parse::<usize>().ok()).unwrap_or(1).max(1);
                            let c = p.next().and_then(|x| x.parse::<usize>().ok()).unwrap_or(1).max(1);
                            self.row = r - 1;
                            self.ensure(self.row);
                            self.col = (c - 1).min(self.width - 1);
                            self.pending_wrap = false;
                        }
                        'J' => match params.as_str() {
                            "" | "0" => {
                                let (r, c) = (self.row, self.col);
                                self.clear_from(r, c);
                                self.pending_wrap = false;
                            }
                            "2" => {
                                let (r, c) = (self.row, self.col);
                                self.rows = vec![];
                                self.pens = vec![];
                                self.ensure(r);
                                self.row = r;
                                self.col = c;
                                self.pending_wrap = false;
                            }
                            _ => self.errors.push(format!("unsupported ESC[{}J", params)),
                        },
                        'K' => {
                            let (r, c) = (self.row, self.col);
                            let range = match params.as_str() {
                                "" | "0" => c..self.width,
                                "1" => 0..c + 1,
                                _ => 0..self.width,
                            };
                            for k in range {
                                self.blank(r, k);
                            }
                        }
                        'm' => self.colours(&params),
                        // modes, the cursor's shape, windows, and one that stands for nothing
                        'h' | 'l' | 'q' | 't' | '~' => {}
                        _ => self.errors.push(format!("unsupported sequence ESC[{}{}", params, fin)),
                    }
                }
                c => self.put(c),
            }
        }
    }
    /// The screen as text, trailing blanks of each row and trailing empty rows removed. Printed spaces count as blanks.
    pub fn text(&self) -> Vec<String> {
        let mut v: Vec<String> = self
            .rows
            .iter()
            .map(|r| {
                let mut s = String::new();
                for c in r {
                    match c {
                        Cell1::Blank => s.push(' '),
                        Cell1::Text(t) => s.push_str(t),
                        Cell1::Cont => {}
                    }
                }
                s.trim_end_matches(' ').to_string()
            })
            .collect();
        while v.last().map_or(false, |s| s.is_empty()) {
            v.pop();
        }
        v
    }
    /// Where the next character would appear.
    pub fn cursor_cell(&self) -> (usize, usize) {
        if self.pending_wrap {
            (self.row + 1, 0)
        } else {
            (self.row, self.col)
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn wraps_and_clears() {
        let mut v = Vt::new(4);
        v.feed(b"abcd");
        assert_eq!(v.cursor_cell(), (1, 0));
        v.feed(b"\r\nef\x1b[1A\r\x1b[J");
        assert_eq!(v.text(), Vec::<String>::new());
        let mut v = Vt::new(4);
        v.feed("abc世x".as_bytes());
        assert_eq!(v.text(), vec!["abc", "世x"]);
    }
}
