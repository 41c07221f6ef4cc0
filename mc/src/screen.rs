//! What the screen has to look like, obtained by printing the parts onto a blank terminal.
use crate::model::*;
use crate::term::*;
use unicode_width::UnicodeWidthChar;

/// The screen before the line is read, with the cursor anywhere.
pub fn start(width: usize, before: &str) -> Vt {
    let mut v = Vt::new(width);
    v.feed(before.replace('\n', "\r\n").as_bytes());
    v
}

pub struct Screen {
    /// What is above the place the line editor draws in.
    pub above: Vt,
    /// The last line of the prompt.
    pub prompt: String,
}

pub struct Shown<'a> {
    pub status: &'a str,
    /// Search position and number of matches.
    pub search: Option<(usize, usize)>,
    pub text: &'a [char],
    pub cursor: usize,
    pub offered: Option<&'a [char]>,
    pub list: Option<&'a [String]>,
    pub selected: Option<usize>,
    pub done: bool,
}

/// Without escape sequences.
fn strip(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\x1b' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('[') => {
                it.by_ref().find(|c| ('@'..='~').contains(c));
            }
            Some(']') => {
                if it.by_ref().find(|c| *c == '\x07' || *c == '\x1b') == Some('\x1b') {
                    it.next();
                }
            }
            Some(' '..='/') => {
                it.by_ref().find(|c| !(' '..='/').contains(c));
            }
            _ => {}
        }
    }
    o
}

fn print(v: &mut Vt, text: &str) {
    for c in text.chars() {
        if c == '\n' {
            v.feed(b"\r\n");
        } else {
            v.put(c);
        }
    }
}

fn print_text(v: &mut Vt, text: &[char], indent: usize) {
    for c in text {
        if *c == '\n' {
            v.feed(b"\r\n");
            v.col = indent.min(v.width - 1);
        } else {
            v.put(*c);
        }
    }
}

fn squeeze(rows: &[String]) -> String {
    rows.concat().chars().filter(|c| !c.is_whitespace()).collect()
}

impl Screen {
    /// The screen directly after the editor printed the prompt for the first time.
    pub fn new(before: &Vt, prompt: &str, status: &str) -> Screen {
        let mut v = before.clone();
        let (start_col, pending) = (v.col, v.pending_wrap);
        if start_col > 0 || pending {
            // marks the unfinished line, and goes to a new one
            if pending {
                v.feed(b"\r\n");
            } else {
                v.put('⏎');
                v.feed(b"\r\n");
            }
        }
        let p = strip(prompt);
        let last = p.rfind('\n').map_or(0, |i| i + 1);
        print(&mut v, &p[..last]);
        let _ = status;
        Screen { above: v, prompt: p[last..].to_string() }
    }

    pub fn replace_prompt(&mut self, prompt: &str) {
        self.prompt = strip(prompt);
    }

    pub fn cleared(&mut self) {
        self.above = Vt::new(self.above.width);
    }

    /// Compares the terminal with what it has to show.
    pub fn check(&self, vt: &Vt, s: &Shown) -> Result<(), String> {
        if let Some(e) = vt.errors.first() {
            return Err(format!("output: {}", e));
        }
        let single = |x: &[char]| -> Vec<char> { x.iter().map(|c| if *c == '\n' { '⏎' } else { *c }).collect() };
        let actual = vt.text();
        let top = self.above.row;
        let mut v = self.above.clone();
        // the rows of a candidate list come first
        let mut list_rows = 0;
        let lead;
        let prompt = match s.search {
            Some((i, n)) => {
                lead = format!("{}(search)'", s.status);
                format!("{}{}` ({}/{}): ", lead, st(&single(s.text)), i, n)
            }
            None => {
                lead = String::new();
                format!("{}{}", s.status, self.prompt)
            }
        };
        let shown = s.offered.unwrap_or(s.text);
        let indent = {
            let mut w = 0;
            for c in prompt.chars() {
                w += c.width().unwrap_or(0);
            }
            w
        };
        print(&mut v, &prompt);
        print_text(&mut v, shown, indent);
        let end = v.cursor_cell();
        let mut want = v.text();
        if let Some(list) = s.list {
            let mut below: Vec<String> = want.split_off(top.min(want.len()));
            list_rows = actual.len().saturating_sub(top + below.len());
            let got = actual.get(top..top + list_rows).map(squeeze).unwrap_or_default();
            let names: String = list.concat().chars().filter(|c| !c.is_whitespace()).collect();
            if got != names {
                return Err(format!(
                    "the candidates {:?} are not listed in order between the earlier output and the prompt: {:?}",
                    list, actual
                ));
            }
            want.resize(top, String::new());
            want.extend(actual[top..top + list_rows].iter().cloned());
            want.append(&mut below);
            while want.last().map_or(false, |r| r.is_empty()) {
                want.pop();
            }
        }
        if want != actual {
            return Err(format!("the screen shows\n  {:?}\ninstead of\n  {:?}", actual, want));
        }
        let got = vt.cursor_cell();
        if s.done {
            // on a line of its own below everything
            let last = end.0 + list_rows;
            // an empty last line of the text may be overwritten
            let blank = (end.1 == 0 && v.pending_wrap) || shown.last() == Some(&'\n');
            if got.1 != 0 || got.0 <= last - blank as usize || got.0 > last + 1 {
                return Err(format!("after the line was entered the cursor is at {:?}, the text ends at {:?}", got, end));
            }
            return Ok(());
        }
        let mut c = self.above.clone();
        let next;
        if s.search.is_some() {
            print(&mut c, &lead);
            let term = single(s.text);
            print_text(&mut c, &term[..s.cursor], 0);
            next = term.get(s.cursor).copied().or(Some('`'));
        } else {
            print(&mut c, &prompt);
            print_text(&mut c, &shown[..s.cursor], indent);
            next = shown.get(s.cursor).copied();
        }
        let (mut row, mut col) = c.cursor_cell();
        let w = next.and_then(|c| c.width()).unwrap_or(0);
        if next.is_some() && next != Some('\n') && w == 0 {
            return Ok(()); // shown in the cell before
        }
        if col + w > c.width {
            row += 1;
            col = 0;
        }
        row += list_rows;
        if got != (row, col) {
            return Err(format!(
                "the terminal cursor is at row {}, column {} instead of row {}, column {}; screen {:?}",
                got.0, got.1, row, col, actual
            ));
        }
        Ok(())
    }

    /// Compares the colours of the text, the suggestion and the list, whose places are right.
    pub fn colours(&self, vt: &Vt, s: &Shown, closure: Option<&dyn Fn(&str) -> String>) -> Result<(), String> {
        const OFFERED: Pen = (9999, 0);
        if vt.pen != (0, 0) {
            return Err(format!("what is printed next would have the colours {:?}", vt.pen));
        }
        let actual = vt.text();
        let top = self.above.row;
        let mut list_rows = 0;
        if let Some(list) = s.list {
            // the rows below hold what they held before the list was printed
            let names: Vec<(usize, char)> = list
                .iter()
                .enumerate()
                .flat_map(|(i, n)| n.chars().filter(|c| !c.is_whitespace()).map(move |c| (i, c)))
                .collect();
            let mut at = names.iter();
            while let (true, Some(row)) = (at.len() > 0, vt.rows.get(top + list_rows)) {
                for (c, pen) in row.iter().zip(&vt.pens[top + list_rows]) {
                    if let Cell1::Text(t) = c {
                        for ch in t.chars().filter(|c| !c.is_whitespace()) {
                            match at.next() {
                                Some((i, x)) if *x == ch => {
                                    if (*pen != (0, 0)) != (Some(*i) == s.selected) {
                                        return Err(format!("candidate {} of {:?}, of which {:?} is selected, has colours {:?}", i, list, s.selected, pen));
                                    }
                                }
                                _ => return Err(format!("the list {:?} is not where it was: {:?}", list, actual)),
                            }
                        }
                    }
                }
                list_rows += 1;
            }
        }
        if s.search.is_some() {
            return Ok(());
        }
        let prompt = format!("{}{}", s.status, self.prompt);
        let indent: usize = prompt.chars().map(|c| c.width().unwrap_or(0)).sum();
        let mut v = self.above.clone();
        v.pen = (0, 0);
        print(&mut v, &prompt);
        let from = (v.row, if v.pending_wrap { v.width } else { v.col });
        let shown = s.offered.unwrap_or(s.text);
        let (typed, offered) = shown.split_at(s.text.len());
        for (i, line) in st(typed).split('\n').enumerate() {
            if i > 0 {
                print_text(&mut v, &['\n'], indent);
            }
            match closure {
                // what it makes of an empty line cannot be seen
                Some(f) if !line.is_empty() => v.feed(f(line).as_bytes()),
                _ => print(&mut v, line),
            }
        }
        v.pen = OFFERED;
        print_text(&mut v, offered, indent);
        if s.list.is_some() {
            list_rows = actual.len().saturating_sub(v.text().len());
        }
        let mut colour = None;
        for r in from.0..v.rows.len() {
            for c in 0..v.width {
                if (r, c) < from || !matches!(v.rows[r][c], Cell1::Text(ref t) if t != " ") {
                    continue;
                }
                let want = v.pens[r][c];
                let got = *vt.pens.get(r + list_rows).and_then(|p| p.get(c)).unwrap_or(&(0, 0));
                let what = format!("{:?} at row {}, column {}, has colours {:?}", v.rows[r][c], r + list_rows, c, got);
                if want != OFFERED {
                    if got != want {
                        return Err(format!("{}, not {:?}; screen {:?}", what, want, actual));
                    }
                } else if got == (0, 0) || *colour.get_or_insert(got) != got {
                    return Err(format!("the suggested {}, like text typed or unlike the rest of it; screen {:?}", what, actual));
                }
            }
        }
        Ok(())
    }
}
