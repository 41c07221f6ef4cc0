//! The properties about keys, decided by running editor and reference model in lockstep.
use crate::drive::*;
use crate::engine::*;
use crate::lockstep::*;
use crate::model::Div;
use liner::Key::{self, *};

pub fn ks(s: &str) -> Vec<Key> {
    s.chars().map(|c| if c == '\x1b' { Esc } else { Char(c) }).collect()
}

pub fn ctrl(s: &str) -> Vec<Key> {
    s.chars().map(Ctrl).collect()
}
pub fn alt(s: &str) -> Vec<Key> {
    s.chars().map(Alt).collect()
}
pub fn cat(v: &[Vec<Key>]) -> Vec<Tok> {
    singles(&v.concat())
}

pub fn c02(ex: &mut Explorer) {
    let bound = [
        vec![Char('a'), Char('é'), Char(' '), Char('\\'), Left, Right, Home, End, Backspace, Delete],
        ctrl("abdefhkuw"),
        alt("bf\x7f"),
    ];
    let unbound =
        [vec![Esc, Null, Insert, PageUp, PageDown, F(1), BackTab, Char('世')], ctrl("giqtvyz"), alt("adhxz")];
    let e = |n: &str| Cfg::emacs(n);
    let cfgs = vec![
        e("empty"),
        e("words").init("ab  ç\\ d e").pre(&[Left, Left, Left, Left]),
        e("spaces").init("  a b ").pre(&[Home, Right, Right]),
        e("recalled").hist(&["x", "ab c\\ d"]).pre(&[Up, Left, Left]),
        e("suggesting").hist(&["ab c", "a\\ b"]).init("a"),
    ];
    let d = ex.pick(5, 6);
    ex.explore(&Lock::new("bound keys", cfgs.clone(), cat(&bound), d, TEXT | CURSOR | OUT));
    let mut all = bound.to_vec();
    all.extend(unbound);
    let d = ex.pick(4, 5);
    ex.explore(&Lock::new("all keys", cfgs, cat(&all), d, TEXT | CURSOR | OUT));
    // words as a program has them divided
    let mut cfgs = vec![];
    for div in DIVS {
        cfgs.push(e("divided").div(div).init("ab/ c1d'é f").pre(&[Left, Left, Left]));
        cfgs.push(e("divided").div(div).hist(&["  /x 'y z' "]));
    }
    let k = cat(&[vec![Char('a'), Char(' '), Char('/'), Char('\''), Left, Right, Home, Backspace, Up], ctrl("w"), alt("bf\x7f")]);
    ex.explore(&Lock::new("words divided otherwise", cfgs, k, ex.pick(5, 6), TEXT | CURSOR | OUT));
}

/// Ways a program may divide words, other than the usual one.
pub const DIVS: [Div; 5] = [Div::Slashes, Div::Whole, Div::Never, Div::Letters, Div::Quoted];

const VI_MOTIONS: &[&str] = &[
    "h", "l", "0", "^", "$", "w", "W", "b", "B", "e", "E", "ge", "gE", "fa", "Fa", "ta", "Ta", "f ", "T.", ";", ",", "2", "3",
];

fn vi_lines() -> Vec<Cfg> {
    let v = |s: &str, p: &str| {
        let mut k = vec![Esc];
        k.extend(ks(p));
        Cfg::vi(s).init(s).pre(&k)
    };
    vec![
        v("", ""),
        v("a", ""),
        v("ab.a  a_é b", "0"),
        v("ab.a  a_é b", "4h"),
        v(" .. a,a b-a ", ""),
        v("  aa\ta\u{a0}.a", "0l"),
        v("世a 世世.a aa", "03l"),
    ]
}

pub fn c03(ex: &mut Explorer) {
    let mut t = toks(VI_MOTIONS);
    t.extend(singles(&[Left, Right, Home, End, Backspace, Char(' ')]));
    let d = ex.pick(4, 5);
    ex.explore(&Lock::new("motions", vi_lines(), t.clone(), d, TEXT | CURSOR | OUT));
    // exhaustive lines: every text over a small alphabet, every cursor position, one counted motion
    let letters = ['a', 'b', '.', ' ', 'é'];
    let n = ex.pick(5, 6);
    let mut cfgs = vec![];
    for len in 0..=n {
        for x in 0..letters.len().pow(len as u32) {
            let mut y = x;
            let mut s = String::new();
            for _ in 0..len {
                s.push(letters[y % letters.len()]);
                y /= letters.len();
            }
            for c in 0..len.max(1) {
                let mut k = vec![Esc, Char('0')];
                k.extend(std::iter::repeat(Char('l')).take(c));
                cfgs.push(Cfg::vi("x").init(&s).pre(&k));
            }
        }
    }
    let mut one = t;
    one.extend(toks(&["2w", "2W", "2b", "2B", "2e", "2E", "2ge", "2gE", "2fa", "2Fa", "2ta", "2Ta", "3w", "3e", "3b", "3ge", "2l", "3h"]));
    one.extend(toks(&["fa;", "fa,", "Ta;", "Ta,", "ta;", "ta,", "Fa2;", "ta2,"]));
    ex.explore(&Lock::new("one motion on every line", cfgs, one, 1, TEXT | CURSOR | OUT));
}

const MOTIONS_D: &[&str] = &[
    "h", "l", " ", "0", "^", "$", "w", "W", "b", "B", "e", "E", "ge", "gE", "fa", "Fa", "ta", "Ta", ";", ",", "f.", "T ",
];

fn every_line(letters: &[char], n: usize, extra: &str) -> Vec<Cfg> {
    let mut cfgs = vec![];
    for len in 0..=n {
        for x in 0..letters.len().pow(len as u32) {
            let mut y = x;
            let mut s = String::new();
            for _ in 0..len {
                s.push(letters[y % letters.len()]);
                y /= letters.len();
            }
            for c in 0..len.max(1) {
                let mut k = vec![Esc, Char('0')];
                k.extend(std::iter::repeat(Char('l')).take(c));
                k.extend(ks(extra));
                cfgs.push(Cfg::vi("x").init(&s).pre(&k));
            }
        }
    }
    cfgs
}

pub fn c04(ex: &mut Explorer) {
    // one change on every short line, at every position
    let mut one: Vec<String> = vec![];
    for op in ["d", "c"] {
        for m in MOTIONS_D {
            for (a, b) in [("", ""), ("2", ""), ("", "3"), ("2", "2")] {
                one.push(format!("{}{}{}{}", a, op, b, m));
            }
        }
        one.push(format!("{}{}", op, op));
        one.push(format!("3{}{}", op, op));
    }
    for n in ["", "2", "3", "12"] {
        for c in ["x", "ra", "r ", "~", "sz\x1b", "iz\x1b", "az\x1b", "Iz\x1b", "Az\x1b", "D", "Cz\x1b", "s\x1b"] {
            one.push(format!("{}{}", n, c));
        }
    }
    // abandoned
    for c in ["d\x1b", "c\x1b", "dz", "cz", "dg\x1b", "cgx", "df\x1b", "r\x1b", "3\x1b", "dj", "2d3\x1b", "dfq", "cTq", "cx", "dc", "cd"] {
        one.push(c.to_string());
    }
    let mut t: Vec<Tok> = toks(&one.iter().map(|s| &s[..]).collect::<Vec<_>>());
    t.extend([Delete].map(|k| Tok(vec![k])));
    for k in [Home, End, Left, Right, Backspace] {
        t.push(Tok(vec![Char('d'), k]));
        t.push(Tok(vec![Char('c'), k]));
        t.push(Tok(vec![Char('2'), Char('d'), k]));
    }
    t.push(Tok(vec![Char('d'), Char('f'), Left]));
    t.push(Tok(vec![Char('r'), Left]));
    t.push(Tok(vec![Char('d'), Ctrl('[')]));
    let n = ex.pick(4, 5);
    let cfgs = every_line(&['a', '.', ' ', 'É'], n, "faFa");
    ex.explore(&Lock::new("one change on every line", cfgs.clone(), t.clone(), 1, TEXT | CURSOR | OUT));
    // followed by a key that tells the mode apart
    let mut two = vec![];
    for x in &t {
        let mut k = x.0.clone();
        k.extend(ks("Xw"));
        two.push(Tok(k));
    }
    ex.explore(&Lock::new("one change and the mode after it", cfgs, two, 1, TEXT | CURSOR | OUT));
    // every sequence of single keys
    let raw = [ks("dcxsr~iaADC\x1bhlw$ef;,g.203aX"), vec![Backspace, Delete]];
    let d = ex.pick(5, 6);
    let raw: Vec<Tok> = cat(&raw).into_iter().filter(|t| t.0[0] != Char('.')).collect();
    ex.explore(&Lock::new("single keys", vec_lines(&["ab.a é"]), raw.clone(), d, TEXT | CURSOR | OUT));
    ex.explore(&Lock::new("single keys, empty line", vec_lines(&[""]), raw, d - 1, TEXT | CURSOR | OUT));
    let other_esc = cat(&[ks("iX3xdcwr0"), vec![Ctrl('[')]]);
    ex.explore(&Lock::new("Ctrl-[", vec_lines(&["ab.a é"]), other_esc, ex.pick(5, 6), TEXT | CURSOR | OUT));
    // sequences of commands
    let cmds = toks(&[
        "dw", "cwX\x1b", "db", "x", "2x", "rX", "~", "2~", "sX\x1b", "D", "CX\x1b", "iX\x1b", "2aX\x1b", "Iab\x1b", "A.\x1b", "dfa", "dta", "d;",
        "cFaX\x1b", "d2l", "dge", "de", "cgeX\x1b", "dd", "ccX\x1b", "h", "2l", "0", "$", "w", "dfQ", "c,X\x1b", "d0",
    ]);
    let d = ex.pick(4, 5);
    let lines = vec_lines(&["ab.a éÜ a", "a b"]);
    // letters whose other case is another number of characters, or none
    let mut odd = vec![];
    for l in ["ß", "aßb", "İ.", "ŉǅß", "ΑΣ σ", "ªⅷ", "世ﬁÉ"] {
        for n in 0..l.chars().count() {
            odd.push(Cfg::vi(l).init(l).pre(&[vec![Esc, Char('0')], vec![Char('l'); n]].concat()));
        }
    }
    let t = toks(&["~", "2~", "3~", "9~", "x", "h", "0", "rß", "2rİ", "dl", "db", "iß\x1b", "w", "e", "fß", "dtß", "cwß\x1b"]);
    ex.explore(&Lock::new("odd letters", odd, t, ex.pick(4, 5), TEXT | CURSOR | OUT));
    ex.explore(&Lock::new("commands", lines, cmds, d, TEXT | CURSOR | OUT));
}

fn vec_lines(v: &[&str]) -> Vec<Cfg> {
    v.iter().map(|s| Cfg::vi(s).init(s).pre(&ks("\x1bh"))).collect()
}

pub fn c05(ex: &mut Explorer) {
    let changes = toks(&[
        "x", "2x", "rX", "2rX", "~", "3~", "sXY\x1b", "2sX\x1b", "D", "CX\x1b", "iX\x1b", "2iX\x1b", "aXY\x1b", "3aX\x1b", "IX\x1b", "AX\x1b", "dw",
        "2dw", "d2w", "cwX\x1b", "2cwX\x1b", "dfa", "d2fa", "dta", "cfaX\x1b", "cTaX\x1b", "de", "ceX\x1b", "dge", "db", "cbX\x1b", "d$", "c0X\x1b",
        "d;", "c,X\x1b", "cféx\x1b", "dd", "ccX\x1b", "s\x1b", "dh", "d2l", "ca\x1b", "dfQ", "d\x1b", "u",
    ]);
    let moves = toks(&[".", "2.", "w", "0", "b", "$"]);
    let mut edits: Vec<Tok> = vec![];
    // Backspace, Delete and cursor movement within insert mode
    for k in [
        vec![Char('i'), Char('X'), Char('Y'), Backspace, Esc],
        vec![Char('a'), Backspace, Char('X'), Esc],
        vec![Char('3'), Char('i'), Char('X'), Delete, Esc],
        vec![Char('c'), Char('w'), Char('X'), Backspace, Char('Y'), Esc],
        vec![Char('A'), Char('X'), Left, Char('Y'), Esc],
        vec![Char('3'), Char('i'), Char('X'), Left, Char('Y'), Esc],
        vec![Char('3'), Char('s'), Char('X'), Home, Char('Y'), Esc],
        vec![Char('2'), Char('x')],
        vec![Char('i'), Char('X'), Right, Esc],
        vec![Delete],
    ] {
        edits.push(Tok(k));
    }
    let all: Vec<Tok> = [changes.clone(), moves.clone(), edits].concat();
    let lines = vec_lines(&["ab.a éÜ a b", "a .a.a a.a"]);
    let d = ex.pick(3, 4);
    ex.explore(&Lock::new("commands", lines, all, d, TEXT | CURSOR | OUT));
    let mut few = toks(&["x", "3rX", "2iX\x1b", "2cwXa\x1b", "d2fa", "c;X\x1b", "A.\x1b", "~", "CX\x1b", "dfQ", "s\x1b"]);
    few.extend(moves);
    few.extend(toks(&["h", "3.", "u"]));
    let lines = vec_lines(&["aaÉaa.aa aa aa", ""]);
    let d = ex.pick(5, 6);
    ex.explore(&Lock::new("long sequences", lines, few, d, TEXT | CURSOR | OUT));
    // moving about while inserting, to other entries also
    let ins = cat(&[ks("iaX\x1b."), vec![Left, Right, Up, Down, Backspace, Delete]]);
    let ins: Vec<Tok> = [toks(&["2s", "3i"]), ins].concat();
    let l: Vec<Cfg> = vec_lines(&["ab.a é"]).into_iter().map(|c| c.hist(&["b", "ab.a éa", "a é"])).collect();
    ex.explore(&Lock::new("insertions", l, ins, ex.pick(6, 7), TEXT | CURSOR | OUT));
    // every sequence of single keys
    let raw = singles(&ks("dcxs~iA\x1bwe;f.3aX"));
    let d = ex.pick(5, 7);
    let mut l = vec_lines(&["ab.a é"]);
    l.push(Cfg::vi("initial insert").init("b"));
    ex.explore(&Lock::new("single keys", l, raw, d, TEXT | CURSOR | OUT));
}
