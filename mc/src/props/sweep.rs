//! Spaces shared by several properties: every character in the place of a letter, every key, long lines, large counts,
//! many entries.
use crate::drive::*;
use crate::engine::*;
use crate::lockstep::*;
use crate::props::api::{calls, Api};
use crate::props::keys::ks;
use liner::Key::{self, *};

fn e(n: &str) -> Cfg {
    Cfg::emacs(n)
}
fn v(n: &str) -> Cfg {
    Cfg::vi(n)
}

/// Characters of every kind; controls, newline and tab are left out if they are to be shown.
pub fn letters(shown: bool) -> Vec<char> {
    let mut v: Vec<char> = (0u8..128).map(|c| c as char).filter(|c| *c != '\n' && *c != '\t').collect();
    v.extend((0x80..=0xff).filter_map(char::from_u32));
    v.extend("ıİŉǅſΣςσªⅷ²½٣ßﬁאاग世가Ａ　\u{301}\u{308}\u{200b}\u{200d}\u{feff}\u{2028}\u{2029}\u{202e}\u{3000}😀🇦\u{e000}\u{fffd}\u{10ffff}𝟘Ⓐ⏎".chars());
    v.retain(|c| !shown || !c.is_control());
    v
}

pub fn every_key() -> Vec<Key> {
    let mut v = vec![
        Backspace, Left, Right, Up, Down, Home, End, PageUp, PageDown, BackTab, Delete, Insert, Null, Esc, Char('\n'), Char('\t'), Char('é'), Char('世'),
        Alt('é'), Alt('\x7f'), Alt('\n'), Alt('\t'), Alt('\x1b'), Ctrl('é'),
    ];
    v.extend((1..=9).map(F));
    v.extend((' '..='~').map(Char));
    v.extend((' '..='~').map(Alt));
    v.extend(('a'..='z').map(Ctrl));
    v.extend(" 4567[\\]^_?@A".chars().map(Ctrl));
    v
}

pub fn keyed(s: &str, l: char) -> Vec<Tok> {
    // ¤ stands for the letter, ^ before a letter for Ctrl, < for Alt
    s.split(' ')
        .filter(|t| !t.is_empty())
        .map(|t| {
            let mut k = vec![];
            let mut c = t.chars().peekable();
            while let Some(x) = c.next() {
                k.push(match x {
                    '¤' => Char(l),
                    '^' => Ctrl(c.next().unwrap()),
                    '<' => Alt(c.next().unwrap()),
                    '←' => Left,
                    '→' => Right,
                    '↑' => Up,
                    '↓' => Down,
                    '⇤' => Home,
                    '⌫' => Backspace,
                    '⌦' => Delete,
                    '⏎' => Char('\n'),
                    '⇥' => Char('\t'),
                    '⎋' => Esc,
                    '·' => Char(' '),
                    x => Char(x),
                });
            }
            Tok(k)
        })
        .collect()
}

fn each(ex: &mut Explorer, name: &str, shown: bool, keys: &str, depth: usize, on: u32, cfgs: impl Fn(&str) -> Vec<Cfg>) {
    let mut all = vec![];
    for l in letters(shown) {
        for c in cfgs(&l.to_string()) {
            all.push((c, keyed(keys, l)));
        }
    }
    ex.explore(&Lock::each(name, all, depth, on));
}

const NAME: &str = "every character";

/// Replaces every ¤.
fn f(s: &str, l: &str) -> String {
    s.replace('¤', l)
}

fn hist(v: &[&str], l: &str) -> Vec<String> {
    v.iter().map(|s| f(s, l)).collect()
}

pub fn c01(ex: &mut Explorer) {
    let d = ex.pick(2, 3);
    let b = |c: Cfg| vec![c.clone().hist(&["ab c", "xa"]).init("a b").cands(&["aé", "ab"]), c.width(5).hist(&["a"]), ];
    let k = singles(&every_key());
    let mut normal = b(v("").status());
    normal.iter_mut().for_each(|c| *c = c.clone().pre(&[Esc]));
    for (name, cfgs) in [("every key, Emacs", b(e(""))), ("every key, vi", b(v("").status())), ("every key, vi normal mode", normal)] {
        ex.explore(&crate::props::c01::Robust { name: name.into(), cfgs, keys: k.clone(), depth: d });
    }
}

pub fn c02(ex: &mut Explorer) {
    let on = TEXT | CURSOR | OUT;
    each(ex, NAME, false, "¤ x · ← ⌫ ⌦ <f <b ^w ^u ^k", ex.pick(4, 5), on, |l| {
        vec![e("letter").init(&f("¤a b¤ ¤ c¤¤d", l)), e("letter").init(&f("a¤ ¤\\ b", l)).pre(&[Left, Left])]
    });
    let cfgs = vec![e("text").init("ab c\\ d").pre(&[Left, Left, Left]), e("recalled").hist(&["ab cd"]).pre(&[Up, Left])];
    ex.explore(&Lock::new("every key", cfgs, singles(&every_key()), ex.pick(2, 3), on));
    let long = "ab c\\ dé ".repeat(40);
    let many = |k: Key, n: usize| Tok(vec![k; n]);
    let mut t = keyed("x ← → ⌫ ⌦ <f <b ^w ^u ^k ^a ^e", 'x');
    t.extend([many(Left, 100), many(Backspace, 90), many(Alt('b'), 30), many(Char('z'), 130), many(Delete, 70), many(Alt('f'), 17)]);
    ex.explore(&Lock::new("long lines", vec![e("long").init(&long), e("long").hist(&[&long[..]]).pre(&[Up])], t, ex.pick(4, 5), on));
}

pub fn c03(ex: &mut Explorer) {
    let on = TEXT | CURSOR | OUT;
    each(ex, NAME, false, "w b e ge W B E f¤ F¤ t¤ T¤ ; , l 0", ex.pick(3, 4), on, |l| {
        vec![v("letter").init(&f("a¤b ¤.¤¤ ¤", l)).pre(&ks("\x1b")), v("letter").init(&f("¤ a¤.¤b¤", l)).pre(&ks("\x1b0"))]
    });
    let text = vec![v("text").init("ab.c  d_é").pre(&ks("\x1b03l"))];
    let k: Vec<Key> = every_key();
    ex.explore(&Lock::new("every key", text.clone(), singles(&k), 1, on));
    // keys after g, f, t, F, T; motions after counts of any size
    let after = |p: &str| k.iter().map(|x| Tok([ks(p), vec![*x], ks(";")].concat())).collect::<Vec<_>>();
    ex.explore(&Lock::new("every key after another", text, ["g", "f", "t", "F", "T", "2", "10"].iter().flat_map(|p| after(p)).collect(), 1, on));
    let long = "ab c. dé_ ..x ".repeat(30);
    let mut t = vec![];
    for n in ["", "9", "10", "11", "20", "99", "100", "101", "123", "4294967295", "4294967296", "99999999999"] {
        for m in ["h", "l", "w", "W", "b", "B", "e", "E", "ge", "gE", "fa", "Fx", "t.", "T ", ";", ",", " "] {
            t.push(Tok(ks(&format!("{}{}", n, m))));
        }
    }
    t.extend(toks(&["0", "$", "^"]));
    let cfgs = vec![v("long").init(&long).pre(&ks("\x1b")), v("long").init(&long).pre(&ks("\x1b0")), v("short").init("ab c. dé_ ..x").pre(&ks("\x1b0w"))];
    ex.explore(&Lock::new("long lines and large counts", cfgs, t, ex.pick(2, 3), on));
    let t = counted(&["h", "l", "w", "W", "b", "B", "e", "E", "ge", "gE", "fa", "Fa", "t.", "T.", " "]);
    ex.explore(&Lock::new("longer lines", longer(), t, ex.pick(2, 2), on));
}

/// Lines of more than a thousand words.
fn longer() -> Vec<Cfg> {
    let long = "a.".repeat(1100);
    let apart = "a ".repeat(1100);
    vec![v("dots").init(&long).pre(&ks("\x1b")), v("dots").init(&long).pre(&ks("\x1b0")), v("words").init(&apart).pre(&ks("\x1b")), v("words").init(&apart).pre(&ks("\x1b0"))]
}

fn counted(m: &[&str]) -> Vec<Tok> {
    let mut t = vec![];
    for n in ["255", "256", "257", "300", "999", "1000", "1001", "1025", "1050"] {
        t.extend(m.iter().map(|m| Tok(ks(&format!("{}{}", n, m)))));
    }
    t
}

pub fn c04(ex: &mut Explorer) {
    let on = TEXT | CURSOR | OUT;
    each(ex, NAME, false, "r¤ x df¤ dt¤ cT¤z⎋ cF¤z⎋ d; dw cwz⎋ db de dW ~ s¤⎋ i¤⎋ 2a¤⎋ h 0", ex.pick(2, 3), on, |l| {
        vec![v("letter").init(&f("a¤b ¤.¤¤ ¤", l)).pre(&ks("\x1b")), v("letter").init(&f("¤ a¤.¤b¤", l)).pre(&ks("\x1b0"))]
    });
    let k = every_key();
    let text = vec![v("text").init("ab.c  d_é").pre(&ks("\x1b03l"))];
    // Esc, and an x that shows the mode
    let after = |p: &str| k.iter().map(|x| Tok([ks(p), vec![*x], ks("x")].concat())).collect::<Vec<_>>();
    let t: Vec<Tok> = ["d", "c", "r", "df", "dt", "dF", "dT", "dg", "d2", "3c", "2r", "cf", "cg", "", "s", "d2f", "i", "A", "~", "D"].iter().flat_map(|p| after(p)).collect();
    // changes of history while a command waits are another property's business, and left open
    ex.explore(&Lock::new("every key after another", text, t, 1, on));
    let long = "ab c. dé_ ..x ".repeat(30);
    let mut t = vec![];
    for n in ["9", "10", "11", "20", "99", "100", "101", "123", "4294967295", "4294967296", "99999999999"] {
        for m in ["dh", "dl", "dw", "dW", "db", "dB", "de", "dE", "cwz\x1b", "dge", "dfa", "dFx", "dt.", "d;", "cbz\x1b", "x", "~", "sz\x1b", "dd", "D", "rz"] {
            t.push(Tok(ks(&format!("{}{}", n, m))));
        }
        t.push(Tok(ks(&format!("d{}w", n))));
        t.push(Tok(ks(&format!("2d{}l", n))));
        t.push(Tok(ks(&format!("d{}fa", n))));
        if n.len() < 4 {
            t.push(Tok(ks(&format!("{}iyz\x1b", n))));
            t.push(Tok(ks(&format!("{}Ay\x1b", n))));
        }
    }
    t.extend(toks(&["0", "50l", "d0", "d$", "cc\x1b"]));
    let cfgs = vec![v("long").init(&long).pre(&ks("\x1b")), v("long").init(&long).pre(&ks("\x1b0")), v("short").init("ab c. dé_ ..x").pre(&ks("\x1b0w"))];
    ex.explore(&Lock::new("long lines and large counts", cfgs, t, ex.pick(2, 3), on));
    let mut t = counted(&["x", "~", "rz", "sz\x1b", "dl", "dh", "dw", "dW", "db", "de", "dfa", "dFa", "dT.", "iz\x1b", "Azy\x1b"]);
    t.extend(toks(&["2d510l", "34d31l", "257d4w", "D", "d0"]));
    ex.explore(&Lock::new("longer lines", longer(), t, ex.pick(1, 2), on));
}

pub fn c05(ex: &mut Explorer) {
    let on = TEXT | CURSOR | OUT;
    each(ex, NAME, false, "r¤ 2r¤ df¤ cT¤z⎋ dt¤ s¤⎋ i¤⎋ a¤b⌫⎋ 2i¤⎋ cw¤⎋ C¤⎋ A¤⎋ ~ . 2. 0 w", ex.pick(3, 4), on, |l| {
        vec![v("letter").init(&f("a¤b ¤.¤¤ ¤ b¤a¤c¤", l)).pre(&ks("\x1b0"))]
    });
    let long = "ab c. dé_ ..x ".repeat(20);
    let t = toks(&[
        "x", "12x", "d10l", "10dw", "2d10l", "11~", "10rz", "10iy\x1b", "3Az\x1b", "d12fa", "12sq\x1b", "cwlonger text\x1b", "x", ".", "2.", "10.", "12.", "100.",
        "0", "$", "30l", "w", "u",
    ]);
    let cfgs = vec![v("long").init(&long).pre(&ks("\x1b0")), v("short").init("ab c").pre(&ks("\x1b0"))];
    ex.explore(&Lock::new("long lines and large counts", cfgs, t, ex.pick(3, 4), on));
    let t = toks(&["300x", "2~", "1001x", "d2l", "sq\x1b", ".", "2.", "300.", "1010.", "0", "u"]);
    ex.explore(&Lock::new("longer counts", longer()[1..2].to_vec(), t, ex.pick(3, 4), on));
    let mut t = toks(&["x", ".", "2.", "0", "u"]);
    for n in [60, 130, 260, 520, 1030] {
        let text: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
        t.extend(toks(&[&format!("i{}\x1b", text), &format!("cw{}\x1b", text)]));
    }
    ex.explore(&Lock::new("longer lines", longer()[1..2].to_vec(), t, ex.pick(2, 3), on));
    // what does not count as a change in between
    let mut t = toks(&["x", "rX", "2aX\x1b", "cwY\x1b", "dfa", ".", "2.", "u", "u", "k", "j", "dfQ", "d\x1b", "r\x1b", "3\x1b", "fa", ";", "w", "i\x1b", "cc\x1b", "A\x1b", "gx", "2z"]);
    for k in [Up, Ctrl('l'), Ctrl('r'), Char('\t'), F(5), Esc, Home] {
        t.push(Tok(vec![k]));
    }
    for k in [vec![Char('r'), Up], vec![Char('d'), Char('f'), Esc], vec![Char('i'), Up, Char('X'), Esc], vec![Char('i'), Char('Q'), Ctrl('c')], vec![Ctrl('f')]] {
        t.push(Tok(k));
    }
    let cfgs = vec![v("text").init("ab.a éÜ a b").hist(&["xa b", "aa aa"]).pre(&ks("\x1b0"))];
    ex.explore(&Lock::new("what changes nothing in between", cfgs, t, ex.pick(4, 5), on));
}

pub fn c07(ex: &mut Explorer) {
    let on = TEXT | CURSOR | OUT;
    each(ex, NAME, false, "¤ · ← ⌫ ^w ^x ^x^x ↑", ex.pick(4, 5), on, |l| vec![e("letter").init(&f("a¤ b", l)).hist(&hist(&["¤a ¤"], l))]);
    each(ex, "every character, vi", false, "i¤⎋ a¤·¤⎋ x r¤ ~ cw¤¤⎋ u 2u . D", ex.pick(4, 5), on, |l| {
        vec![v("letter").init(&f("a¤ b", l)).pre(&[Esc])]
    });
    let many = |k: Key, n: usize| Tok(vec![k; n]);
    let mut t = keyed("x · ^x ^w ^u <r ⌫", 'x');
    t.extend([many(Char('z'), 60), many(Ctrl('x'), 59), many(Backspace, 20), many(Ctrl('x'), 130), many(Left, 5)]);
    ex.explore(&Lock::new("many changes", vec![e("empty"), e("text").init(&"ab c ".repeat(20))], t, ex.pick(5, 6), on));
    let mut t = toks(&["x", "10x", "u", "2u", "9u", "10u", "11u", "100u", "12iab\x1b", "2.", "d3w", "r9"]);
    t.extend([many(Char('x'), 12), many(Char('u'), 11)]);
    ex.explore(&Lock::new("many changes, vi", vec![v("text").init(&"ab c ".repeat(20)).pre(&[Esc])], t, ex.pick(4, 5), on));
    // more than a thousand
    let pairs = |a: Key, b: Key, n: usize| Tok((0..n).flat_map(|_| [a, b]).collect());
    let mut t = keyed("z ⌫ ^x <r", 'a');
    t.extend([pairs(Char('z'), Backspace, 550), many(Ctrl('x'), 1099), many(Ctrl('x'), 300)]);
    ex.explore(&Lock::new("very many changes", vec![e("text").init("ab"), e("recalled").hist(&["ab"]).made().pre(&[Up])], t, ex.pick(4, 5), on));
    let mut t = toks(&["x", "u", "1099u", "300u", "600iab\x1b", "3000x", "1100~", "."]);
    let r: String = "rarb".repeat(550);
    let i: String = format!("i{}\x1b", "ab".repeat(300));
    t.extend(toks(&[&r, &i]));
    ex.explore(&Lock::new("very many changes, vi", vec![v("text").init("ab c").pre(&[Esc])], t, ex.pick(3, 4), on));
}

/// Entries and lines of hundreds of characters which differ late.
fn long_entries() -> Vec<Cfg> {
    let mut v = vec![];
    for n in [25, 75, 300] {
        let stem = "abé ".repeat(n);
        let h = [format!("{stem}a"), format!("x{stem}b"), stem.clone(), format!("{stem}ab c"), format!("ab{stem}x"), format!("{stem}a"), "b".into()];
        let h: Vec<&str> = h.iter().map(|s| &s[..]).collect();
        v.push(e("long").hist(&h).init(&stem));
        v.push(e("long").hist(&h).init(&stem[..stem.len() - 1]));
        v.push(e("long").hist(&h));
        v.push(e("long").hist(&h[..2]).init("x"));
    }
    v
}

fn long(ex: &mut Explorer, keys: &str, more: Vec<Tok>, depth: usize, on: u32) {
    let mut t = keyed(keys, 'a');
    t.extend(more);
    ex.explore(&Lock::new("long entries", long_entries(), t, depth, on));
}

pub fn c08(ex: &mut Explorer) {
    let on = HIST | RECALL | RESULT;
    each(ex, NAME, false, "¤ ⏎ ↑ ↓ ⌫ ^w ^x", ex.pick(4, 5), on, |l| vec![e("letter").init(&f("a¤", l)).hist(&hist(&["¤a", "a¤", "b¤ a¤¤"], l))]);
    let big: Vec<String> = (0..1100).map(|i| format!("a{} b{}", i, i % 7)).collect();
    let many = |k: Key, n: usize| Tok(vec![k; n]);
    let mut t = keyed("a ⏎ ↑ ↓ ⌫ ^x ^r <. << <>", 'a');
    t.push(many(Up, 50));
    ex.explore(&Lock::new("many entries", vec![e("many").hist(&big), e("many").hist(&big).init("b3")], t, ex.pick(3, 3), on));
    long(ex, "a ⏎ ↑ ↓ ⌫ ^w ^x ^r", vec![], ex.pick(4, 5), on);
}

pub fn c09(ex: &mut Explorer) {
    let on = TEXT | CURSOR | LOC | OUT;
    each(ex, NAME, false, "¤ ↑ ↓ ⌫ << <>", ex.pick(5, 6), on, |l| {
        vec![e("letter").hist(&hist(&["¤", "a¤", "¤a", "¤a¤", "b", "a¤a"], l)), e("letter").hist(&hist(&["¤", "a¤", "¤¤a", "¤a¤", "b", "a¤a"], l)).init(l)]
    });
    let big: Vec<String> = (0..1100).map(|i| format!("a{} b{}", i, i % 7)).collect();
    let many = |k: Key, n: usize| Tok(vec![k; n]);
    let mut t = keyed("1 ↑ ↓ ⌫ << <>", 'a');
    t.extend([many(Up, 20), many(Up, 300), many(Down, 19), many(Down, 150), many(Up, 1100)]);
    ex.explore(&Lock::new("many entries", vec![e("many").hist(&big), e("many").hist(&big).init("b3")], t, ex.pick(3, 4), on));
    long(ex, "a · x ⌫ ↑ ↓ ^u", vec![], ex.pick(4, 5), on);
}

pub fn c10(ex: &mut Explorer) {
    let on = STATE | SCREEN;
    each(ex, NAME, true, "¤ ⌫ ^r ^s ↑ ^f", ex.pick(4, 5), on, |l| {
        vec![e("letter").hist(&hist(&["¤", "a¤", "¤a", "¤¤", "b"], l)), e("letter").hist(&hist(&["¤", "a¤¤", "b"], l)).init(l)]
    });
    let big: Vec<String> = (0..1100).map(|i| format!("a{} b{}", i, i % 7)).collect();
    let many = |k: Key, n: usize| Tok(vec![k; n]);
    let mut t = keyed("b 3 ⌫ ^r ^s ↑ ^f", 'a');
    t.extend([many(Ctrl('r'), 20), many(Ctrl('s'), 15), many(Up, 160)]);
    ex.explore(&Lock::new("many entries", vec![e("many").hist(&big), e("many").hist(&big).init("b3")], t, ex.pick(3, 3), on));
    let word = Tok("é ab".chars().map(Char).collect());
    long(ex, "a x ⌫ ^r ^s ↑ ^f", vec![word], ex.pick(4, 5), on & !SCREEN);
}

pub fn c11(ex: &mut Explorer) {
    let on = STATE | SCREEN | RESULT;
    each(ex, NAME, true, "¤ a ⌫ ← → ^f ⏎", ex.pick(4, 5), on, |l| {
        vec![e("letter").hist(&hist(&["¤", "a¤", "¤a", "¤a¤", "b"], l)), e("letter").hist(&hist(&["¤¤b", "¤¤"], l)).init(l)]
    });
    let big: Vec<String> = (0..1100).map(|i| format!("a{} b{}", i, i % 7)).collect();
    let t = keyed("a 1 0 · b ⌫ → ^f ⏎", 'a');
    ex.explore(&Lock::new("many entries", vec![e("many").hist(&big), e("many").hist(&big[..1]).init("a")], t, ex.pick(4, 5), on));
    long(ex, "a · x ⌫ ← → ^f ⏎", vec![], ex.pick(4, 5), on & !SCREEN);
}

pub fn c12(ex: &mut Explorer) {
    let on = SCREEN;
    each(ex, NAME, true, "¤ x ← ⌫ ↑ ⇤", ex.pick(3, 4), on, |l| {
        let mut v = vec![];
        for w in [80usize, 3, 4, 5] {
            v.push(e("letter").width(w).hist(&hist(&["a¤b\n¤"], l)));
            v.push(e("letter").width(w).init(&f("¤a", l)).prompt(&f("¤>", l)));
        }
        v
    });
    each(ex, "every character in the candidates", true, "⇥ x ⌫", ex.pick(3, 4), on, |l| {
        [80usize, 7].iter().map(|w| e("letter").width(*w).cands(&[&f("x¤b", l), &f("xa¤", l), "xb"])).collect()
    });
    // wider terminals, longer lines, more lines
    let mut cfgs = vec![];
    let long = "ab 世d".repeat(30);
    let lines = "ab\n世\n\n".repeat(10);
    for w in [79usize, 80, 100, 132, 255, 256, 300] {
        cfgs.push(e("long").width(w).init(&long).hist(&[&lines[..], &long]));
        cfgs.push(e("long").width(w).init(&lines).hist(&[&long[..]]).prompt(&"long prompt ".repeat(8)));
        cfgs.push(v("long").width(w).init(&lines).hist(&[&long[..]]).status());
    }
    let many = |k: Key, n: usize| Tok(vec![k; n]);
    let mut t = keyed("x 世 ← ⌫ ↑ ⇤ ^l ^u", 'a');
    t.extend([many(Left, 40), many(Char('w'), 77), many(Char('世'), 60)]);
    ex.explore(&Lock::new("long lines", cfgs, t, ex.pick(3, 4), on));
    // hundreds of rows, prompts hundreds of columns wide
    let mut cfgs = vec![];
    let rows = "a世\n".repeat(320);
    let text = "ab世".repeat(300);
    let list: Vec<String> = (0..300).map(|i| format!("x{}", i)).collect();
    let list: Vec<&str> = list.iter().map(|s| &s[..]).collect();
    for (w, p) in [(80, 2), (3, 2)] {
        let b = e("many rows").width(w).prompt(&"p".repeat(p));
        cfgs.push(b.clone().init(&rows).hist(&[&text[..]]));
        cfgs.push(b.clone().init(&text).hist(&[&rows[..]]));
        cfgs.push(b.cands(&list));
    }
    for (w, p) in [(600, 300), (600, 511), (1100, 1024)] {
        cfgs.push(e("wide prompt").width(w).prompt(&"p".repeat(p)).init("a\nb").hist(&["x\ny\nz", &text]));
    }
    let t = keyed("x ↑ ← ⇤ ^l ⇥ ⏎", 'a');
    ex.explore(&Lock::new("many rows", cfgs, t, ex.pick(3, 4), on));
}

pub fn c13(ex: &mut Explorer) {
    let on = TEXT | CURSOR | OUT | ASKED | NOTICE | SCREEN;
    each(ex, NAME, true, "⇥ a ¤ ← ⌫ ·", ex.pick(4, 5), on, |l| {
        // no place in a list shows a name that begins with a mark
        if unicode_width::UnicodeWidthStr::width(l) == 0 {
            return vec![];
        }
        vec![
            e("letter").init(&f("x ¤", l)).cands(&[&f("¤a", l), &f("¤b", l)]),
            e("letter").init(&f("a¤a", l)).pre(&[Left]).cands(&[&f("a¤", l), &f("a¤¤", l), "ab"]),
            e("letter").cands(&[l, "a"]),
        ]
    });
    let sets: Vec<String> = (0..300).map(|i| format!("a{}", i * 7 % 300)).collect();
    let refs: Vec<&str> = sets.iter().map(|s| &s[..]).collect();
    let long: Vec<String> = ["x", "y", "xy"].iter().map(|s| format!("{}{}", "abc".repeat(40), s)).collect();
    let lrefs: Vec<&str> = long.iter().map(|s| &s[..]).collect();
    let mut t = keyed("⇥ a 1 ← ⌫ · ⏎", 'a');
    t.push(Tok(vec![Char('\t'); 12]));
    t.push(Tok(vec![Char('\t'); 301]));
    ex.explore(&Lock::new("many candidates", vec![e("many").cands(&refs), e("long").cands(&lrefs).init("x a")], t, ex.pick(4, 4), on & !SCREEN));
}

pub fn c20(ex: &mut Explorer) {
    let on = OUT | RESULT | EVENTS;
    each(ex, NAME, false, "¤ ⏎ ← ⌫ ↑ ^d", ex.pick(4, 5), on, |l| vec![e("letter").init(&f("a¤", l)).hist(&hist(&["¤a", "a¤", "b¤ a¤¤"], l))]);
    let cfgs = vec![e("text").init("ab"), e("empty").hist(&["ab cd"]), v("vi").init("ab").pre(&[Esc]), v("vi").hist(&["ab"])];
    ex.explore(&Lock::new("every key", cfgs, singles(&every_key()), ex.pick(2, 3), on));
    let long = "ab 世d\\".repeat(300);
    let many = |k: Key, n: usize| Tok(vec![k; n]);
    let mut t = keyed("x ⏎ ← ⌫ ↑ ^d ^c", 'a');
    t.extend([many(Char('w'), 300), many(Char('\\'), 3)]);
    ex.explore(&Lock::new("long lines", vec![e("long").init(&long), e("long").hist(&[&long[..]])], t, ex.pick(4, 5), on));
}

pub fn c24(ex: &mut Explorer) {
    let on = TEXT | CURSOR | OUT;
    each(ex, NAME, false, "<. ¤ ↑ ←", ex.pick(4, 5), on, |l| {
        vec![
            e("letter").init(&f("y¤z", l)).pre(&[Left]).hist(&hist(&["x ¤", "x b¤", "¤b", "¤ "], l)),
            e("letter").hist(&hist(&["a ¤¤a¤ ", "x¤ b"], l)),
        ]
    });
    let big: Vec<String> = (0..1100).map(|i| format!("a{} b{}", i, i % 7)).collect();
    let many = |k: Key, n: usize| Tok(vec![k; n]);
    let mut t = keyed("<. a ↑ ←", 'a');
    t.extend([many(Alt('.'), 40), many(Alt('.'), 1100)]);
    ex.explore(&Lock::new("many entries", vec![e("many").hist(&big)], t, ex.pick(3, 3), on));
    long(ex, "<. a · ↑ ←", vec![], ex.pick(4, 5), on);
}

pub fn c25(ex: &mut Explorer) {
    let on = STATE | HIST | RESULT;
    let t = calls(&[
        Api::Left(1), Api::Right(1), Api::Left(7), Api::To(50), Api::To(200), Api::Until(60), Api::UntilIncl(60), Api::Until(10), Api::UntilIncl(10), Api::DelWord(true),
        Api::DelAllBefore, Api::DelAllAfter, Api::Str("aé b"), Api::Undo, Api::Redo, Api::Revert, Api::Start, Api::End,
    ]);
    let long = "ab c\\ dé ".repeat(20);
    ex.explore(&Lock::new("long lines", vec![e("long").init(&long), e("long").hist(&[&long[..]]).pre(&[Up])], singles(&t), ex.pick(4, 5), on));
}

pub fn c23(ex: &mut Explorer) {
    let on = STATUS | OUT;
    // every key, in either mode and after the first keys of a command
    let b = v("every key").status().init("a b,c").hist(&["ab c", "b"]).cands(&["ab", "ac"]);
    let mut cfgs = vec![];
    for p in ["", "\x1b", "\x1bd", "\x1bc", "\x1bf", "\x1br", "\x1b~", "\x1bcg", "\x1b0d3", "\x1bix\x1b"] {
        cfgs.push(b.clone().pre(&ks(p)));
    }
    ex.explore(&Lock::new("every key", cfgs, singles(&every_key()), ex.pick(2, 2), on));
    each(ex, NAME, true, "¤ a ⎋ f r c .", ex.pick(4, 5), on, |l| vec![v("letter").status().init(&f("a¤", l))]);
    let long = "ab 世d ".repeat(60);
    let many = |k: Key, n: usize| Tok(vec![k; n]);
    let mut t = keyed("a ⎋ i . d c w u ↑ 9", 'a');
    t.extend([many(Char('x'), 70), many(Char('u'), 70), many(Esc, 9), many(Char('d'), 9)]);
    ex.explore(&Lock::new("long lines", vec![v("long").status().init(&long), v("long").status().hist(&[&long[..], "x"]).pre(&[Esc])], t, ex.pick(3, 4), on));
}

pub fn c26(ex: &mut Explorer) {
    let on = COLOURS;
    each(ex, NAME, true, "¤ a ← ⌫ ↑ ^f", ex.pick(3, 4), on, |l| {
        [80usize, 5].iter().flat_map(|w| {
            let c = e("letter").width(*w).hist(&hist(&["a¤b\n¤", "¤a", "¤¤"], l));
            vec![c.clone(), c.colour()]
        }).collect()
    });
    each(ex, "every character in the candidates", true, "⇥ x ⌫", ex.pick(3, 4), on, |l| {
        // no place in a list shows a name that begins with a mark
        if unicode_width::UnicodeWidthStr::width(l) == 0 {
            return vec![];
        }
        [80usize, 7].iter().map(|w| e("letter").width(*w).cands(&[&f("x¤b", l), &f("xa¤", l), "xb"])).collect()
    });
    let long = "ab 世d".repeat(60);
    let longer = "ab 世d".repeat(240);
    let lines = "ab\n世\n\n".repeat(100);
    let wide = format!("{}\n{}\nx", "a".repeat(300), "世".repeat(1030));
    let mut cfgs = vec![];
    for w in [7usize, 80, 300] {
        for t in [&long, &longer, &lines, &wide] {
            let more = format!("{}{}", t, t);
            let c = e("long").width(w).init(t).hist(&[&more[..], "x"]);
            cfgs.push(c.clone());
            cfgs.push(c.colour());
            // typed from the start of it
            let first: String = t.chars().take(2).collect();
            cfgs.push(e("suggested").width(w).hist(&[t.as_str()]).init(&first).colour());
        }
    }
    let t = keyed("x ↑ ← ⌫ ^f ^u ⏎", 'a');
    ex.explore(&Lock::new("long lines", cfgs, t, ex.pick(3, 4), on));
    let list: Vec<String> = (0..300).map(|i| format!("x{}", i * 7 % 300)).collect();
    let list: Vec<&str> = list.iter().map(|s| &s[..]).collect();
    let mut t = keyed("⇥ x ⌫ ⏎", 'a');
    t.extend([12, 101, 256, 301].map(|n| Tok(vec![Char('\t'); n])));
    let cfgs = vec![e("many").cands(&list), e("many").width(5).cands(&list), e("many").width(300).cands(&list).init("y ").colour()];
    ex.explore(&Lock::new("many candidates", cfgs, t, ex.pick(3, 4), on));
}
