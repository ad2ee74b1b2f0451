//! Reading grammar files: the tree against what was written.
use crate::lexer::schar;
use crate::sym::*;
use bumpalo::Bump;
use typelalr::parser::ast::*;

struct WSym { kind: usize, text: String, name: Option<String> }
struct WBody { syms: Vec<WSym>, code: String }
struct WProd { name: String, start: bool, ts: String, bodies: Vec<WBody> }

fn same_sym(s: &InputSymbol, w: &WSym, inner: bool) -> bool {
    match s {
        InputSymbol::Named(n) => !inner && match (&n.name, &w.name) { (Some(a), Some(b)) => a.0 == b, _ => false } && same_sym(n.ty, w, true),
        _ if !inner && w.name.is_some() => false,
        InputSymbol::StrLit(t) => w.kind == 0 && *t == w.text,
        InputSymbol::Regex(t) => w.kind == 1 && *t == w.text,
        InputSymbol::NonTerminal(t) => w.kind == 2 && t.0 == w.text,
        _ => false,
    }
}
fn compare(text: &str, want: &[WProd]) { compare_with(text, || want) }
fn compare_with<W: std::borrow::Borrow<[WProd]>>(text: &str, want: impl FnOnce() -> W) {
    let bump = Bump::new();
    let got = match catch(|| typelalr::parse_grammar(&bump, text)) { Ok(v) => v, Err(()) => { fail("a grammar file cannot be read"); return } };
    let want = want();
    let want = want.borrow();
    if got.len() != want.len() { fail("the productions are not those written"); return; }
    for (g, w) in got.iter().zip(want) {
        check(g.name.0 == w.name, "a production has another name than written");
        check(g.is_start == w.start, "a start mark is lost or made up");
        check(g.ts_code == w.ts, "the type of a production is not the text written");
        if g.bodies.len() != w.bodies.len() { fail("the alternatives are not those written"); return; }
        for (b, v) in g.bodies.iter().zip(&w.bodies) {
            check(b.mapping_fn == v.code, "the action code is not the text written");
            check(b.input_tokens.len() == v.syms.len() && b.input_tokens.iter().zip(&v.syms).all(|(s, w)| same_sym(s, w, false)), "the symbols of an alternative are not those written");
        }
    }
    out(got.len() as u64);
}

struct Text(Vec<u8>);
impl Text {
    fn s(&mut self, s: &str) { self.0.extend_from_slice(s.as_bytes()); }
    /// the text if the flag is 1, else as many spaces
    fn opt(&mut self, f: u8, s: &str) { for &c in s.as_bytes() { self.0.push(b' ' ^ ((c ^ b' ') & f.wrapping_neg())); } }
}
fn flag(fixed: Option<u8>) -> u8 { match fixed { Some(v) => v, None => { let x = u8(); assume(x < 2); unsafe { std::ptr::read_volatile(&x) } } } }
/// a symbol: whether there is one, quoted, a pattern (if not quoted), named
struct Slot([u8; 4], char);
fn slot(t: &mut Text, free: bool, p: u8, c: char) -> Slot {
    let (q, r, n) = (flag(if free { None } else { Some(1) }), flag(if free { None } else { Some(0) }), flag(if free { None } else { Some(0) }));
    t.opt(p & n, "<n");
    t.opt(p & n, &c.to_string());
    t.opt(p & n, " : ");
    t.opt(p & (1 - q) & r, "r");
    t.opt(p & (q | r), "\"");
    t.opt(p, &c.to_string());
    t.opt(p & (q | r), "\"");
    t.opt(p & n, ">");
    t.s(" ");
    Slot([p, q, r, n], c)
}
impl Slot {
    fn written(&self) -> Option<WSym> {
        let f = |i: usize| each(self.0[i] as usize) == 1;
        if !f(0) { return None; }
        Some(WSym { kind: if f(1) { 0 } else if f(2) { 1 } else { 2 }, text: self.1.to_string(), name: if f(3) { Some(format!("n{}", self.1)) } else { None } })
    }
}

/// C07: structure. params: which symbol slots are free (bits), whether the marks and commas are free
#[no_mangle]
pub extern "C" fn h_read() {
    let (m, marks) = (param(0), param(1) != 0);
    let fr = |v: u8| if marks { None } else { Some(v) };
    let mut t = Text(vec![]);
    let (e1, s1, e2, s2) = (flag(fr(1)), flag(fr(1)), flag(fr(0)), flag(fr(0)));
    assume(s1 <= e1 && s2 <= e2);
    t.opt(e1, "export ");
    t.opt(s1, "start ");
    t.s("First: (T1) = [\n ");
    let a = slot(&mut t, m & 1 != 0, 1, 'a');
    let p = flag(if m & 2 != 0 { None } else { Some(0) });
    let b = slot(&mut t, m & 2 != 0, p, 'b');
    let p = flag(if m & 16 != 0 { None } else { Some(0) });
    let d = slot(&mut t, m & 16 != 0, p, 'd');
    t.s(" => (code 1)");
    let c1 = flag(fr(1));
    t.opt(c1, ",");
    t.s("\n");
    // a second alternative
    let b2 = flag(fr(1));
    assume(b2 <= c1);
    let c = slot(&mut t, m & 4 != 0, b2, 'c');
    t.opt(b2, "=> (code 2)");
    let c2 = flag(fr(1));
    assume(c2 <= b2);
    t.opt(c2, ",");
    t.s("\n]\n");
    t.opt(e2, "export ");
    t.opt(s2, "start ");
    t.s("Second: (T2) = [\n ");
    // (the alternative of the second is there or not)
    let b3 = flag(fr(1));
    let e = slot(&mut t, m & 8 != 0, b3, 'e');
    t.opt(b3, "=> (code 3)");
    t.s("\n]\n");
    let text = unsafe { String::from_utf8_unchecked(t.0) };
    compare_with(&text, || {
        let on = |f: u8| each(f as usize) == 1;
        let mut bodies = vec![WBody { syms: [&a, &b, &d].iter().filter_map(|s| s.written()).collect(), code: "code 1".into() }];
        if on(b2) { bodies.push(WBody { syms: c.written().into_iter().collect(), code: "code 2".into() }); }
        let last = if on(b3) { vec![WBody { syms: e.written().into_iter().collect(), code: "code 3".into() }] } else { vec![] };
        vec![WProd { name: "First".into(), start: on(s1), ts: "T1".into(), bodies }, WProd { name: "Second".into(), start: on(s2), ts: "T2".into(), bodies: last }]
    });
    reach(1);
}

/// a text of n characters that may stand in the place
fn content(place: usize, n: usize, mode: usize) -> String {
    let mut s = String::with_capacity(4 * n + 4);
    let mut esc = false;
    for i in 0..n {
        let c = schar(mode);
        match place {
            // identifiers
            0 | 5 => assume((c as u32) < 128 && (c == '_' || c.is_ascii_alphabetic() || i > 0 && c.is_ascii_digit())),
            // quoted texts: a backslash only before a backslash or a quote, a quote only behind a backslash
            1 | 2 => { if esc { assume(c == '\\' || c == '"'); esc = false; } else if c == '\\' { esc = true; } else { assume(c != '"'); } }
            // code: one line
            3 | 4 => assume(c != '\n'),
            _ => assume(c.is_whitespace()),
        }
        s.push(c);
        unsafe { let l = each(s.len()); s.as_mut_vec().set_len(l); }
    }
    assume(!esc);
    if place == 0 || place == 5 { assume(s != "r"); }
    s
}

/// C07: texts. params: place (0 name, 1 quoted text, 2 pattern, 3 type, 4 action, 5 binding, 6 layout), characters, mode
#[no_mangle]
pub extern "C" fn h_read_text() {
    let (place, mode) = (param(0), param(2));
    let least = if place == 0 || place == 5 { 1 } else { 0 };
    let n = least + pick(param(1) + 1 - least);
    let x = content(place, n, mode);
    let at = |p: usize, d: &str| if p == place { x.clone() } else { d.to_string() };
    let (name, quoted, pattern, ts, code, bind) = (at(0, "Bb"), at(1, "a"), at(2, "b+"), at(3, "T"), at(4, "c"), at(5, "x"));
    let q = |s: &str| format!("\"{}\"", s);
    let p = |s: &str| format!("({})", s);
    let toks: Vec<String> = vec![
        "export".into(), "start".into(), "A".into(), ":".into(), p(&ts), "=".into(), "[".into(), "\n".into(),
        q(&quoted), "<".into(), bind.clone(), ":".into(), "A".into(), ">".into(), "r".into(), q(&pattern), "=>".into(), p(&code), ",".into(), "\n".into(),
        name.clone(), "A".into(), "=>".into(), "(d)".into(), "\n".into(), "]".into(),
        name.clone(), ":".into(), "(U)".into(), "=".into(), "[".into(), "\n".into(), q("c"), "=>".into(), "(e)".into(), ",".into(), "]".into(),
    ];
    let gap = if place == 6 { pick(toks.len() + 1) } else { 1000 };
    let word = |s: &str| s.as_bytes().first().map_or(false, |c| c.is_ascii_alphabetic());
    let mut t = String::with_capacity(400);
    for (i, k) in toks.iter().enumerate() {
        if i == gap {
            // between words something is needed
            if n == 0 && i > 0 && word(&toks[i - 1]) && word(k) { return; }
            t.push_str(&x);
        } else if i > 0 { t.push(' '); }
        t.push_str(k);
    }
    if gap == toks.len() { t.push_str(&x); }
    let sym = |kind: usize, text: &str, name: Option<&str>| WSym { kind, text: text.into(), name: name.map(|x| x.into()) };
    let want = vec![
        WProd { name: "A".into(), start: true, ts: ts.clone(), bodies: vec![
            WBody { syms: vec![sym(0, &quoted, None), sym(2, "A", Some(&bind)), sym(1, &pattern, None)], code: code.clone() },
            WBody { syms: vec![sym(2, &name, None), sym(2, "A", None)], code: "d".into() }] },
        WProd { name: name.clone(), start: false, ts: "U".into(), bodies: vec![WBody { syms: vec![sym(0, "c", None)], code: "e".into() }] },
    ];
    compare(&t, &want);
    reach(n as u64);
}
