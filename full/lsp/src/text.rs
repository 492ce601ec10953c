//! S01 edits, S02 positions, S03 documents, S09 applying edits

use aether_lsp_utils::proto::{from_proto, to_proto};
use biome_line_index::LineIndex;
use biome_text_size::{TextRange, TextSize};
use lsp::documents::Document;
use mc::{Check, Ctx, Tier, Verdict, ensure, ensure_eq};
use serde::{Deserialize, Serialize};
use settings::LineEnding;
use tower_lsp::lsp_types::{Range, TextDocumentContentChangeEvent, TextEdit};

use crate::client::{self, ENCODINGS, Enc, apply, change, crlf, normal, places};

/// All texts of at most `max` of these symbols, shortest first
fn texts(symbols: &[&str], max: usize, f: &mut dyn FnMut(String)) {
    let mut layer = vec![String::new()];
    for n in 0..=max {
        for text in &layer {
            f(text.clone());
        }
        if n < max {
            layer = layer.iter().flat_map(|t| symbols.iter().map(move |s| format!("{t}{s}"))).collect();
        }
    }
}

fn all_texts(symbols: &[&str], max: usize) -> Vec<String> {
    let mut out = Vec::new();
    texts(symbols, max, &mut |t| out.push(t));
    out
}

// ---------------------------------------------------------------------------------------

pub struct Positions;

#[derive(Clone, Serialize, Deserialize)]
pub struct Text {
    text: String,
}

impl Check for Positions {
    type Case = Text;
    fn id(&self) -> &'static str {
        "S02"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "all texts of at most {} characters out of: newline, tab, letter, and letters of 2, 3 and 4 bytes; every offset and every pair of offsets in them, in the three encodings",
            tier.pick(6, 7)
        )
    }
    fn assumptions(&self) -> Vec<String> {
        crate::assumptions()
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Text)) {
        texts(&["a", "\n", "é", "€", "𐐀", "\t"], tier.pick(6, 7), &mut |text| emit(Text { text }));
    }
    fn judge(&self, case: &Text, ctx: &mut Ctx) -> Verdict {
        let text = &case.text;
        ctx.state(text);
        let index = LineIndex::new(text);
        for enc in ENCODINGS {
            let all = places(text, enc);
            ctx.step(all.len() as u64);
            for (at, position) in &all {
                let size = TextSize::from(*at as u32);
                let there = to_proto::position_from_offset(size, &index, enc.air()).map_err(|e| format!("{text:?}, {enc:?}, offset {at}: {e}"))?;
                ensure_eq!(there, *position, "{text:?}, {enc:?}, position of offset {at}");
                let back = from_proto::offset_from_position(*position, &index, enc.air()).map_err(|e| format!("{text:?}, {enc:?}, {position:?}: {e}"))?;
                ensure_eq!(usize::from(back), *at, "{text:?}, {enc:?}, offset of {position:?}");
            }
            if text.chars().count() <= 4 {
                for (i, (a, p)) in all.iter().enumerate() {
                    for (b, q) in &all[i..] {
                        let range = TextRange::new((*a as u32).into(), (*b as u32).into());
                        let there = to_proto::range(range, &index, enc.air()).map_err(|e| e.to_string())?;
                        ensure_eq!(there, Range::new(*p, *q), "{text:?}, {enc:?}, range {a}..{b}");
                        let back = from_proto::text_range(there, &index, enc.air()).map_err(|e| e.to_string())?;
                        ensure_eq!(back, range, "{text:?}, {enc:?}, text range of {there:?}");
                    }
                }
            }
        }
        ctx.outcome(if text.is_ascii() { "only ascii" } else { "with wide characters" });
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------

pub struct Edits;

#[derive(Clone, Serialize, Deserialize)]
pub struct Pair {
    from: String,
    to: String,
}

/// All ways to pair equal characters of both texts in order
fn alignments(a: &[char], b: &[char], f: &mut dyn FnMut(&[(usize, usize)])) {
    fn go(a: &[char], b: &[char], i: usize, j: usize, pairs: &mut Vec<(usize, usize)>, f: &mut dyn FnMut(&[(usize, usize)])) {
        f(pairs);
        for x in i..a.len() {
            for y in j..b.len() {
                if a[x] == b[y] {
                    pairs.push((x, y));
                    go(a, b, x + 1, y + 1, pairs, f);
                    pairs.pop();
                }
            }
        }
    }
    go(a, b, 0, 0, &mut Vec::new(), f)
}

impl Edits {
    fn one(&self, from: &str, to: &str, index: &LineIndex, ctx: &mut Ctx) -> Result<usize, mc::Failure> {
        let mut count = 0;
        let edit = aether_lsp_utils::diff::diff(from, to);
        let mut text = from.to_string();
        edit.apply(&mut text);
        ensure_eq!(text, to, "difference of {from:?} and {to:?}, applied by itself");
        for enc in ENCODINGS {
            for endings in [LineEnding::Lf, LineEnding::Crlf] {
                ctx.step(1);
                let edits = to_proto::replace_all_edit(from, to, index, enc.air(), endings).map_err(|e| format!("{from:?} to {to:?}: {e}"))?;
                count = edits.len();
                let (theirs, want) = match endings {
                    LineEnding::Lf => (from.to_string(), to.to_string()),
                    LineEnding::Crlf => (crlf(from), crlf(to)),
                };
                let got = apply(&theirs, enc, &edits)?;
                ensure_eq!(got, want, "{theirs:?} with {edits:?}, {enc:?}");
                // the same as document changes, one after the other from the end
                let edit = aether_lsp_utils::diff::diff(from, to);
                let changes = to_proto::doc_edit_vec(edit, index, enc.air(), endings).map_err(|e| e.to_string())?;
                let mut text = theirs.clone();
                for c in changes.iter().rev() {
                    text = change(&text, enc, c.range.ok_or("a change without a range")?, &c.text)?;
                }
                ensure_eq!(text, want, "{theirs:?} with {changes:?}, {enc:?}");
            }
        }
        Ok(count)
    }
}

impl Check for Edits {
    type Case = Pair;
    fn id(&self) -> &'static str {
        "S01"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "all pairs of texts of at most {} characters out of: letter, newline, a letter of 2 bytes and one of 4; for each pair all ways in which a difference can pair their equal characters; three encodings, both line endings",
            tier.pick(4, 5)
        )
    }
    fn assumptions(&self) -> Vec<String> {
        crate::assumptions()
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Pair)) {
        let texts = all_texts(&["a", "\n", "é", "𐐀"], tier.pick(4, 5));
        for from in &texts {
            for to in &texts {
                emit(Pair { from: from.clone(), to: to.clone() });
            }
        }
    }
    fn judge(&self, case: &Pair, ctx: &mut Ctx) -> Verdict {
        let Pair { from, to } = case;
        let index = LineIndex::new(from);
        dissimilar::plan(None);
        let n = self.one(from, to, &index, ctx)?;
        ensure!((n == 0) == (from == to), "{n} edits from {from:?} to {to:?}");
        ctx.outcome(match n {
            0 => "no edits",
            1 => "one edit",
            _ => "several edits",
        });
        let (a, b): (Vec<char>, Vec<char>) = (from.chars().collect(), to.chars().collect());
        let mut result = Ok(());
        let whole = |pairs: &[(usize, usize)]| pairs.len() == a.len() && a.len() == b.len();
        alignments(&a, &b, &mut |pairs| {
            // a difference of equal texts is empty
            if result.is_ok() && (from != to || whole(pairs)) {
                ctx.state(&(from, to, pairs));
                dissimilar::plan(Some(pairs.to_vec()));
                result = self.one(from, to, &index, ctx).map(|_| ());
            }
        });
        dissimilar::plan(None);
        result
    }
}

// ---------------------------------------------------------------------------------------

pub struct Documents;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Change {
    /// Offsets in the client's text; nothing for the whole text
    range: Option<(usize, usize)>,
    text: String,
}

#[derive(Clone, Serialize, Deserialize)]
pub struct History {
    open: String,
    enc: Enc,
    /// Notifications with their changes
    changes: Vec<Vec<Change>>,
}

impl Check for Documents {
    type Case = History;
    fn id(&self) -> &'static str {
        "S03"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "texts of at most {} symbols out of: letter, 4-byte letter, newline, carriage return with newline; every range of every text; inserted text none, a 2-byte letter, either line ending, lines; whole texts; up to {} changes, in one notification or in one each; UTF-8 and UTF-16",
            tier.pick(3, 4),
            tier.pick("two (three of fewer symbols)", "three")
        )
    }
    fn assumptions(&self) -> Vec<String> {
        let mut all = crate::assumptions();
        all.push("line endings are `\\n` or `\\r\\n`; an edit does not split or make a `\\r\\n`".into());
        all
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(History)) {
        const SYMBOLS: &[&str] = &["a", "𐐀", "\n", "\r\n"];
        const NEW: &[&str] = &["", "é", "\n", "\r\n", "x\r\ny\n"];
        fn changes(text: &str, new: &[&str]) -> Vec<Change> {
            let places: Vec<usize> = places(text, Enc::Utf8).into_iter().map(|(at, _)| at).collect();
            let mut out = Vec::new();
            for text in ["", "é\r\nb", "\n"] {
                out.push(Change { range: None, text: text.into() });
            }
            for (i, a) in places.iter().enumerate() {
                for b in &places[i..] {
                    for n in new {
                        if a < b || !n.is_empty() {
                            out.push(Change { range: Some((*a, *b)), text: n.to_string() });
                        }
                    }
                }
            }
            out
        }
        fn after(text: &str, change: &Change) -> String {
            match change.range {
                None => change.text.clone(),
                Some((a, b)) => format!("{}{}{}", &text[..a], change.text, &text[b..]),
            }
        }
        let mut history = |open: &str, list: Vec<Change>| {
            for enc in [Enc::Utf8, Enc::Utf16] {
                // as one notification, or one each
                emit(History { open: open.into(), enc, changes: vec![list.clone()] });
                if list.len() > 1 {
                    emit(History { open: open.into(), enc, changes: list.iter().map(|c| vec![c.clone()]).collect() });
                }
            }
        };
        let sizes = tier.pick([3, 3, 1], [4, 4, 2]);
        texts(SYMBOLS, sizes[0], &mut |text| {
            history(&text, vec![]);
            for one in changes(&text, NEW) {
                history(&text, vec![one]);
            }
        });
        texts(SYMBOLS, sizes[1], &mut |text| {
            for one in changes(&text, NEW) {
                let next = after(&text, &one);
                for two in changes(&next, &NEW[..tier.pick(4, 5)]) {
                    history(&text, vec![one.clone(), two]);
                }
            }
        });
        texts(SYMBOLS, sizes[2], &mut |text| {
            for one in changes(&text, NEW) {
                let next = after(&text, &one);
                for two in changes(&next, &NEW[..3]) {
                    let last = after(&next, &two);
                    for three in changes(&last, &NEW[..3]) {
                        history(&text, vec![one.clone(), two.clone(), three]);
                    }
                }
            }
        });
    }
    fn judge(&self, case: &History, ctx: &mut Ctx) -> Verdict {
        let mut theirs = case.open.clone();
        let mut document = Document::new(theirs.clone(), Some(3), case.enc.air());
        let mut version = 3;
        // The endings of lines the client has used in this text
        let mut used = endings(&theirs);
        let agree = |document: &Document, theirs: &str, version: i32, used: &[LineEnding]| -> Verdict {
            ensure_eq!(document.contents, normal(theirs), "contents of {theirs:?}");
            ensure_eq!(document.version, Some(version), "version");
            ensure_eq!(document.line_index, LineIndex::new(&normal(theirs)), "line index of {theirs:?}");
            if let [ending] = used {
                ensure_eq!(document.endings, *ending, "line ending of {theirs:?}");
            }
            Ok(())
        };
        agree(&document, &theirs, version, &used)?;
        for notification in &case.changes {
            let mut events = Vec::new();
            for c in notification {
                let range = match c.range {
                    None => None,
                    Some((a, b)) => {
                        let all = places(&theirs, case.enc);
                        let at = |o: usize| all.iter().find(|(x, _)| *x == o).map(|(_, p)| *p);
                        let (Some(a), Some(b)) = (at(a), at(b)) else { return Err("not a place".into()) };
                        Some(Range::new(a, b))
                    }
                };
                if range.is_none() {
                    used.clear();
                }
                used.extend(endings(&c.text));
                used.dedup();
                theirs = match range {
                    None => c.text.clone(),
                    Some(range) => change(&theirs, case.enc, range, &c.text)?,
                };
                events.push(TextDocumentContentChangeEvent { range, range_length: None, text: c.text.clone() });
            }
            version += 2;
            ctx.step(1);
            ctx.outcome(match (events.len(), events.iter().any(|e| e.range.is_none())) {
                (1, false) => "one incremental change",
                (1, true) => "one whole text",
                (_, false) => "several incremental changes",
                (_, true) => "several changes with a whole text",
            });
            document.on_did_change(events, version);
            ctx.state(&(&theirs, case.enc));
            agree(&document, &theirs, version, &used)?;
        }
        Ok(())
    }
}

/// The kinds of line endings in a text, at most one of each in a row
fn endings(text: &str) -> Vec<LineEnding> {
    let mut out = Vec::new();
    for line in text.split_inclusive('\n').filter(|line| line.ends_with('\n')) {
        out.push(if line.ends_with("\r\n") { LineEnding::Crlf } else { LineEnding::Lf });
    }
    out.dedup();
    out
}

// ---------------------------------------------------------------------------------------

pub struct Apply;

#[derive(Clone, Serialize, Deserialize)]
pub struct EditList {
    text: String,
    enc: Enc,
    edits: Vec<(usize, usize, String)>,
}

impl Check for Apply {
    type Case = EditList;
    fn id(&self) -> &'static str {
        "S09"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "texts of at most {} symbols out of: letter, 4-byte letter, newline; all lists of at most three edits that do not overlap, in every order the protocol allows; UTF-8 and UTF-16",
            tier.pick(3, 4)
        )
    }
    fn assumptions(&self) -> Vec<String> {
        crate::assumptions()
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(EditList)) {
        let symbols = &["a", "𐐀", "\n"];
        texts(symbols, tier.pick(3, 4), &mut |text| {
            let places: Vec<usize> = places(&text, Enc::Utf8).into_iter().map(|(at, _)| at).collect();
            let mut spans = Vec::new();
            for (i, a) in places.iter().enumerate() {
                for b in &places[i..] {
                    spans.push((*a, *b));
                }
            }
            let mut lists: Vec<Vec<(usize, usize, String)>> = vec![vec![]];
            for depth in 0..3 {
                let mut next = Vec::new();
                for list in &lists {
                    for &(a, b) in &spans {
                        // edits do not overlap; where one that replaces and inserts start at the same
                        // place, the one that replaces is the last
                        if list.iter().any(|&(c, d, _)| d > a && b > c || a == c && c < d) {
                            continue;
                        }
                        for new in ["x", "\n", ""] {
                            if a == b && new.is_empty() {
                                continue;
                            }
                            let mut longer = list.clone();
                            let new = if new == "x" { format!("{depth}") } else { new.to_string() };
                            longer.push((a, b, new));
                            next.push(longer);
                        }
                    }
                }
                for edits in &next {
                    for enc in [Enc::Utf8, Enc::Utf16] {
                        emit(EditList { text: text.clone(), enc, edits: edits.clone() });
                    }
                }
                lists = next;
            }
        });
    }
    fn judge(&self, case: &EditList, ctx: &mut Ctx) -> Verdict {
        let EditList { text, enc, edits } = case;
        let all = places(text, *enc);
        let at = |o: usize| all.iter().find(|(x, _)| *x == o).map(|(_, p)| *p).ok_or("not a place");
        let mut list = Vec::new();
        for (a, b, new) in edits {
            list.push(TextEdit { range: Range::new(at(*a)?, at(*b)?), new_text: new.clone() });
        }
        let want = client::apply(text, *enc, &list)?;
        let same = edits.iter().enumerate().any(|(i, x)| edits[..i].iter().any(|y| x.0 == y.0));
        ctx.outcome(if same { "edits at the same place" } else { "edits at different places" });
        ctx.state(&(text, edits));
        ctx.step(list.len() as u64);
        let mut got = text.clone();
        let mut index = LineIndex::new(text);
        from_proto::apply_text_edits(&mut got, list.clone(), &mut index, enc.air());
        ensure_eq!(got, want, "{text:?} with {edits:?}");
        Ok(())
    }
}
