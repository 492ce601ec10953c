//! S05 formatting a selection

use mc::{Check, Ctx, Tier, Verdict, ensure};
use serde::{Deserialize, Serialize};

use crate::client::{Enc, apply, crlf, normal, places};
use crate::oracle;
use crate::r;
use crate::server::{Indent, Options, Server};
use tower_lsp::lsp_types::Range;

pub struct Selection;

#[derive(Clone, Serialize, Deserialize)]
pub struct Doc {
    text: String,
    crlf: bool,
    enc: Enc,
}

/// A list of statements: those of the file, or those between braces
#[derive(Debug, Clone, Default)]
struct List {
    open: usize,
    close: usize,
    items: Vec<Item>,
}

#[derive(Debug, Clone, Default)]
struct Item {
    /// The first comment above the statement, or its start
    lead: usize,
    start: usize,
    end: usize,
    /// The end of a comment behind it, or its end
    trail: usize,
    /// What may count as belonging to it, blanks included
    reach: usize,
    lists: Vec<List>,
}

/// `;` that ends no statement is not R, except in braces
fn lone_semicolon(text: &str) -> bool {
    let mut ends = false;
    for (c, part) in oracle::parts(text) {
        match (c, part) {
            (';', oracle::Part::Code) if !ends => return true,
            (';' | '\n' | '{', oracle::Part::Code) | (_, oracle::Part::Comment) => ends = false,
            (' ' | '\r', oracle::Part::Code) => {}
            _ => ends = true,
        }
    }
    false
}

/// Reads statements off a text without errors
fn statements(text: &str) -> List {
    let parts: Vec<(usize, char, oracle::Part)> = {
        let mut at = 0;
        oracle::parts(text)
            .into_iter()
            .map(|(c, part)| {
                let start = at;
                at += c.len_utf8();
                (start, c, part)
            })
            .collect()
    };
    struct Frame {
        list: List,
        current: Option<Item>,
        lead: Option<usize>,
        /// of the statement's parentheses
        depth: usize,
        /// An item of this list has ended on this line
        same_line: bool,
    }
    let frame = |open| Frame { list: List { open, ..List::default() }, current: None, lead: None, depth: 0, same_line: true };
    let mut stack = vec![frame(0)];
    fn finish(f: &mut Frame) {
        f.depth = 0;
        if let Some(item) = f.current.take() {
            f.list.items.push(item);
        }
    }
    let mut i = 0;
    while i < parts.len() {
        let (at, c, part) = parts[i];
        let end = at + c.len_utf8();
        let f = stack.last_mut().unwrap();
        if part == oracle::Part::Comment {
            let from = at;
            while i < parts.len() && parts[i].2 == oracle::Part::Comment {
                i += 1;
            }
            let to = parts.get(i).map_or(text.len(), |p| p.0);
            if f.current.is_none() {
                match f.list.items.last_mut() {
                    // behind a statement, on its line
                    Some(last) if f.same_line => {
                        last.trail = to;
                        last.reach = to;
                    }
                    // behind the opening brace
                    None if f.same_line && f.list.open > 0 => {}
                    _ => {
                        f.lead.get_or_insert(from);
                    }
                }
            } else if f.depth == 0 {
                // the statement ends on this line
                let item = f.current.as_mut().unwrap();
                item.trail = to;
                item.reach = to;
            }
            continue;
        }
        i += 1;
        match (c, part) {
            ('\n', oracle::Part::Code) => {
                if f.depth == 0 {
                    finish(f);
                }
                f.same_line = false;
            }
            ('\r', oracle::Part::Code) => {}
            (' ', oracle::Part::Code) => {
                if let Some(item) = f.current.as_mut().or(f.list.items.last_mut().filter(|_| f.same_line)) {
                    item.reach = end;
                }
            }
            (';', oracle::Part::Code) => {
                finish(f);
                f.same_line = true;
            }
            ('}', oracle::Part::Code) => {
                finish(f);
                let mut list = stack.pop().unwrap().list;
                list.close = at;
                let item = stack.last_mut().unwrap().current.as_mut().unwrap();
                item.lists.push(list);
                (item.end, item.trail, item.reach) = (end, end, end);
            }
            _ => {
                let lead = f.lead.take().unwrap_or(at);
                let item = f.current.get_or_insert(Item { lead, start: at, ..Item::default() });
                (item.end, item.trail, item.reach) = (end, end, end);
                f.same_line = true;
                if part == oracle::Part::Code {
                    match c {
                        '(' | '[' => f.depth += 1,
                        ')' | ']' => f.depth -= 1,
                        '{' => stack.push(frame(end)),
                        _ => {}
                    }
                }
            }
        }
    }
    let mut last = stack.pop().unwrap();
    finish(&mut last);
    last.list.close = text.len();
    last.list
}

fn count(list: &List) -> usize {
    list.items.iter().map(|i| 1 + i.lists.iter().map(count).sum::<usize>()).sum()
}

/// The lists that a selection may be about: from the deepest one with both ends at statements of
/// it, to the deepest one with both ends in it
fn lists(root: &List, from: usize, to: usize) -> Vec<&List> {
    let mut chain = vec![root];
    loop {
        let list = *chain.last().unwrap();
        let inner = list.items.iter().flat_map(|i| &i.lists).find(|l| l.open <= from && to <= l.close);
        match inner {
            Some(l) => chain.push(l),
            None => break,
        }
    }
    let at_statement = |l: &List, p: usize| l.items.iter().any(|i| i.start <= p && p < i.end);
    let at_end = |l: &List, p: usize| l.items.iter().any(|i| i.start < p && p <= i.end);
    let definite = chain.iter().rposition(|l| at_statement(l, from) && at_end(l, to)).unwrap_or(0);
    chain.split_off(definite)
}

/// Where statements stand, to where, and what formatting them alone gives
fn formatted(text: &str, list: &List, i: usize, j: usize) -> Result<Vec<(usize, usize, String)>, String> {
    let (from, to) = (list.items[i].lead, list.items[j].trail);
    let before = &text[..list.items[i].start];
    let line = before.rfind('\n').map_or(0, |at| at + 1);
    let blanks = before.len() - before.trim_end_matches([' ', ';']).len();
    // On a line of its own, the statement keeps its indentation, in whole steps. Behind another
    // one it has none, though blanks there may count.
    let depths = if before[line..].chars().all(|c| c == ' ') { blanks / 2..=blanks / 2 } else { 0..=blanks / 2 };
    let mut all = Vec::new();
    for depth in depths {
        let alone = format!("{}{}{}\n", "{\n".repeat(depth), &text[from..to], "\n}".repeat(depth));
        let Some(out) = r::format(&alone, "") else { continue };
        let out = out?;
        let lines: Vec<&str> = out.lines().collect();
        let lines = &lines[depth..lines.len() - depth];
        let out = lines.join("\n");
        all.push((from, to, out.trim_start_matches(' ').to_string()));
    }
    Ok(all)
}

/// Formatting statements alone as the file's, then indenting: the second of two empty lines gets
/// the indentation that the statement below it lacks
fn with_two_empty_lines(text: &str, list: &List, i: usize, j: usize) -> Option<String> {
    let (from, to) = (list.items[i].lead, list.items[j].trail);
    let before = &text[..list.items[i].start];
    let blanks = before.len() - before.trim_end_matches([' ', ';']).len();
    let indent = "  ".repeat(blanks / 2);
    let out = r::format(&format!("{}\n", &text[from..to]), "")?.ok()?;
    let parts: Vec<String> = out
        .trim_end()
        .split("\n\n\n")
        .map(|part| {
            let lines: Vec<&str> = part.split('\n').collect();
            lines.join(&format!("\n{indent}")).replace(&format!("\n{indent}\n"), "\n\n")
        })
        .collect();
    if parts.len() < 2 || indent.is_empty() {
        return None;
    }
    let out = parts.join(&format!("\n\n{indent}\n"));
    Some(format!("{}{out}{}", &text[..from], &text[to..]))
}

const PARTS: &[&str] = &["1+1", "\n", "  ", ";", "# c\n", "{", "}", "f(a,\nb)"];
const MORE: &[&str] = &["if(a){", "\"𐐀\"", "f<-function(x){", "# fmt: skip\n", "g({", "})"];

/// Blocks in blocks, with what may stand between statements and braces
fn nested(tier: Tier, emit: &mut dyn FnMut(String)) {
    let after_open = ["\n", "", "# c\n"];
    let between = ["\n", ";", "\n\n", " # c\n", "\n# c\n"];
    let before_close = ["\n", "", "\n# c\n"];
    let opens = ["{", "f<-function(x){", "g(a,{"];
    for (n, open) in opens.iter().enumerate() {
        let close = if n == 2 { "})" } else { "}" };
        for o1 in after_open {
            for b1 in between {
                for o2 in after_open {
                    for c2 in before_close {
                        for b2 in between {
                            for c1 in before_close {
                                if tier == Tier::Quick && (n > 0 && (b1.len() > 1 || c1 != "\n") || c2.len() > 1 || b2.len() > 2) {
                                    continue;
                                }
                                let text = format!("{open}{o1}1+1{b1}if(a){{{o2}2+2{c2}}}{b2}3+3{c1}{close}\n4+4\n");
                                emit(indented(&text));
                            }
                        }
                    }
                }
            }
        }
    }
}

/// Indents every line by the braces around it
fn indented(text: &str) -> String {
    let mut depth = 0usize;
    let mut out = String::new();
    for line in text.split_inclusive('\n') {
        let first = usize::from(line.starts_with('}'));
        if line.trim() != "" {
            out.push_str(&"  ".repeat(depth - first));
        }
        out.push_str(line);
        depth = depth + line.matches('{').count() - line.matches('}').count();
    }
    out
}

impl Check for Selection {
    type Case = Doc;
    fn id(&self) -> &'static str {
        "S05"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "every selection, empty ones included, of every document of at most {} parts out of {} (statements on one and more lines, blanks, comments, `;`, braces, syntax errors), of at most {} parts with {} more (functions, conditions, calls with blocks, wide characters, directives), and of a family of blocks in blocks with comments, blank lines and `;` at every place; with either line ending",
            tier.pick(5, 6),
            PARTS.len(),
            tier.pick(3, 4),
            MORE.len()
        )
    }
    fn assumptions(&self) -> Vec<String> {
        let mut all = crate::assumptions();
        all.push("formatting statements alone, in braces according to their indentation, shows what formatting them in place gives".into());
        all.push("the tabs of documents indented by tabs are not explored".into());
        all
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Doc)) {
        let mut both = |text: &str, all: bool| {
            for (crlf, enc) in [(false, Enc::Utf16), (true, Enc::Utf16), (false, Enc::Utf8)] {
                if crlf && (!all || !text.contains('\n')) || enc == Enc::Utf8 && text.is_ascii() {
                    continue;
                }
                emit(Doc { text: text.to_string(), crlf, enc });
            }
        };
        let mut layer = vec![String::new()];
        for n in 0..=tier.pick(5, 6) {
            for text in &layer {
                both(text, n <= 3);
            }
            layer = layer.iter().flat_map(|t| PARTS.iter().map(move |s| format!("{t}{s}"))).collect();
        }
        let mut layer = vec![(String::new(), false)];
        for n in 0..=tier.pick(3, 4) {
            for (text, _) in layer.iter().filter(|(_, new)| *new) {
                both(text, n <= 3);
            }
            layer = layer
                .iter()
                .flat_map(|(t, new)| {
                    PARTS.iter().map(move |s| (format!("{t}{s}"), *new)).chain(MORE.iter().map(move |s| (format!("{t}{s}"), true)))
                })
                .collect();
        }
        both("{\n  1+1\n\n\n  2+2\n}\n", true);
        nested(tier, &mut |text| both(&text, true));
    }
    fn judge(&self, case: &Doc, ctx: &mut Ctx) -> Verdict {
        let text = if case.crlf { crlf(&case.text) } else { case.text.clone() };
        let parsed = r::parse(&text);
        let two = Indent { width: 2, spaces: true };
        let uri = "untitled:Untitled-1";
        let mut server = Server::start(Options { enc: case.enc, configuration: false, folders: vec![] })?;
        server.open(uri, 1, &text);
        let places = places(&text, case.enc);
        ctx.state(&(&text, case.enc));

        let Some(parsed) = parsed else {
            let all = Range::new(places[0].1, places[places.len() - 1].1);
            let edits = server.format_range(uri, all, two)?.unwrap_or_default();
            ctx.step(1);
            ctx.outcome("syntax error");
            ensure!(edits.is_empty(), "a document with a syntax error is edited: {text:?} {edits:?}");
            return Ok(());
        };
        let before = r::meaning(&parsed.syntax());
        let comments = oracle::comments(&text);
        let root = statements(&text);
        // not R, although the grammar lets it pass
        let of_tree = parsed
            .syntax()
            .descendants()
            .filter(|n| n.parent().is_some_and(|p| p.kind() == air_r_syntax::RSyntaxKind::R_EXPRESSION_LIST))
            .count();
        if of_tree != count(&root) || lone_semicolon(&text) {
            ctx.outcome("not R");
            return Ok(());
        }
        let mut seen = std::collections::HashMap::new();
        let mut finding = Ok(());
        for (a, (from, start)) in places.iter().enumerate() {
            for (to, end) in &places[a..] {
                let edits = server.format_range(uri, Range::new(*start, *end), two)?.unwrap_or_default();
                let got = apply(&text, case.enc, &edits)?;
                ctx.step(1);
                let what = || format!("selecting {:?} of {text:?} gives {got:?}", &text[*from..*to]);

                let mut candidates = Vec::new();
                for list in lists(&root, *from, *to) {
                    let touched = |i: &Item| i.start < *to && *from < i.end;
                    let near = |i: &Item| i.start <= *to && *from <= i.reach || i.lead <= *from && *from <= i.start && i.start <= *to;
                    let must: Vec<usize> = (0..list.items.len()).filter(|i| touched(&list.items[*i])).collect();
                    let may: Vec<usize> = (0..list.items.len()).filter(|i| near(&list.items[*i])).collect();
                    if must.is_empty() {
                        candidates.push(None);
                    }
                    for i in may.iter().filter(|i| must.first().is_none_or(|m| *i <= m)) {
                        for j in may.iter().filter(|j| *j >= i && must.last().is_none_or(|m| *j >= m)) {
                            candidates.push(Some((list, *i, *j)));
                        }
                    }
                }
                let mut ok = false;
                let mut wants = Vec::new();
                for candidate in candidates {
                    let all = match candidate {
                        None => vec![text.clone()],
                        Some((list, i, j)) => {
                            let key = (list.open, list.close, i, j);
                            if !seen.contains_key(&key) {
                                let plain = normal(&text);
                                let mut all = Vec::new();
                                for (s, e, out) in formatted(&plain, &statements_of(&plain, &text, list), i, j)? {
                                    let whole = format!("{}{out}{}", &plain[..s], &plain[e..]);
                                    all.push(if case.crlf { crlf(&whole) } else { whole });
                                }
                                seen.insert(key, all);
                            }
                            seen[&key].clone()
                        }
                    };
                    if all.contains(&got) {
                        ok = true;
                        ctx.outcome(match candidate {
                            None => "nothing selected",
                            Some((list, _, _)) if list.open > 0 => "statements in braces",
                            Some(_) => "statements of the file",
                        });
                        break;
                    }
                    wants.extend(all);
                }
                if !ok {
                    let plain = normal(&text);
                    let known = lists(&root, *from, *to).into_iter().any(|list| {
                        let list = statements_of(&plain, &text, list);
                        (0..list.items.len()).any(|i| {
                            (i + 1..list.items.len())
                                .any(|j| with_two_empty_lines(&plain, &list, i, j).is_some_and(|known| known == normal(&got)))
                        })
                    });
                    if known {
                        ctx.outcome("two empty lines");
                        finding = Err(mc::Failure {
                            key: "two empty lines between selected statements that are indented".into(),
                            what: format!("{}, expected one of {wants:?}", what()),
                        });
                        continue;
                    }
                }
                ensure!(ok, "{}, expected one of {wants:?}", what());
                if got != text {
                    let Some(after) = r::parse(&got) else { return Err(format!("{}, a syntax error", what()).into()) };
                    r::same_meaning(&before, &r::meaning(&after.syntax()), r::Assign::Preserve).map_err(|e| format!("{}: {e}", what()))?;
                    ensure!(oracle::comments(&got) == comments, "{}: comments differ", what());
                }
            }
        }
        finding
    }
}

/// The same list in the text without `\r`
fn statements_of(plain: &str, text: &str, list: &List) -> List {
    let open = list.open - text[..list.open].matches('\r').count();
    let mut all = vec![statements(plain)];
    while let Some(l) = all.pop() {
        if l.open == open && (open > 0 || l.close == plain.len()) {
            return l;
        }
        all.extend(l.items.into_iter().flat_map(|i| i.lists));
    }
    unreachable!("the list is in the text")
}
