//! F09 to F12: what the formatted text looks like. Braces, spaces and indentation, line breaks, assignment operators.
use std::collections::HashMap;

use air_r_syntax::{RSyntaxElement, RSyntaxKind as K, RSyntaxNode, RSyntaxToken};
use biome_rowan::NodeOrToken;
use mc::{Check, Ctx, Tier, Verdict, ensure};
use serde::{Deserialize, Serialize};

use crate::r#gen::*;
use crate::r;

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    src: String,
    toml: String,
}

pub struct Style(pub &'static str);

type Node = RSyntaxNode;
type Key = (K, usize, usize);

/// A text with its tree
struct Text {
    text: String,
    root: Node,
    tab: usize,
}

fn bounds(token: &RSyntaxToken) -> (usize, usize) {
    let r = token.text_trimmed_range();
    (r.start().into(), r.end().into())
}
fn start(n: &Node) -> usize {
    n.first_token().map_or(0, |t| bounds(&t).0)
}
fn end(n: &Node) -> usize {
    n.last_token().map_or(0, |t| bounds(&t).1)
}
fn key(n: &Node) -> Key {
    (n.kind(), start(n), end(n))
}
fn children(n: &Node) -> Vec<Node> {
    n.children().collect()
}

impl Text {
    fn new(text: &str, tab: usize) -> Option<Text> {
        Some(Text { text: text.to_string(), root: r::parse(text)?.syntax(), tab })
    }
    fn of(&self, n: &Node) -> &str {
        if n.first_token().is_none() {
            return "";
        }
        &self.text[start(n)..end(n)]
    }
    fn many_lines(&self, n: &Node) -> bool {
        self.of(n).contains('\n')
    }
    /// What stands in front of a position, up to the token before
    fn gap(&self, at: usize) -> &str {
        let before = self.text[..at].trim_end_matches([' ', '\t', '\n', ';']);
        &self.text[before.len()..at]
    }
    fn lines_before(&self, n: &Node) -> usize {
        self.gap(start(n)).matches('\n').count()
    }
    fn column(&self, at: usize) -> usize {
        let line = &self.text[self.text[..at].rfind('\n').map_or(0, |i| i + 1)..at];
        line.chars().map(|c| if c == '\t' { self.tab } else { 1 }).sum()
    }
    /// How far it is to the end of the line
    fn rest(&self, at: usize) -> usize {
        self.text[at..].chars().take_while(|c| *c != '\n').count()
    }
}

/// The child that may get braces
fn body_of(n: &Node) -> Option<usize> {
    let children = n.children().count();
    match n.kind() {
        K::R_FUNCTION_DEFINITION | K::R_FOR_STATEMENT | K::R_WHILE_STATEMENT | K::R_REPEAT_STATEMENT => children.checked_sub(1),
        K::R_IF_STATEMENT => Some(1),
        K::R_ELSE_CLAUSE => Some(0),
        _ => None,
    }
}

/// Where the nodes of a program are in its formatted text, and whether they got braces there
struct Map(HashMap<Key, (Node, bool)>);

impl Map {
    fn new(s: &Node, o: &Node) -> Result<Map, String> {
        let mut map = Map(HashMap::new());
        map.add(s, o, false)?;
        Ok(map)
    }
    fn add(&mut self, s: &Node, o: &Node, braces: bool) -> Result<(), String> {
        let (cs, co) = (children(s), children(o));
        if s.kind() != o.kind() || cs.len() != co.len() {
            return Err(format!("another program: {:?} became {:?}", s.text_trimmed().to_string(), o.text_trimmed().to_string()));
        }
        self.0.insert(key(s), (o.clone(), braces));
        let body = body_of(s);
        for (i, (s, o)) in cs.iter().zip(&co).enumerate() {
            if body == Some(i) && s.kind() != K::R_BRACED_EXPRESSIONS && o.kind() == K::R_BRACED_EXPRESSIONS {
                let inner: Vec<Node> = o.children().flat_map(|l| l.children().collect::<Vec<_>>()).collect();
                let [inner] = inner.as_slice() else { return Err(format!("{:?} became {:?}", s.text_trimmed().to_string(), o.text_trimmed().to_string())) };
                self.add(s, inner, true)?;
            } else {
                self.add(s, o, false)?;
            }
        }
        Ok(())
    }
    fn get(&self, s: &Node) -> &Node {
        &self.0[&key(s)].0
    }
    fn braces_added(&self, s: &Node) -> bool {
        self.0[&key(s)].1
    }
}

fn parent(n: &Node, kind: K) -> Option<Node> {
    n.parent().filter(|p| p.kind() == kind)
}

/// Is the value of this statement not used? (a statement of the file, or of braces but the last one)
fn in_effect_position(n: &Node) -> bool {
    let Some(list) = parent(n, K::R_EXPRESSION_LIST) else { return false };
    parent(&list, K::R_ROOT).is_some() || list.children().last().as_ref() != Some(n)
}

/// The branches of an if statement
fn branches(n: &Node) -> Vec<Node> {
    let c = children(n);
    let mut out = vec![c[1].clone()];
    out.extend(c.get(2).and_then(|e| e.children().next()));
    out
}

/// Does this if statement get braces wherever it stands and however long it is?
fn braces_for_sure(s: &Text, n: &Node) -> bool {
    let else_clause = children(n).get(2).cloned();
    in_effect_position(n)
        || parent(n, K::R_ELSE_CLAUSE).is_some()
        || else_clause.is_some_and(|e| s.lines_before(&e) > 0)
        || branches(n).iter().any(|b| s.lines_before(b) > 0 || matches!(b.kind(), K::R_BRACED_EXPRESSIONS | K::R_IF_STATEMENT))
}

const LEAVES: &[K] = &[
    K::R_IDENTIFIER, K::R_INTEGER_VALUE, K::R_DOUBLE_VALUE, K::R_COMPLEX_VALUE, K::R_STRING_VALUE, K::R_TRUE_EXPRESSION, K::R_FALSE_EXPRESSION,
    K::R_NULL_EXPRESSION, K::R_INF_EXPRESSION, K::R_NAN_EXPRESSION, K::R_NA_EXPRESSION, K::R_DOTS, K::R_DOT_DOT_I, K::R_NEXT_EXPRESSION, K::R_BREAK_EXPRESSION,
];
const ASSIGNMENTS: &[&str] = &["<-", "=", "<<-", "~", "->", "->>", ":="];
/// Those after which a line break stays
const LEFT: &[&str] = &["<-", "=", "<<-", "~"];
const COMPARISONS: &[&str] = &["<", "<=", ">", ">=", "==", "!="];
const STICKY: &[&str] = &["?", "^", "**", ":"];

fn operator(n: &Node) -> String {
    n.children_with_tokens().find_map(|c| c.into_token()).map_or(String::new(), |t| t.text_trimmed().to_string())
}
fn in_chain(n: &Node) -> bool {
    n.kind() == K::R_BINARY_EXPRESSION && {
        let op = operator(n);
        ![ASSIGNMENTS, COMPARISONS, STICKY].concat().contains(&op.as_str())
    }
}
/// The whole chain that a part of it belongs to
fn chain_of(n: &Node) -> Node {
    match n.parent() {
        Some(p) if in_chain(&p) && p.children().next().as_ref() == Some(n) => chain_of(&p),
        _ => n.clone(),
    }
}
/// `a + b - c`: a, b, c
fn links(n: &Node) -> Vec<Node> {
    let c = children(n);
    let mut out = if in_chain(&c[0]) { links(&c[0]) } else { vec![c[0].clone()] };
    out.push(c[1].clone());
    out
}

const ARGUMENTS: &[K] = &[K::R_CALL_ARGUMENTS, K::R_SUBSET_ARGUMENTS, K::R_SUBSET2_ARGUMENTS];

/// `{{ x }}` as an argument, or in one
fn curly_curly(outer: &Node) -> bool {
    let only = |n: &Node, kind: K| n.kind() == K::R_BRACED_EXPRESSIONS && {
        let list: Vec<Node> = n.children().flat_map(|l| l.children().collect::<Vec<_>>()).collect();
        list.len() == 1 && list[0].kind() == kind
    };
    only(outer, K::R_BRACED_EXPRESSIONS)
        && only(&outer.children().next().unwrap().children().next().unwrap(), K::R_IDENTIFIER)
        && outer.ancestors().any(|a| a.kind() == K::R_ARGUMENT)
}
fn part_of_curly_curly(n: &Node) -> bool {
    curly_curly(n) || parent(n, K::R_EXPRESSION_LIST).and_then(|l| parent(&l, K::R_BRACED_EXPRESSIONS)).is_some_and(|o| curly_curly(&o))
}
fn empty_braces(n: &Node) -> bool {
    n.kind() == K::R_BRACED_EXPRESSIONS && n.children().all(|l| l.children().next().is_none())
}

/// One argument: its node, and where it (or what follows it, if there is nothing) starts
struct Item {
    node: Node,
    at: usize,
    hole: bool,
}
fn items(n: &Node) -> Vec<Item> {
    let list = n.children().next();
    let close = bounds(&n.last_token().unwrap()).0;
    let Some(list) = list else { return vec![] };
    let elements: Vec<RSyntaxElement> = list.slots().filter_map(|s| s.into_syntax_element()).collect();
    let mut out: Vec<Item> = vec![];
    for e in &elements {
        match e {
            NodeOrToken::Node(node) => {
                let hole = node.first_token().is_none();
                out.push(Item { node: node.clone(), at: if hole { close } else { start(node) }, hole });
            }
            NodeOrToken::Token(t) => {
                if let Some(last) = out.last_mut().filter(|i| i.hole) {
                    last.at = bounds(t).0;
                }
            }
        }
    }
    out
}
fn value(item: &Node) -> Option<Node> {
    item.children().find(|c| !matches!(c.kind(), K::R_ARGUMENT_NAME_CLAUSE))
}
fn named(item: &Node) -> bool {
    item.children().any(|c| c.kind() == K::R_ARGUMENT_NAME_CLAUSE)
}

/// `test_that("title", { ... })`
fn titled_block(n: &Node) -> bool {
    let items = items(n);
    n.kind() == K::R_CALL_ARGUMENTS
        && items.len() == 2
        && value(&items[0].node).is_some_and(|v| v.kind() == K::R_STRING_VALUE)
        && value(&items[1].node).is_some_and(|v| v.kind() == K::R_BRACED_EXPRESSIONS)
}
/// `f(g(...))`: no breaks between the brackets
fn hugs(n: &Node) -> bool {
    let items = items(n);
    let rest: Vec<&Item> = items.iter().skip_while(|i| i.hole).collect();
    rest.len() == 1 && !named(&rest[0].node) && value(&rest[0].node).is_some_and(|v| matches!(v.kind(), K::R_CALL | K::R_SUBSET | K::R_SUBSET2))
}
/// `f(a, { ... })`, `f(a, function(x) ...)`: what comes last may have several lines
fn last_spreads(n: &Node) -> bool {
    let spreads = |n: &Node| n.kind() == K::R_BRACED_EXPRESSIONS && !empty_braces(n) && !curly_curly(n);
    items(n).last().and_then(|i| value(&i.node)).is_some_and(|v| match v.kind() {
        K::R_FUNCTION_DEFINITION => {
            let body = v.children().last().unwrap();
            body.kind() != K::R_BRACED_EXPRESSIONS || spreads(&body)
        }
        _ => spreads(&v),
    })
}

/// Where that begins which may break: of an if or while, the condition
fn condition_or_start(n: &Node) -> usize {
    match n.kind() {
        K::R_IF_STATEMENT | K::R_WHILE_STATEMENT => n.children_with_tokens().filter_map(|e| e.into_token()).nth(1).map_or(0, |t| bounds(&t).1),
        _ => start(n),
    }
}

struct Toml {
    width: usize,
    tab: usize,
    tabs: bool,
    persistent: bool,
    assign: r::Assign,
    /// the same with lines as long as can be
    wide: String,
}
impl Toml {
    fn new(toml: &str) -> Toml {
        let number = |name: &str, default| toml.lines().find_map(|l| l.strip_prefix(name)).map_or(default, |w| w.trim_start_matches(" = ").parse().unwrap());
        Toml {
            width: number("line-width", 80),
            tab: number("indent-width", 2),
            tabs: toml.contains("\"tab\""),
            persistent: !toml.contains("persistent-line-breaks = false"),
            assign: crate::fmt::assign(toml),
            wide: toml.lines().filter(|l| !l.starts_with("line-width")).chain(["line-width = 320"]).collect::<Vec<_>>().join("\n"),
        }
    }
}

/// A program, what it is formatted to, and what it is formatted to without a bound on lines
struct World<'a> {
    s: Text,
    o: Text,
    w: Text,
    to: Map,
    wide: Map,
    toml: Toml,
    case: &'a Case,
}

impl World<'_> {
    fn fail(&self, n: &Node, what: &str) -> mc::Failure {
        let text = format!("under [{}], {:?} formats to {:?}: {what} in {:?}", self.case.toml.replace('\n', "; "), self.s.text, self.o.text, n.text_trimmed().to_string());
        mc::Failure { key: format!("{what} {:?}", n.kind()), what: text }
    }
    /// Is there a reason for breaking what stands on one line when there is no bound?
    fn too_long(&self, s: &Node) -> bool {
        self.too_long_from(s, start)
    }
    fn too_long_from(&self, s: &Node, from: fn(&Node) -> usize) -> bool {
        self.o.column(from(self.to.get(s))) + self.w.rest(from(self.wide.get(s))) > self.toml.width
    }

    // --- F09 -------------------------------------------------------------------------------------

    fn braces(&self) -> Verdict {
        for s in self.s.root.descendants() {
            let o = self.to.get(&s);
            match s.kind() {
                K::R_FOR_STATEMENT | K::R_WHILE_STATEMENT | K::R_REPEAT_STATEMENT => {
                    if o.children().last().unwrap().kind() != K::R_BRACED_EXPRESSIONS {
                        return Err(self.fail(o, "a loop without braces"));
                    }
                }
                K::R_FUNCTION_DEFINITION => {
                    let body = s.children().last().unwrap();
                    if body.kind() == K::R_BRACED_EXPRESSIONS {
                        continue;
                    }
                    let asked = self.s.lines_before(&body) > 0;
                    self.by_need(&s, o, asked, self.to.braces_added(&body), self.wide.braces_added(&body), &children(&s))?;
                }
                K::R_IF_STATEMENT => {
                    let asked = braces_for_sure(&self.s, &s);
                    let parts = branches(&s);
                    for b in &parts {
                        let alternative = b.parent().unwrap().kind() == K::R_ELSE_CLAUSE;
                        if b.kind() == K::R_BRACED_EXPRESSIONS || alternative && b.kind() == K::R_IF_STATEMENT {
                            continue;
                        }
                        let mut of = parts.clone();
                        of.push(children(&s)[0].clone());
                        self.by_need(&s, o, asked, self.to.braces_added(b), self.wide.braces_added(b), &of)?;
                    }
                }
                // A name in backticks may have a line break in it
                K::R_BRACED_EXPRESSIONS if curly_curly(&s) && !s.descendants().any(|n| n.kind() == K::R_IDENTIFIER && self.s.many_lines(&n)) => {
                    if self.w.many_lines(self.wide.get(&s)) || self.o.many_lines(o) && !self.too_long(&s) {
                        return Err(self.fail(o, "a line break in `{{ x }}`"));
                    }
                }
                _ => {}
            }
        }
        for n in self.o.root.descendants().filter(|n| n.kind() == K::R_BRACED_EXPRESSIONS) {
            let inner = &self.o.of(&n)[1..];
            let inner = &inner[..inner.len() - 1];
            if empty_braces(&n) {
                if !inner.is_empty() {
                    return Err(self.fail(&n, "empty braces with something in between"));
                }
            } else if !part_of_curly_curly(&n) && (!inner.starts_with('\n') || !inner.trim_end_matches([' ', '\t']).ends_with('\n')) {
                return Err(self.fail(&n, "braces on one line"));
            }
        }
        Ok(())
    }

    /// Braces are there when asked for, or when a part takes several lines, or when the line gets too long
    fn by_need(&self, s: &Node, o: &Node, asked: bool, added: bool, wide: bool, parts: &[Node]) -> Verdict {
        let several = parts.iter().any(|p| self.w.many_lines(self.wide.get(p)));
        if wide != (asked || several) {
            return Err(self.fail(o, if wide { "braces without need (on lines without bound)" } else { "no braces (on lines without bound)" }));
        }
        if wide && !added {
            return Err(self.fail(o, "no braces"));
        }
        if added && !wide && !self.too_long(s) {
            return Err(self.fail(o, "braces without need"));
        }
        if !added && (self.o.many_lines(o) || self.o.column(end(o)) > self.toml.width) {
            return Err(self.fail(o, "no braces"));
        }
        Ok(())
    }

    // --- F10 -------------------------------------------------------------------------------------

    /// The gap in front of a position is one of these; a line break comes with this indentation
    fn gap(&self, n: &Node, at: usize, allowed: &[&str], indent: usize) -> Verdict {
        let gap = self.o.gap(at);
        if let Some(i) = gap.rfind('\n') {
            if !allowed.contains(&"\n") {
                return Err(self.fail(n, &format!("a line break at {at}")));
            }
            let got = &gap[i + 1..];
            let want = if self.toml.tabs { "\t".repeat(indent / self.toml.tab) } else { " ".repeat(indent) };
            if got != want {
                return Err(self.fail(n, &format!("indentation {got:?}, should be {want:?} at {at}")));
            }
            return Ok(());
        }
        if !allowed.contains(&gap) {
            return Err(self.fail(n, &format!("{gap:?} at {at}, should be {allowed:?}")));
        }
        Ok(())
    }

    fn spaces(&self) -> Verdict {
        self.spaces_in(&self.o.root, 0)
    }

    /// `base` is how far lines are indented that a part of this goes on with
    fn spaces_in(&self, n: &Node, base: usize) -> Verdict {
        self.gaps_in(n, base)?;
        let step = self.toml.tab;
        let on_line_of_its_own = |c: &Node| self.o.gap(start(c)).contains('\n');
        for (i, c) in n.children().enumerate() {
            let deeper = match n.kind() {
                K::R_BRACED_EXPRESSIONS => !curly_curly(n) && on_line_of_its_own(&c),
                K::R_BINARY_EXPRESSION if i == 0 => false,
                K::R_BINARY_EXPRESSION if in_chain(n) => !self.aligned(&chain_of(n)),
                K::R_BINARY_EXPRESSION => on_line_of_its_own(&c),
                K::R_IF_STATEMENT | K::R_WHILE_STATEMENT => i == 0 && on_line_of_its_own(&c),
                kind if ARGUMENTS.contains(&kind) || kind == K::R_PARAMETERS => items(n).iter().find(|i| !i.hole).is_some_and(|i| self.o.gap(i.at).contains('\n')),
                _ => false,
            };
            self.spaces_in(&c, base + if deeper { step } else { 0 })?;
        }
        Ok(())
    }

    /// Is this the right side of an assignment, below it? Then it is not indented once more
    fn aligned(&self, chain: &Node) -> bool {
        parent(chain, K::R_BINARY_EXPRESSION).is_some_and(|p| ASSIGNMENTS.contains(&operator(&p).as_str()) && children(&p)[1] == *chain) && self.o.gap(start(chain)).contains('\n')
    }

    fn gaps_in(&self, n: &Node, base: usize) -> Verdict {
        let o = &self.o;
        let step = self.toml.tab;
        let elements: Vec<(usize, usize)> = n
            .children_with_tokens()
            .filter_map(|e| match e {
                NodeOrToken::Node(n) => n.first_token().map(|_| (start(&n), end(&n))),
                NodeOrToken::Token(t) => (t.kind() != K::EOF).then(|| bounds(&t)),
            })
            .collect();
        // All gaps in turn
        let all = |wants: &[&str]| -> Verdict {
            for (i, (at, _)) in elements.iter().enumerate().skip(1) {
                self.gap(n, *at, &[wants[i - 1]], 0)?;
            }
            Ok(())
        };
        match n.kind() {
            K::R_ROOT => Ok(()),
            K::R_EXPRESSION_LIST => {
                for (i, (at, _)) in elements.iter().enumerate() {
                    if i > 0 {
                        self.gap(n, *at, &["\n"], base)?;
                    }
                }
                Ok(())
            }
            K::R_BRACED_EXPRESSIONS => {
                let close = elements.last().unwrap().0;
                if empty_braces(n) {
                    return self.gap(n, close, &[""], 0);
                }
                let first = elements[1].0;
                if curly_curly(n) {
                    self.gap(n, first, &[""], 0)?;
                    return self.gap(n, close, &[""], 0);
                }
                let flat = part_of_curly_curly(n) && !o.gap(first).contains('\n');
                let both = if flat { " " } else { "\n" };
                self.gap(n, first, &[both], base + step)?;
                self.gap(n, close, &[both], base)
            }
            K::R_BINARY_EXPRESSION => {
                let op = operator(n);
                let op = op.as_str();
                let (at, right) = (elements[1].0, elements[2].0);
                if STICKY.contains(&op) {
                    return all(&["", ""]);
                }
                self.gap(n, at, &[" "], 0)?;
                if in_chain(n) {
                    return self.gap(n, right, &[" ", "\n"], base + if self.aligned(&chain_of(n)) { 0 } else { step });
                }
                let may_break = COMPARISONS.contains(&op) || LEFT.contains(&op);
                self.gap(n, right, if may_break { &[" ", "\n"] } else { &[" "] }, base + step)
            }
            K::R_UNARY_EXPRESSION => {
                let argument = n.children().next().unwrap();
                all(&[if operator(n) == "~" && !LEAVES.contains(&argument.kind()) { " " } else { "" }])
            }
            K::R_EXTRACT_EXPRESSION | K::R_NAMESPACE_EXPRESSION | K::R_CALL | K::R_SUBSET | K::R_SUBSET2 | K::R_PARENTHESIZED_EXPRESSION => all(&["", ""]),
            K::R_ARGUMENT | K::R_ARGUMENT_NAME_CLAUSE | K::R_PARAMETER | K::R_PARAMETER_DEFAULT | K::R_ELSE_CLAUSE | K::R_REPEAT_STATEMENT => all(&[" "]),
            K::R_FUNCTION_DEFINITION => all(&["", " "]),
            K::R_FOR_STATEMENT => all(&[" ", "", " ", " ", "", " "]),
            K::R_IF_STATEMENT | K::R_WHILE_STATEMENT => {
                let broken = o.gap(elements[2].0).contains('\n');
                for (i, (at, _)) in elements.iter().enumerate().skip(1) {
                    match i {
                        2 => self.gap(n, *at, &["", "\n"], base + step)?,
                        3 => self.gap(n, *at, &[if broken { "\n" } else { "" }], base)?,
                        _ => self.gap(n, *at, &[" "], 0)?,
                    }
                }
                Ok(())
            }
            kind if ARGUMENTS.contains(&kind) || kind == K::R_PARAMETERS => {
                let close = elements.last().unwrap().0;
                let items = items(n);
                let first = items.iter().position(|i| !i.hole);
                let broken = first.is_some_and(|f| o.gap(items[f].at).contains('\n'));
                let after_name = |i: &Item| !i.hole && value(&i.node).is_none() && named(&i.node);
                for (i, item) in items.iter().enumerate() {
                    let Some(first) = first else {
                        self.gap(n, item.at, &[""], 0)?;
                        continue;
                    };
                    let last = i + 1 == items.len();
                    let indent = base + if last && item.hole { 0 } else { step };
                    let want = if i < first || i == 0 && !broken {
                        ""
                    } else if broken {
                        "\n"
                    } else {
                        " "
                    };
                    self.gap(n, item.at, &[want], indent)?;
                }
                let list: Vec<RSyntaxToken> = n.children().next().map(|l| l.slots().filter_map(|s| s.into_syntax_element()).filter_map(|e| e.into_token()).collect()).unwrap_or_default();
                for (comma, item) in list.iter().zip(&items) {
                    if !item.hole {
                        self.gap(n, bounds(comma).0, &[if after_name(item) { " " } else { "" }], 0)?;
                    }
                }
                if items.last().is_none_or(|i| !i.hole) {
                    let flat = if items.last().is_some_and(after_name) { " " } else { "" };
                    self.gap(n, close, &[if broken { "\n" } else { flat }], base)?;
                }
                Ok(())
            }
            // Seen to where they stand; and what is inside of a string is not looked at
            K::R_ARGUMENT_LIST | K::R_PARAMETER_LIST | K::R_STRING_VALUE => Ok(()),
            _ => {
                if elements.len() > 1 {
                    return Err(self.fail(n, "no rule for spaces"));
                }
                Ok(())
            }
        }
    }

    // --- F11 -------------------------------------------------------------------------------------

    /// Where a group of parts may break: the places of its line breaks, in any of the texts
    fn breaks(text: &Text, n: &Node) -> Vec<bool> {
        let before = |n: &Node| text.gap(start(n)).contains('\n');
        match n.kind() {
            K::R_BINARY_EXPRESSION if in_chain(n) => links(n)[1..].iter().map(before).collect(),
            K::R_BINARY_EXPRESSION => vec![before(&children(n)[1])],
            K::R_IF_STATEMENT | K::R_WHILE_STATEMENT => vec![before(&children(n)[0])],
            K::R_PARAMETERS => items(n).iter().map(|i| text.gap(i.at).contains('\n')).collect(),
            _ => items(n).iter().skip_while(|i| i.hole).map(|i| text.gap(i.at).contains('\n')).collect(),
        }
    }

    fn lines(&self) -> Verdict {
        for s in self.s.root.descendants() {
            let (o, w) = (self.to.get(&s), self.wide.get(&s));
            let several = |n: &Node| self.w.many_lines(self.wide.get(n));
            let persistent = |lines: usize| self.toml.persistent && lines > 0;
            // Does it break, however long lines may be?
            let sure = match s.kind() {
                K::R_BINARY_EXPRESSION if in_chain(&s) => {
                    if chain_of(&s) != s {
                        continue;
                    }
                    let links = links(&s);
                    persistent(self.s.lines_before(&links[1])) || links[1..].iter().any(|l| self.s.lines_before(l) > 1) || links.iter().any(several)
                }
                K::R_BINARY_EXPRESSION => {
                    let op = operator(&s);
                    let right = &children(&s)[1];
                    if LEFT.contains(&op.as_str()) {
                        let stays = persistent(self.s.lines_before(right));
                        if self.o.gap(start(self.to.get(right))).contains('\n') != stays {
                            return Err(self.fail(o, if stays { "a line break is lost" } else { "a line break is made" }));
                        }
                        continue;
                    }
                    if !COMPARISONS.contains(&op.as_str()) {
                        continue;
                    }
                    children(&s).iter().any(several)
                }
                K::R_IF_STATEMENT | K::R_WHILE_STATEMENT => several(&children(&s)[0]),
                kind if ARGUMENTS.contains(&kind) || kind == K::R_PARAMETERS => {
                    let items = items(&s);
                    let Some(first) = items.iter().position(|i| !i.hole) else { continue };
                    let lines = |i: &Item| self.s.gap(i.at).matches('\n').count();
                    let arguments = ARGUMENTS.contains(&kind);
                    let asked = items[..=first].iter().any(|i| persistent(lines(i))) || items[first + 1..].iter().any(|i| !i.hole && lines(i) > 1);
                    let (last, others) = items.split_last().unwrap();
                    let among = |items: &[Item]| items.iter().any(|i| !i.hole && several(&i.node));
                    if arguments && titled_block(&s) {
                        if Self::breaks(&self.o, o).contains(&true) {
                            return Err(self.fail(o, "a line break before the block or its title"));
                        }
                        continue;
                    }
                    if arguments && hugs(&s) && !asked {
                        if Self::breaks(&self.o, o).contains(&true) {
                            return Err(self.fail(o, "a line break around the only argument"));
                        }
                        continue;
                    }
                    if arguments && last_spreads(&s) {
                        let parameters = value(&last.node).filter(|v| v.kind() == K::R_FUNCTION_DEFINITION && first < others.len()).and_then(|v| v.children().next());
                        asked || among(others) || parameters.is_some_and(|p| several(&p))
                    } else {
                        asked || among(&items)
                    }
                }
                _ => continue,
            };
            let (narrow, wide) = (Self::breaks(&self.o, o), Self::breaks(&self.w, w));
            for breaks in [&narrow, &wide] {
                if breaks.iter().any(|b| *b != breaks[0]) {
                    return Err(self.fail(o, "some parts on lines of their own, some not"));
                }
            }
            let (narrow, wide) = (narrow[0], wide[0]);
            if wide != sure {
                return Err(self.fail(o, if wide { "broken without need (on lines without bound)" } else { "not broken (on lines without bound)" }));
            }
            if wide && !narrow {
                return Err(self.fail(o, "not broken"));
            }
            if narrow && !wide && !self.too_long_from(&s, condition_or_start) {
                return Err(self.fail(o, "broken without need"));
            }
            let o = if matches!(o.kind(), K::R_IF_STATEMENT | K::R_WHILE_STATEMENT) { o.children().next().unwrap() } else { o.clone() };
            if !narrow {
                let first = self.o.column(start(&o)) + self.o.of(&o).lines().next().unwrap_or("").len();
                if first > self.toml.width {
                    return Err(self.fail(&o, "not broken, though too long"));
                }
            }
        }
        Ok(())
    }

    // --- F12 -------------------------------------------------------------------------------------

    /// May `=` assign here, by R's grammar?
    fn equal_allowed(n: &Node) -> bool {
        let Some(p) = n.parent() else { return false };
        match p.kind() {
            K::R_EXPRESSION_LIST | K::R_PARENTHESIZED_EXPRESSION => true,
            K::R_UNARY_EXPRESSION => operator(&p) == "?",
            K::R_BINARY_EXPRESSION => matches!(operator(&p).as_str(), "<-" | "=" | "?") && Self::equal_allowed(&p),
            _ => body_of(&p).is_some_and(|i| p.children().nth(i).as_ref() == Some(n)),
        }
    }

    fn assignments(&self) -> Verdict {
        for s in self.s.root.descendants().filter(|n| n.kind() == K::R_BINARY_EXPRESSION) {
            let (before, after) = (operator(&s), operator(self.to.get(&s)));
            let want = match (before.as_str(), self.toml.assign) {
                ("=", r::Assign::Arrow) => "<-",
                ("<-", r::Assign::Equal) if Self::equal_allowed(&s) => "=",
                (other, _) => other,
            };
            if after != want {
                return Err(self.fail(&s, &format!("`{after}` should be `{want}`")));
            }
        }
        Ok(())
    }
}

const OPTIONS: &[&str] = &["", "line-width = 8", "line-width = 14\nindent-width = 4", "persistent-line-breaks = false\nline-width = 11"];
const MORE: &[&str] = &["line-width = 20", "line-width = 5\nindent-style = \"tab\"\nindent-width = 3", "persistent-line-breaks = false", "line-width = 1"];

impl Check for Style {
    type Case = Case;
    fn id(&self) -> &'static str {
        self.0
    }
    fn bounds(&self, tier: Tier) -> String {
        match self.0 {
            "F12" => format!("every nesting of {} constructs, 3 deep, in every style", tier.pick(SMALL.len(), CORE.len())),
            _ => format!(
                "every pair of {} constructs nested in each other, with up to {} line breaks or blank lines between the tokens, under {} settings of width, indentation and persistence; every nesting of {} constructs, 3 deep",
                tier.pick(CORE.len(), PRODUCTIONS.len()),
                tier.pick(1, 2),
                tier.pick(OPTIONS.len(), OPTIONS.len() + MORE.len()),
                tier.pick(SMALL.len(), CORE.len())
            ),
        }
    }
    fn assumptions(&self) -> Vec<String> {
        crate::assumptions()
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Case)) {
        let deep = tier.pick(SMALL, CORE);
        if self.0 == "F12" {
            for toml in ["", "assignment-style = \"equal\"", "assignment-style = \"preserve\"", "assignment-style = \"arrow\"\nline-width = 5"] {
                let mut go = |p: Vec<Tok>| emit(Case { src: render(&p, &[]), toml: toml.to_string() });
                for p in all(PRODUCTIONS) {
                    go(name(p));
                }
                depth2(PRODUCTIONS, PRODUCTIONS, &mut go);
                depth3(PRODUCTIONS, &["@@ <- @@", "@@ = @@", "@@ <<- @@", "@@ ? @@", "? @@", "( @@ )"], &["@@ <- @@", "@@ = @@", "@@ -> @@"], &mut go);
                depth3(deep, deep, deep, &mut go);
            }
            return;
        }
        let options = [OPTIONS, if tier == Tier::Thorough { MORE } else { &[] }].concat();
        let mut go = |p: &[Tok], k: usize, kinds: &[Gap]| {
            perturb(p, k, kinds, &mut |gaps| {
                for toml in &options {
                    emit(Case { src: render(p, gaps), toml: toml.to_string() });
                }
            });
        };
        for p in all(PRODUCTIONS) {
            go(&name(p), 2, &[Gap::Line, Gap::Blank]);
        }
        depth2(PRODUCTIONS, tier.pick(CORE, PRODUCTIONS), &mut |p| go(&p, 1, &[Gap::Line]));
        depth2(CORE, CORE, &mut |p| go(&p, tier.pick(1, 2), &[Gap::Line, Gap::Blank]));
        depth3(deep, deep, deep, &mut |p| go(&p, tier.pick(0, 1), &[Gap::Line]));
        pairs(CORE, SMALL, &mut |p| go(&p, 0, &[]));
    }
    fn judge(&self, case: &Case, ctx: &mut Ctx) -> Verdict {
        let toml = Toml::new(&case.toml);
        let Some(s) = Text::new(&case.src, toml.tab) else {
            ctx.outcome("rejected");
            return Ok(());
        };
        if r::incomplete(&s.root) {
            ctx.outcome("incomplete");
            return Ok(());
        }
        // A line of a semicolon alone is an empty line
        if case.src.contains("\n;\n") {
            ctx.outcome("empty line");
            return Ok(());
        }
        let format = |toml: &str| -> Result<String, mc::Failure> {
            r::format(&case.src, toml).unwrap().map_err(|e| format!("{:?}: {e}", case.src).into())
        };
        let read = |text: &str| Text::new(text, toml.tab).ok_or_else(|| mc::Failure::from(format!("{:?} formats to {text:?}, which does not parse", case.src)));
        let o = read(&format(&case.toml)?)?;
        let w = if matches!(self.0, "F10" | "F12") { read(&o.text)? } else { read(&format(&toml.wide)?)? };
        ctx.step(1);
        ctx.state(&o.text);
        // Rows of different assignments regroup (a finding for F01)
        if r::mixed_assignments(&s.root) {
            ctx.outcome("mixed assignments");
            return Ok(());
        }
        ctx.outcome(if o.text.trim_end().contains('\n') { "several lines" } else { "one line" });
        let (to, wide) = if self.0 == "F10" { (Map(HashMap::new()), Map(HashMap::new())) } else { (Map::new(&s.root, &o.root)?, Map::new(&s.root, &w.root)?) };
        let world = World { s, o, w, to, wide, toml, case };
        match self.0 {
            "F09" => world.braces(),
            "F10" => world.spaces(),
            "F11" => world.lines(),
            "F12" => world.assignments(),
            _ => unreachable!(),
        }?;
        ensure!(true, "");
        Ok(())
    }
}
