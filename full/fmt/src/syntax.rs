//! P03: the typed syntax tree is what the grammar (`xtask/codegen/r.ungram`) says.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

use air_r_factory::RSyntaxFactory;
use air_r_syntax::*;
use biome_rowan::*;
use mc::{Check, Ctx, Tier, Verdict, ensure, ensure_eq};
use serde::{Deserialize, Serialize};

use crate::r#gen::*;
use crate::r;

type K = RSyntaxKind;

#[path = "syntax_table.rs"]
mod table;

// --- what the table is made of ---------------------------------------------------------------

/// What an accessor gives
#[derive(Debug, Clone, PartialEq)]
pub enum Got {
    Is(RSyntaxElement),
    /// `None` of an optional child
    Nothing,
    /// the error for a required child that is not there
    Missing,
}
pub struct SlotEntry {
    name: &'static str,
    optional: bool,
    get: fn(&RSyntaxNode) -> Got,
    field: fn(&RSyntaxNode) -> Got,
}
type ByName<'a> = &'a dyn Fn(&str) -> Option<RSyntaxElement>;
pub struct NodeEntry {
    name: &'static str,
    can_cast: fn(K) -> bool,
    in_set: fn(K) -> bool,
    cast: fn(RSyntaxNode) -> Option<RSyntaxNode>,
    make: fn(ByName) -> RSyntaxNode,
    slots: Vec<SlotEntry>,
}
type Narrow = (&'static str, fn(&RSyntaxNode) -> Option<RSyntaxNode>);
type Widen = (&'static str, fn(&RSyntaxNode) -> RSyntaxNode);
pub struct UnionEntry {
    name: &'static str,
    can_cast: fn(K) -> bool,
    in_set: fn(K) -> bool,
    cast: fn(RSyntaxNode) -> Option<RSyntaxNode>,
    variant: fn(&RSyntaxNode) -> &'static str,
    narrow: Vec<Narrow>,
    widen: Vec<Widen>,
}
pub struct ListEntry {
    name: &'static str,
    can_cast: fn(K) -> bool,
    in_set: fn(K) -> bool,
    cast: fn(RSyntaxNode) -> Option<RSyntaxNode>,
    items: fn(&RSyntaxNode) -> Vec<Option<RSyntaxNode>>,
    make: fn(Vec<RSyntaxNode>, Vec<RSyntaxToken>) -> RSyntaxNode,
}
pub struct BogusEntry {
    name: &'static str,
    can_cast: fn(K) -> bool,
    in_set: fn(K) -> bool,
    items: fn(&RSyntaxNode) -> Vec<RSyntaxElement>,
    make: fn(Vec<Option<RSyntaxElement>>) -> RSyntaxNode,
}

fn cast<N: AstNode<Language = RLanguage>>(n: &RSyntaxNode) -> N {
    N::unwrap_cast(n.clone())
}
fn as_node<N: AstNode<Language = RLanguage>>(e: RSyntaxElement) -> N {
    N::unwrap_cast(e.into_node().unwrap())
}
fn as_token(e: RSyntaxElement) -> RSyntaxToken {
    e.into_token().unwrap()
}
fn node<N: AstNode<Language = RLanguage>>(n: N) -> RSyntaxElement {
    n.into_syntax().into()
}
fn token(t: RSyntaxToken) -> RSyntaxElement {
    t.into()
}
fn opt(e: Option<RSyntaxElement>) -> Got {
    e.map_or(Got::Nothing, Got::Is)
}
fn req(e: SyntaxResult<RSyntaxElement>) -> Got {
    e.map_or(Got::Missing, Got::Is)
}

struct Table {
    nodes: Vec<NodeEntry>,
    unions: Vec<UnionEntry>,
    lists: Vec<ListEntry>,
    bogus: Vec<BogusEntry>,
}
fn the_table() -> &'static Table {
    static TABLE: OnceLock<Table> = OnceLock::new();
    TABLE.get_or_init(|| Table { nodes: table::nodes(), unions: table::unions(), lists: table::lists(), bogus: table::bogus() })
}

// --- the grammar ---------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
enum Sym {
    Tokens(Vec<String>),
    Node(String),
}
#[derive(Clone, Debug)]
struct Slot {
    label: Option<String>,
    sym: Sym,
    optional: bool,
}
#[derive(Clone, Debug)]
enum Rule {
    Slots(Vec<Slot>),
    OneOf(Vec<String>),
    Many(String),
    Separated { item: String, separator: String, trailing: bool },
    Bogus,
}
type Grammar = BTreeMap<String, Rule>;

/// `'quoted'` tokens keep the quote in front
fn lex(text: &str) -> Vec<String> {
    let mut out = vec![];
    for line in text.lines() {
        if line.trim_start().starts_with("//") {
            continue;
        }
        let mut chars = line.chars().peekable();
        while let Some(c) = chars.next() {
            match c {
                c if c.is_whitespace() => {}
                '\'' => {
                    let mut t = String::from("'");
                    while let Some(c) = chars.next() {
                        match c {
                            '\\' => t.extend(chars.next()),
                            '\'' => break,
                            c => t.push(c),
                        }
                    }
                    out.push(t);
                }
                c if c.is_alphanumeric() || c == '_' => {
                    let mut t = String::from(c);
                    while let Some(c) = chars.next_if(|c| c.is_alphanumeric() || *c == '_') {
                        t.push(c);
                    }
                    out.push(t);
                }
                c => out.push(c.to_string()),
            }
        }
    }
    out
}

fn is_name(t: &str) -> bool {
    t.starts_with(|c: char| c.is_alphabetic())
}

fn parse_rule(t: &[String]) -> Option<Rule> {
    let s: Vec<&str> = t.iter().map(|t| t.as_str()).collect();
    match s.as_slice() {
        ["SyntaxElement", "*"] => return Some(Rule::Bogus),
        [item, "*"] if is_name(item) => return Some(Rule::Many(item.to_string())),
        ["(", item, "(", sep, again, ")", "*", rest @ .., ")"] if item == again && sep.starts_with('\'') => {
            let trailing = match rest {
                [] => false,
                [last, "?"] if last == sep => true,
                _ => return None,
            };
            return Some(Rule::Separated { item: item.to_string(), separator: sep[1..].to_string(), trailing });
        }
        [first, rest @ ..] if is_name(first) && !rest.is_empty() && rest.chunks(2).all(|c| c.len() == 2 && c[0] == "|" && is_name(c[1])) => {
            return Some(Rule::OneOf(s.iter().step_by(2).map(|t| t.to_string()).collect()));
        }
        _ => {}
    }
    let mut slots = vec![];
    let mut i = 0;
    while i < s.len() {
        let mut label = None;
        if is_name(s[i]) && s.get(i + 1) == Some(&":") {
            label = Some(s[i].to_string());
            i += 2;
        }
        let sym = if s.get(i)? == &"(" {
            let end = i + s[i..].iter().position(|t| *t == ")")?;
            let inner = &s[i + 1..end];
            i = end + 1;
            if !inner.chunks(2).all(|c| c[0].starts_with('\'') && c.get(1).is_none_or(|c| *c == "|")) {
                return None;
            }
            Sym::Tokens(inner.iter().step_by(2).map(|t| t[1..].to_string()).collect())
        } else if let Some(t) = s[i].strip_prefix('\'') {
            i += 1;
            Sym::Tokens(vec![t.to_string()])
        } else if is_name(s[i]) {
            i += 1;
            Sym::Node(s[i - 1].to_string())
        } else {
            return None;
        };
        let optional = s.get(i) == Some(&"?");
        i += optional as usize;
        slots.push(Slot { label, sym, optional });
    }
    Some(Rule::Slots(slots))
}

fn parse_grammar(text: &str) -> Grammar {
    let t = lex(text);
    let starts: Vec<usize> = (0..t.len()).filter(|i| is_name(&t[*i]) && t.get(i + 1).is_some_and(|e| e == "=")).collect();
    let mut out = Grammar::new();
    for (n, &at) in starts.iter().enumerate() {
        let end = starts.get(n + 1).copied().unwrap_or(t.len());
        if t[at] == "SyntaxElement" {
            continue;
        }
        match parse_rule(&t[at + 2..end]) {
            Some(rule) => out.insert(t[at].clone(), rule),
            None => panic!("the rule of {} in r.ungram is of a form that this check does not know: {:?}", t[at], &t[at + 2..end]),
        };
    }
    out
}

fn grammar() -> &'static Grammar {
    static GRAMMAR: OnceLock<Grammar> = OnceLock::new();
    GRAMMAR.get_or_init(|| parse_grammar(&std::fs::read_to_string("/repo/xtask/codegen/r.ungram").expect("r.ungram")))
}

/// All kinds, by name
fn kinds() -> &'static BTreeMap<String, K> {
    static KINDS: OnceLock<BTreeMap<String, K>> = OnceLock::new();
    KINDS.get_or_init(|| (0..u16::from(K::__LAST)).map(|k| K::from(k)).map(|k| (format!("{k:?}"), k)).collect())
}

fn kind_of_node(name: &str) -> Option<K> {
    let mut snake = String::new();
    for c in name.chars() {
        if c.is_uppercase() && !snake.is_empty() {
            snake.push('_');
        }
        snake.extend(c.to_uppercase());
    }
    kinds().get(&snake).copied()
}

/// The documented spelling of punctuation, by the names of the kinds
const PUNCTUATION: &[(&str, &str)] = &[
    (";", "SEMICOLON"), (",", "COMMA"), ("{", "L_CURLY"), ("}", "R_CURLY"), ("[", "L_BRACK"), ("]", "R_BRACK"), ("[[", "L_BRACK2"), ("]]", "R_BRACK2"), ("(", "L_PAREN"), (")", "R_PAREN"),
    ("?", "WAT"), ("~", "TILDE"), ("<-", "ASSIGN"), ("<<-", "SUPER_ASSIGN"), (":=", "WALRUS"), ("->", "ASSIGN_RIGHT"), ("->>", "SUPER_ASSIGN_RIGHT"), ("=", "EQUAL"),
    ("|", "OR"), ("&", "AND"), ("||", "OR2"), ("&&", "AND2"), ("<", "LESS_THAN"), ("<=", "LESS_THAN_OR_EQUAL_TO"), (">", "GREATER_THAN"), (">=", "GREATER_THAN_OR_EQUAL_TO"), ("==", "EQUAL2"), ("!=", "NOT_EQUAL"),
    ("+", "PLUS"), ("-", "MINUS"), ("*", "MULTIPLY"), ("/", "DIVIDE"), ("^", "EXPONENTIATE"), ("**", "EXPONENTIATE2"), ("|>", "PIPE"), (":", "COLON"), ("::", "COLON2"), (":::", "COLON3"), ("$", "DOLLAR"), ("@", "AT"), ("!", "BANG"), ("...", "DOTS"), ("\\", "BACKSLASH"),
];

fn kind_of_token(text: &str) -> Option<K> {
    if let Some((_, name)) = PUNCTUATION.iter().find(|(t, _)| *t == text) {
        return kinds().get(*name).copied();
    }
    let upper = text.to_uppercase();
    kinds().get(&format!("{upper}_KW")).or_else(|| kinds().get(&upper)).copied()
}

/// Kinds that a node of that name may have
fn kinds_of(name: &str) -> BTreeSet<u16> {
    match &grammar()[name] {
        Rule::OneOf(names) => names.iter().flat_map(|n| kinds_of(n)).collect(),
        _ => kind_of_node(name).into_iter().map(u16::from).collect(),
    }
}

fn kinds_of_sym(sym: &Sym) -> BTreeSet<u16> {
    match sym {
        Sym::Tokens(tokens) => tokens.iter().map(|t| u16::from(kind_of_token(t).unwrap_or_else(|| panic!("no kind for the token {t:?}")))).collect(),
        Sym::Node(name) => kinds_of(name),
    }
}

/// What the accessor of a slot is called
fn names_of(slot: &Slot) -> Vec<String> {
    match (&slot.label, &slot.sym) {
        (Some(label), _) => vec![label.clone(), format!("{label}_token")],
        (None, Sym::Tokens(t)) if t.len() == 1 => {
            let name = match t[0].as_str() {
                "(" => "l_paren",
                ")" => "r_paren",
                "{" => "l_curly",
                "}" => "r_curly",
                "[" => "l_brack",
                "]" => "r_brack",
                "[[" => "l_brack2",
                "]]" => "r_brack2",
                "=" => "eq",
                t => t,
            };
            vec![format!("{name}_token")]
        }
        _ => vec![],
    }
}

struct Shape {
    slots: Vec<(Vec<String>, BTreeSet<u16>, bool)>,
}

fn shape(name: &str) -> Option<&'static Shape> {
    static SHAPES: OnceLock<BTreeMap<String, Shape>> = OnceLock::new();
    SHAPES
        .get_or_init(|| {
            grammar()
                .iter()
                .filter_map(|(name, rule)| match rule {
                    Rule::Slots(slots) => Some((name.clone(), Shape { slots: slots.iter().map(|s| (names_of(s), kinds_of_sym(&s.sym), s.optional)).collect() })),
                    _ => None,
                })
                .collect()
        })
        .get(name)
}

/// The name of the rule with that kind of node
fn rule_of(kind: K) -> Option<&'static str> {
    static RULES: OnceLock<BTreeMap<u16, String>> = OnceLock::new();
    RULES.get_or_init(|| grammar().keys().filter_map(|n| Some((u16::from(kind_of_node(n)?), n.clone()))).collect()).get(&u16::from(kind)).map(|n| n.as_str())
}

fn is_node_kind(k: K) -> bool {
    rule_of(k).is_some()
}

// --- elements ------------------------------------------------------------------------------

fn detached(kind: K, text: &str) -> RSyntaxElement {
    if is_node_kind(kind) {
        let slots = if matches!(grammar()[rule_of(kind).unwrap()], Rule::Many(_) | Rule::Separated { .. }) { vec![] } else { vec![Some(RSyntaxToken::new_detached(K::IDENT, text, [], []).into())] };
        RSyntaxNode::new_detached(kind, slots).into()
    } else {
        RSyntaxToken::new_detached(kind, text, [], []).into()
    }
}

fn raw(kind: K, text: &str) -> RawSyntaxElement<K> {
    if is_node_kind(kind) {
        let slots = if matches!(grammar()[rule_of(kind).unwrap()], Rule::Many(_) | Rule::Separated { .. }) { vec![] } else { vec![Some(RawSyntaxElement::new_token(K::IDENT, text, vec![], vec![]))] };
        RawSyntaxNode::new(kind, slots).into()
    } else {
        RawSyntaxElement::new_token(kind, text, vec![], vec![])
    }
}

type Seen = Option<(K, String)>;

fn seen(e: &RSyntaxElement) -> (K, String) {
    match e {
        NodeOrToken::Node(n) => (n.kind(), n.text_with_trivia().to_string()),
        NodeOrToken::Token(t) => (t.kind(), t.text().to_string()),
    }
}
fn slots_of(n: &RSyntaxNode) -> Vec<Seen> {
    n.slots().map(|s| s.into_syntax_element().map(|e| seen(&e))).collect()
}

fn text_for(kind: K, i: usize) -> String {
    if is_node_kind(kind) && matches!(grammar()[rule_of(kind).unwrap()], Rule::Many(_) | Rule::Separated { .. }) { String::new() } else { format!("<{i}>") }
}

// --- the check -----------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Case {
    /// A node of that rule is made of children of those kinds
    Children(String, Vec<u16>),
    /// Is a node of the one kind a node of the other name?
    Cast(String, u16),
    Kind(u16),
    Text(String),
    Program(String),
    Precedence(String, String),
}

pub struct Syntax;

const OPERATORS: &[&[&str]] = &[
    &["?"], &["<-", "<<-", ":="], &["="], &["->", "->>"], &["~"], &["|", "||"], &["&", "&&"], &[], &["==", "!=", ">", ">=", "<", "<="], &["+", "-"], &["*", "/"], &["|>", "special"], &[":"], &[], &["^", "**"],
];

/// From loosest to tightest
fn rank(op: &str) -> Option<usize> {
    OPERATORS.iter().position(|ops| ops.contains(&op))
}

fn children(name: &str, word: &[u16], ctx: &mut Ctx) -> Verdict {
    let kind = kind_of_node(name).unwrap();
    let word: Vec<K> = word.iter().map(|k| K::from(*k)).collect();
    let what = format!("a {name} of {word:?}");
    let elements = word.iter().enumerate().map(|(i, k)| raw(*k, &text_for(*k, i))).collect();
    let made = RSyntaxNode::new_root(RSyntaxFactory::make_syntax(kind, ParsedChildren::new(elements)));
    ctx.step(1);
    let given: Vec<Seen> = word.iter().enumerate().map(|(i, k)| Some((*k, text_for(*k, i)))).collect();
    let bogus = || -> Verdict {
        ensure!(SyntaxKind::is_bogus(&made.kind()) && made.kind() == SyntaxKind::to_bogus(&kind), "{what} is a {:?}", made.kind());
        ensure_eq!(slots_of(&made), given, "children of {what}");
        Ok(())
    };
    match &grammar()[name] {
        Rule::OneOf(_) => unreachable!(),
        Rule::Bogus => {
            ctx.outcome("bogus");
            bogus()?;
            let Some(entry) = the_table().bogus.iter().find(|e| e.name == name) else { return Ok(()) };
            let items: Vec<Seen> = (entry.items)(&made).iter().map(|e| Some(seen(e))).collect();
            ensure_eq!(items, given, "items() of {what}");
            let slots = made.slots().map(|s| s.into_syntax_element()).collect();
            ensure_eq!(slots_of(&(entry.make)(slots)), given, "making {what}");
            Ok(())
        }
        rule @ (Rule::Many(item) | Rule::Separated { item, .. }) => {
            let items = kinds_of(item);
            let separator = match rule {
                Rule::Separated { separator, trailing, .. } => Some((kind_of_token(separator).unwrap(), *trailing)),
                _ => None,
            };
            if !word.iter().all(|k| items.contains(&u16::from(*k)) || separator.is_some_and(|s| s.0 == *k)) {
                ctx.outcome("bogus");
                return bogus();
            }
            // Holes where an item or a separator is missing
            let mut expected: Vec<Seen> = vec![];
            for (k, given) in word.iter().zip(&given) {
                if let Some((sep, _)) = separator {
                    if (*k == sep) == expected.len().is_multiple_of(2) {
                        expected.push(None);
                    }
                }
                expected.push(given.clone());
            }
            if let Some((sep, trailing)) = separator {
                if word.last() == Some(&sep) && !trailing {
                    expected.push(None);
                }
            }
            ensure!(made.kind() == kind, "{what} is a {:?}", made.kind());
            ensure_eq!(slots_of(&made), expected, "slots of {what}");
            let Some(entry) = the_table().lists.iter().find(|e| e.name == name) else { return Ok(()) };
            let got: Vec<Seen> = (entry.items)(&made).into_iter().map(|n| n.map(|n| seen(&n.into()))).collect();
            let step = if separator.is_some() { 2 } else { 1 };
            let want: Vec<Seen> = expected.iter().step_by(step).cloned().collect();
            ensure_eq!(got, want, "iter() of {what}");
            ctx.outcome(if expected.contains(&None) { "list with holes" } else { "list" });
            if !expected.contains(&None) {
                let nodes = made.children().collect();
                let tokens = made.tokens().collect();
                ensure_eq!(slots_of(&(entry.make)(nodes, tokens)), expected, "making {what}");
            }
            Ok(())
        }
        Rule::Slots(_) => {
            let shape = shape(name).unwrap();
            let mut rest = given.iter().cloned().peekable();
            let expected: Vec<Seen> = shape.slots.iter().map(|(_, set, _)| rest.next_if(|e| set.contains(&u16::from(e.as_ref().unwrap().0))).flatten()).collect();
            if rest.peek().is_some() {
                ctx.outcome("bogus");
                return bogus();
            }
            ensure!(made.kind() == kind, "{what} is a {:?}", made.kind());
            ensure_eq!(slots_of(&made), expected, "slots of {what}");
            let complete = shape.slots.iter().zip(&expected).all(|((_, _, optional), e)| *optional || e.is_some());
            ctx.outcome(if complete { "complete" } else { "incomplete" });
            ctx.state(&(name, expected.iter().map(|e| e.as_ref().map(|e| u16::from(e.0))).collect::<Vec<_>>()));
            typed(name, &made, &expected, &what, true)
        }
    }
}

/// The accessors and the factory agree with the slots
fn typed(name: &str, made: &RSyntaxNode, expected: &[Seen], what: &str, make: bool) -> Verdict {
    let shape = shape(name).unwrap();
    let Some(entry) = the_table().nodes.iter().find(|e| e.name == name) else { return Ok(()) };
    ensure!(entry.slots.len() == shape.slots.len(), "{name} has {} children in the grammar, {} accessors", shape.slots.len(), entry.slots.len());
    let lists: BTreeSet<u16> = the_table().lists.iter().filter_map(|l| kind_of_node(l.name)).map(u16::from).collect();
    let accessor = |i: usize| entry.slots.iter().find(|s| shape.slots[i].0.iter().any(|n| n == s.name));
    for (i, (names, set, optional)) in shape.slots.iter().enumerate() {
        let Some(slot) = accessor(i) else { return Err(format!("{name} has no accessor {names:?}").into()) };
        ensure!(slot.optional == *optional, "{name}.{}() is {} in the grammar", slot.name, if *optional { "optional" } else { "required" });
        // A list that is not there has no accessor that could say so
        if expected[i].is_none() && set.iter().all(|k| lists.contains(k)) {
            continue;
        }
        let want = |got: Got| match (&got, &expected[i]) {
            (Got::Is(e), Some(want)) => seen(e) == *want,
            (Got::Nothing, None) => *optional,
            (Got::Missing, None) => !*optional,
            _ => false,
        };
        ensure!(want((slot.get)(made)), "{}() of {what} is {:?}, should be {:?}", slot.name, (slot.get)(made), expected[i]);
    }
    if expected.iter().enumerate().any(|(i, e)| e.is_none() && shape.slots[i].1.iter().all(|k| lists.contains(k))) {
        return Ok(());
    }
    for i in 0..expected.len() {
        let slot = accessor(i).unwrap();
        ensure!((slot.field)(made) == (slot.get)(made), "as_fields().{} of {what}: {:?}", slot.name, (slot.field)(made));
    }
    if !make {
        return Ok(());
    }
    if (0..expected.len()).all(|i| shape.slots[i].2 || expected[i].is_some()) {
        let get = |n: &str| {
            let i = (0..expected.len()).find(|i| accessor(*i).unwrap().name == n)?;
            made.slots().nth(i).unwrap().into_syntax_element()
        };
        let result = (entry.make)(&get);
        ensure!(result.kind() == made.kind(), "making {what} gives a {:?}", result.kind());
        ensure_eq!(slots_of(&result), expected, "making {what}");
    }
    Ok(())
}

fn castable(name: &str, kind: K, ctx: &mut Ctx) -> Verdict {
    let want = kinds_of(name).contains(&u16::from(kind));
    ctx.outcome(if want { "castable" } else { "not castable" });
    let element = detached(kind, "<0>").into_node();
    let t = the_table();
    let check = |can: bool, in_set: bool, cast: Option<&dyn Fn(RSyntaxNode) -> Option<RSyntaxNode>>| -> Verdict {
        ensure!(can == want, "{name}::can_cast({kind:?}) is {can}");
        ensure!(in_set == want, "{name}::KIND_SET has {kind:?}: {in_set}");
        if let (Some(cast), Some(n)) = (cast, &element) {
            let got = cast(n.clone());
            ensure!(got.as_ref() == want.then_some(n), "casting {kind:?} to {name} gives {got:?}");
        }
        Ok(())
    };
    if let Some(e) = t.nodes.iter().find(|e| e.name == name) {
        return check((e.can_cast)(kind), (e.in_set)(kind), Some(&e.cast));
    }
    if let Some(e) = t.lists.iter().find(|e| e.name == name) {
        return check((e.can_cast)(kind), (e.in_set)(kind), Some(&e.cast));
    }
    if let Some(e) = t.bogus.iter().find(|e| e.name == name) {
        return check((e.can_cast)(kind), (e.in_set)(kind), None);
    }
    if let Some(e) = t.unions.iter().find(|e| e.name == name) {
        check((e.can_cast)(kind), (e.in_set)(kind), Some(&e.cast))?;
        let (true, Some(n)) = (want, &element) else { return Ok(()) };
        let Rule::OneOf(members) = &grammar()[name] else { return Err(format!("{name} is no alternative in the grammar").into()) };
        let member = members.iter().find(|m| kinds_of(m).contains(&u16::from(kind))).unwrap();
        ensure_eq!((e.variant)(n), member.as_str(), "variant of {name} for {kind:?}");
        for (to, f) in &e.narrow {
            let got = f(n);
            ensure!(got.as_ref() == (to == member).then_some(n), "{kind:?}, a {name}, as {to} is {got:?}");
        }
        for (from, f) in &e.widen {
            if from == member {
                ensure!(f(n) == *n, "{kind:?} as {name} is {:?}", f(n));
            }
        }
    }
    Ok(())
}

fn about_kind(kind: K) -> Verdict {
    let name = format!("{kind:?}");
    ensure!(<K as SyntaxKind>::from_raw(kind.to_raw()) == kind, "{kind:?} by number");
    let rule = rule_of(kind);
    let bogus = rule.is_some_and(|r| matches!(grammar()[r], Rule::Bogus));
    ensure_eq!(SyntaxKind::is_bogus(&kind), bogus, "{kind:?} is bogus");
    let list = rule.is_some_and(|r| matches!(grammar()[r], Rule::Many(_) | Rule::Separated { .. }));
    ensure_eq!(SyntaxKind::is_list(&kind), list, "{kind:?} is a list");
    ensure_eq!(kind.is_list(), list, "{kind:?} is a list");
    ensure_eq!(SyntaxKind::is_root(&kind), rule == Some("RRoot"), "{kind:?} is the root");
    let b = SyntaxKind::to_bogus(&kind);
    ensure!(SyntaxKind::is_bogus(&b) && SyntaxKind::to_bogus(&b) == b, "the bogus kind for {kind:?} is {b:?}");
    let trivia = match name.as_str() {
        "NEWLINE" => Some(TriviaPieceKind::Newline),
        "WHITESPACE" => Some(TriviaPieceKind::Whitespace),
        "COMMENT" => Some(TriviaPieceKind::SingleLineComment),
        _ => None,
    };
    ensure_eq!(kind.is_trivia(), trivia.is_some(), "{kind:?} is trivia");
    ensure_eq!(TriviaPieceKind::try_from(kind).ok(), trivia, "{kind:?} as trivia");
    ensure_eq!(kind.is_literal(), name.ends_with("_LITERAL"), "{kind:?} is a literal");
    let punctuation = PUNCTUATION.iter().find(|(_, n)| *n == name).map(|(t, _)| *t);
    ensure_eq!(kind.is_punct(), punctuation.is_some(), "{kind:?} is punctuation");
    let keyword = name.strip_suffix("_KW").map(|n| n.to_lowercase());
    if let Some(text) = punctuation.map(String::from).or(keyword) {
        ensure_eq!(K::to_string(&kind), Some(text.as_str()), "text of {kind:?}");
        ensure_eq!(SyntaxKind::to_string(&kind), Some(text.as_str()), "text of {kind:?}");
    } else if rule.is_none() {
        ensure_eq!(K::to_string(&kind), None, "text of {kind:?}");
    }
    let precedence = OperatorPrecedence::try_from_binary_operator(kind);
    if let Some(Rule::Slots(slots)) = grammar().get("RBinaryExpression") {
        let Sym::Tokens(operators) = &slots[1].sym else { return Ok(()) };
        let operator = operators.iter().find(|t| kind_of_token(t) == Some(kind));
        // `!=` has none, as on the first day; nothing uses it
        if kind != K::NOT_EQUAL {
            ensure_eq!(precedence.is_some(), operator.is_some(), "{kind:?} is a binary operator");
        }
    }
    Ok(())
}

/// A tree of the parser: all nodes are complete, and their accessors find the children
/// The rules for which the parser makes a node of a program that is not yet written to its end (`a $`, `a ::`).
fn half_written(rule: &str) -> bool {
    matches!(rule, "RExtractExpression" | "RNamespaceExpression")
}

fn program(src: &str, ctx: &mut Ctx) -> Verdict {
    let Ok(Some(parsed)) = mc::guard(|| r::parse(src)) else {
        ctx.outcome("rejected");
        return Ok(());
    };
    ctx.outcome("accepted");
    let root = parsed.syntax();
    ensure!(root.kind() == K::R_ROOT, "the root of {src:?} is a {:?}", root.kind());
    for n in root.descendants() {
        ctx.step(1);
        let Some(rule) = rule_of(n.kind()) else { return Err(format!("a {:?} in the tree of {src:?}", n.kind()).into()) };
        let what = format!("{:?} in the tree of {src:?}", n.text_trimmed().to_string());
        let slots = slots_of(&n);
        let fits = |slot: &Seen, set: &BTreeSet<u16>| slot.as_ref().is_some_and(|(k, _)| set.contains(&u16::from(*k)));
        match &grammar()[rule] {
            Rule::Slots(_) => {
                let shape = shape(rule).unwrap();
                ensure!(slots.len() == shape.slots.len(), "{what}, a {rule}, has {} children", slots.len());
                for (slot, (names, set, optional)) in slots.iter().zip(&shape.slots) {
                    let optional = *optional || half_written(rule) && names.iter().any(|n| n == "right");
                    ensure!(fits(slot, set) || slot.is_none() && optional, "{what}, a {rule}, has {slot:?} for {names:?}");
                }
                typed(rule, &n, &slots, &what, false)?;
            }
            Rule::Many(item) => {
                let set = kinds_of(item);
                for slot in &slots {
                    ensure!(fits(slot, &set), "{what}, a {rule}, has {slot:?}");
                }
            }
            Rule::Separated { item, separator, trailing } => {
                let set = kinds_of(item);
                let sep = BTreeSet::from([u16::from(kind_of_token(separator).unwrap())]);
                for (i, slot) in slots.iter().enumerate() {
                    ensure!(fits(slot, if i % 2 == 0 { &set } else { &sep }), "{what}, a {rule}, has {slot:?} as its {i}th child");
                }
                ensure!(slots.is_empty() || slots.len() % 2 == 1 || *trailing, "{what}, a {rule}, ends with a separator");
            }
            Rule::OneOf(_) | Rule::Bogus => return Err(format!("{what} is a {:?}", n.kind()).into()),
        }
        ctx.state(&(rule, slots.iter().map(|s| s.as_ref().map(|(k, _)| u16::from(*k))).collect::<Vec<_>>()));
    }
    Ok(())
}

fn precedence(a: &str, b: &str) -> Verdict {
    let kind = |t: &str| kind_of_token(t).unwrap();
    let (Some(p), Some(q)) = (OperatorPrecedence::try_from_binary_operator(kind(a)), OperatorPrecedence::try_from_binary_operator(kind(b))) else { return Ok(()) };
    ensure_eq!(p.cmp(&q), rank(a).cmp(&rank(b)), "precedence of {a} against {b}");
    Ok(())
}

impl Check for Syntax {
    type Case = Case;
    fn id(&self) -> &'static str {
        "P03"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "every rule of r.ungram: all sequences of up to {} of its kinds of children (one for each way in which the kinds fit its parts, and one that fits none), every kind of all in, before and instead of each child of each subset of its parts; every kind against every name; the trees of all programs of the nestings of 105 constructs, of 3 deep, and of up to {} tokens of 42",
            tier.pick(5, 7),
            tier.pick(3, 4),
        )
    }
    fn assumptions(&self) -> Vec<String> {
        crate::assumptions()
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Case)) {
        let all_kinds: Vec<u16> = kinds().values().copied().filter(|k| *k != K::TOMBSTONE).map(u16::from).collect();
        for k in &all_kinds {
            emit(Case::Kind(*k));
            for name in grammar().keys() {
                emit(Case::Cast(name.clone(), *k));
            }
        }
        for (text, _) in table::macros() {
            emit(Case::Text(text.to_string()));
        }
        for a in OPERATORS.concat() {
            for b in OPERATORS.concat() {
                emit(Case::Precedence(a.to_string(), b.to_string()));
            }
        }
        let foreign = |sets: &[BTreeSet<u16>]| all_kinds.iter().copied().find(|k| sets.iter().all(|s| !s.contains(k))).unwrap();
        for (name, rule) in grammar() {
            let (sets, optional): (Vec<BTreeSet<u16>>, bool) = match rule {
                Rule::OneOf(_) => continue,
                Rule::Bogus => {
                    mc::words(3, 3, &mut |w| emit(Case::Children(name.clone(), w.iter().map(|i| [K::IDENT, K::R_CALL, K::COMMA][*i].into()).collect())));
                    (vec![], false)
                }
                Rule::Many(item) => (vec![kinds_of(item)], true),
                Rule::Separated { item, separator, .. } => (vec![kinds_of(item), BTreeSet::from([u16::from(kind_of_token(separator).unwrap())])], true),
                Rule::Slots(_) => (shape(name).unwrap().slots.iter().map(|s| s.1.clone()).collect(), false),
            };
            // One kind for each way in which kinds fit the parts
            let mut classes: BTreeMap<Vec<bool>, u16> = BTreeMap::new();
            for k in &all_kinds {
                let class: Vec<bool> = sets.iter().map(|s| s.contains(k)).collect();
                if class.contains(&true) {
                    classes.entry(class).or_insert(*k);
                }
            }
            let mut alphabet: Vec<u16> = classes.into_values().collect();
            alphabet.push(foreign(&sets));
            let max = if optional { tier.pick(8, 10) } else { tier.pick(5, 7).min(sets.len() + 1) };
            mc::words(alphabet.len(), max, &mut |w| emit(Case::Children(name.clone(), w.iter().map(|i| alphabet[*i]).collect())));
            // Every kind of all
            let parts: Vec<u16> = if optional { vec![*sets[0].first().unwrap(), sets.last().unwrap().first().copied().unwrap(), *sets[0].first().unwrap()] } else { sets.iter().map(|s| *s.first().unwrap()).collect() };
            mc::tuples(&vec![2; parts.len()], &mut |pick| {
                let base: Vec<u16> = parts.iter().zip(pick).filter(|(_, p)| **p == 1).map(|(k, _)| *k).collect();
                for i in 0..=base.len() {
                    for k in &all_kinds {
                        let mut word = base.clone();
                        word.insert(i, *k);
                        emit(Case::Children(name.clone(), word.clone()));
                        if i < base.len() {
                            word.remove(i + 1);
                            emit(Case::Children(name.clone(), word));
                        }
                    }
                }
            });
        }
        let text = |p: &[Tok]| {
            let mut out = String::new();
            for (i, t) in p.iter().enumerate() {
                if i > 0 {
                    out += if p[i - 1].newline { "\n" } else { " " };
                }
                out += &t.text;
            }
            out
        };
        depth2(PRODUCTIONS, PRODUCTIONS, &mut |p| emit(Case::Program(text(&p))));
        depth3(SMALL, SMALL, SMALL, &mut |p| emit(Case::Program(text(&p))));
        mc::words(crate::parser::TOKENS.len(), tier.pick(3, 4), &mut |w| {
            emit(Case::Program(w.iter().map(|i| crate::parser::TOKENS[*i]).collect::<Vec<_>>().join(" ")));
        });
    }
    fn judge(&self, case: &Case, ctx: &mut Ctx) -> Verdict {
        match case {
            Case::Children(name, word) => children(name, word, ctx),
            Case::Cast(name, kind) => castable(name, K::from(*kind), ctx),
            Case::Kind(kind) => {
                ctx.outcome("a kind");
                about_kind(K::from(*kind))
            }
            Case::Text(text) => {
                ctx.outcome("a token");
                let (_, kind) = table::macros().into_iter().find(|(t, _)| t == text).unwrap();
                let want = kind_of_token(text);
                ensure!(want == Some(kind), "T![{text}] is {kind:?}");
                let keyword = format!("{kind:?}").ends_with("_KW").then_some(kind);
                ensure_eq!(K::from_keyword(text), keyword, "keyword {text}");
                Ok(())
            }
            Case::Program(src) => program(src, ctx),
            Case::Precedence(a, b) => {
                ctx.outcome("two operators");
                precedence(a, b)
            }
        }
    }
}
