//! T01: the grammar language
//!
//! The reference reads the text with its own tokenizer and recursive descent parser that
//! follow the documented notation, and keeps positions in characters.

use std::fmt::Write;

use biome_ungrammar::{Grammar, Rule};
use mc::{ensure_eq, Check, Ctx, Tier, Verdict};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone)]
pub struct Case(String);

type Pos = (usize, usize);
/// 1-based position, when the error has one
type Fail = Option<Pos>;

#[derive(Clone, PartialEq, Debug)]
enum Tok {
    Name(String),
    Lit(String),
    Sym(&'static str),
}

fn lex(text: &str) -> Result<Vec<(Tok, Pos)>, Fail> {
    let chars: Vec<char> = text.chars().collect();
    let mut out = Vec::new();
    let (mut i, mut line, mut column) = (0, 1, 1);
    // Consumes one character
    macro_rules! bump {
        () => {{
            if chars[i] == '\n' {
                line += 1;
                column = 1;
            } else {
                column += 1;
            }
            i += 1;
        }};
    }
    while i < chars.len() {
        let c = chars[i];
        let at = (line, column);
        let next = chars.get(i + 1).copied();
        if matches!(c, ' ' | '\t' | '\n') {
            bump!();
        } else if c == '/' && next == Some('/') {
            while i < chars.len() && chars[i] != '\n' {
                bump!();
            }
        } else if c.is_ascii_alphanumeric() || c == '_' {
            let mut name = String::new();
            while i < chars.len() && (chars[i].is_ascii_alphanumeric() || chars[i] == '_') {
                name.push(chars[i]);
                bump!();
            }
            out.push((Tok::Name(name), at));
        } else if c == '\'' {
            bump!();
            let mut text = String::new();
            loop {
                match chars.get(i) {
                    None => return Err(Some(at)),
                    Some('\'') => {
                        bump!();
                        break;
                    }
                    Some('\\') => {
                        bump!();
                        match chars.get(i) {
                            Some(c @ ('\\' | '\'')) => {
                                text.push(*c);
                                bump!();
                            }
                            _ => return Err(Some(at)),
                        }
                    }
                    Some(c) => {
                        text.push(*c);
                        bump!();
                    }
                }
            }
            out.push((Tok::Lit(text), at));
        } else {
            let symbol = match (c, next) {
                ('|', Some('|')) => "||",
                ('&', Some('&')) => "&&",
                ('|', _) => "|",
                ('=', _) => "=",
                ('*', _) => "*",
                ('?', _) => "?",
                ('(', _) => "(",
                (')', _) => ")",
                (':', _) => ":",
                _ => return Err(Some(at)),
            };
            for _ in 0..symbol.len() {
                bump!();
            }
            out.push((Tok::Sym(symbol), at));
        }
    }
    Ok(out)
}

struct Reader {
    toks: Vec<(Tok, Pos)>,
    at: usize,
    names: Vec<(String, Option<String>)>,
    lits: Vec<String>,
}

impl Reader {
    fn sym(&self, ahead: usize) -> Option<&'static str> {
        match self.toks.get(self.at + ahead) {
            Some((Tok::Sym(s), _)) => Some(s),
            _ => None,
        }
    }
    fn pos(&self) -> Fail {
        self.toks.get(self.at).map(|t| t.1)
    }
    fn name(&mut self, name: &str) -> usize {
        match self.names.iter().position(|n| n.0 == name) {
            Some(i) => i,
            None => {
                self.names.push((name.to_string(), None));
                self.names.len() - 1
            }
        }
    }
    fn grammar(&mut self) -> Result<(), Fail> {
        while self.at < self.toks.len() {
            let at = self.pos();
            let Tok::Name(name) = self.toks[self.at].0.clone() else { return Err(at) };
            self.at += 1;
            let index = self.name(&name);
            if self.sym(0) != Some("=") {
                return Err(self.pos());
            }
            self.at += 1;
            if self.names[index].1.is_some() {
                return Err(at);
            }
            let rule = self.alternatives()?;
            self.names[index].1 = Some(rule);
        }
        if self.names.iter().any(|n| n.1.is_none()) {
            return Err(None);
        }
        Ok(())
    }
    fn alternatives(&mut self) -> Result<String, Fail> {
        let mut parts = vec![self.sequence()?];
        let mut operator = None;
        while let Some(op @ ("|" | "||" | "&&")) = self.sym(0) {
            if *operator.get_or_insert(op) != op {
                return Err(self.pos());
            }
            self.at += 1;
            parts.push(self.sequence()?);
        }
        Ok(match operator {
            None => parts.pop().unwrap(),
            Some("|") => format!("alt({})", parts.join(" ")),
            Some("||") => format!("some({})", parts.join(" ")),
            Some(_) => format!("all({})", parts.join(" ")),
        })
    }
    fn sequence(&mut self) -> Result<String, Fail> {
        let mut parts = Vec::new();
        while let Some(part) = self.element()? {
            parts.push(part);
        }
        match parts.len() {
            0 => Err(self.pos()),
            1 => Ok(parts.pop().unwrap()),
            _ => Ok(format!("seq({})", parts.join(" "))),
        }
    }
    fn element(&mut self) -> Result<Option<String>, Fail> {
        let Some((tok, _)) = self.toks.get(self.at).cloned() else { return Ok(None) };
        let mut out = match tok {
            // the next definition begins
            Tok::Name(_) if self.sym(1) == Some("=") => return Ok(None),
            Tok::Name(label) if self.sym(1) == Some(":") => {
                self.at += 2;
                return match self.element()? {
                    Some(rule) => Ok(Some(format!("label[{label}]({rule})"))),
                    None => Err(self.pos()),
                };
            }
            Tok::Name(name) => {
                self.at += 1;
                self.name(&name);
                format!("node[{name}]")
            }
            Tok::Lit(text) => {
                self.at += 1;
                if !self.lits.contains(&text) {
                    self.lits.push(text.clone());
                }
                format!("token[{text}]")
            }
            Tok::Sym("(") => {
                self.at += 1;
                let rule = self.alternatives()?;
                if self.sym(0) != Some(")") {
                    return Err(self.pos());
                }
                self.at += 1;
                rule
            }
            Tok::Sym(_) => return Ok(None),
        };
        match self.sym(0) {
            Some("?") => {
                self.at += 1;
                out = format!("opt({out})");
            }
            Some("*") => {
                self.at += 1;
                out = format!("rep({out})");
            }
            _ => {}
        }
        Ok(Some(out))
    }
}

fn reference(text: &str) -> Result<String, Fail> {
    let toks = lex(text)?;
    let mut reader = Reader { toks, at: 0, names: Vec::new(), lits: Vec::new() };
    reader.grammar()?;
    let mut out = String::new();
    for (name, rule) in &reader.names {
        let _ = writeln!(out, "{name} = {}", rule.as_ref().unwrap());
    }
    let _ = write!(out, "{:?}", reader.lits);
    Ok(out)
}

fn show(grammar: &Grammar, rule: &Rule, out: &mut String) {
    let mut many = |name: &str, rules: &[Rule]| {
        let _ = write!(out, "{name}(");
        for (i, rule) in rules.iter().enumerate() {
            if i > 0 {
                out.push(' ');
            }
            show(grammar, rule, out);
        }
        out.push(')');
    };
    match rule {
        Rule::Seq(rules) => many("seq", rules),
        Rule::Alt(rules) => many("alt", rules),
        Rule::UnorderedSome(rules) => many("some", rules),
        Rule::UnorderedAll(rules) => many("all", rules),
        Rule::Opt(rule) => many("opt", std::slice::from_ref(rule)),
        Rule::Rep(rule) => many("rep", std::slice::from_ref(rule)),
        Rule::Labeled { label, rule } => many(&format!("label[{label}]"), std::slice::from_ref(rule)),
        Rule::Node(node) => {
            let _ = write!(out, "node[{}]", grammar[*node].name);
        }
        Rule::Token(token) => {
            let _ = write!(out, "token[{}]", grammar[*token].name);
        }
    }
}

fn code(text: &str) -> Result<String, Fail> {
    match text.parse::<Grammar>() {
        Ok(grammar) => {
            let mut out = String::new();
            for node in grammar.iter() {
                let _ = write!(out, "{} = ", grammar[node].name);
                show(&grammar, &grammar[node].rule, &mut out);
                out.push('\n');
            }
            let tokens: Vec<&str> = grammar.tokens().map(|t| grammar[t].name.as_str()).collect();
            let _ = write!(out, "{tokens:?}");
            Ok(out)
        }
        Err(error) => {
            // `line:column: message`, as shown to the user
            let shown = error.to_string();
            let mut parts = shown.splitn(3, ':');
            let line = parts.next().and_then(|s| s.parse().ok());
            let column = parts.next().and_then(|s| s.parse().ok());
            Err(line.zip(column))
        }
    }
}

const TOKENS: &[&str] = &[" A ", " B ", " = ", " 't' ", " | ", " || ", " && ", " ( ", " ) ", "* ", "? ", ":", "\n"];
const CHARS: &[&str] = &["A", "=", "'", "\\", " ", "\n", "/", "|", "&", "?", "\r", "é", ":", "\t"];
const REST: &[&str] = &[" A ", " 't' ", " B ", " | ", " || ", " && ", "(", ")", "*", "?", "a:", "\nB ="];
const LINES: &[&str] = &["A = 'a'\n", "// é '\n", "  ", "B = A\n", "C = 'x\ny' ", "é", "\\", "D = a:(A | B)* ", "'", "A = B\n", "\n", "//", "\r", "&", "= "];

pub struct Ungrammar;

impl Check for Ungrammar {
    type Case = Case;
    fn id(&self) -> &'static str {
        "T01"
    }
    fn bounds(&self, tier: Tier) -> String {
        format!(
            "all texts of up to {} grammar tokens out of {}; all right-hand sides of up to {} tokens out of {}; all texts of up to {} characters out of {}; all sequences of up to {} of {} lines and fragments; every character (about 700) in every kind of place; errors on lines and in columns up to 65537; up to {} definitions, alternatives and elements",
            tier.pick(5, 6), TOKENS.len(), tier.pick(5, 6), REST.len(), tier.pick(5, 6), CHARS.len(), tier.pick(4, 6), LINES.len(), tier.pick(300, 1000)
        )
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Case)) {
        mc::texts(TOKENS, tier.pick(5, 6), &mut |text| emit(Case(text)));
        mc::texts(REST, tier.pick(5, 6), &mut |text| emit(Case(format!("A = {text}"))));
        mc::texts(CHARS, tier.pick(5, 6), &mut |text| emit(Case(text)));
        mc::texts(LINES, tier.pick(4, 6), &mut |text| emit(Case(text)));
        mc::texts(&["'", "\\", "A", "é", "\n", "//"], tier.pick(6, 8), &mut |text| emit(Case(format!("A = {text}"))));
        // Every character, alone, in names, literals and comments, and as an operator
        for c in mc::characters() {
            for around in [("", ""), ("A = B", "\nB = 'x'"), ("A = ", "B\nB = 'x'"), ("A = B ", " B\nB = 'x'"), ("A = '", "'"), ("A = '\\", "'"), ("//", "\nA = 'x' ="), ("A", "= 'x'"), ("", "A = 'x'")] {
                emit(Case(format!("{}{c}{}", around.0, around.1)));
            }
            emit(Case(format!("A = B{c}\nB{c} = 'x'")));
            emit(Case(format!("A{c}{c} = B | '{c}' | {c}\n{c}{c} = 'x'\nB = A{c}{c}*")));
        }
        // Every line and column
        for n in (1..=tier.pick(270, 1100)).chain([4095, 4096, 65535, 65536, 65537]) {
            for blank in [" ", "\t", "é", "𝄞"] {
                let line = if blank.trim().is_empty() { blank.repeat(n) } else { format!("'{}'", blank.repeat(n)) };
                emit(Case(format!("A = {line}=")));
                emit(Case(format!("A = 'x'\nB = A {line}\n$")));
                emit(Case(format!("A = B {line} 'x'")));
            }
            emit(Case(format!("{}A = )", "\n".repeat(n))));
            emit(Case(format!("{}A = 'x' B ", "// é\n".repeat(n))));
            emit(Case(format!("A = '{}' )", "\n".repeat(n))));
            emit(Case(format!("A = B\nB = {}", "x".repeat(n))));
            let name = "n".repeat(n);
            emit(Case(format!("{name} = {name}? '{name}'\n{name}2 = {name} : 'a'")));
            emit(Case(format!("A = {name}:'x'* {name}2:A")));
        }
        // Many definitions, alternatives and elements
        for n in [41, 64, 65, 127, 128, 129, 255, 256, 257, tier.pick(300, 1000)] {
            let all: String = (0..n).map(|i| format!("N{i} = N{} '{i}'\n", (i * 7 + 1) % n)).collect();
            emit(Case(all.clone()));
            emit(Case(format!("{all}N{} = 'x'", n - 1)));
            emit(Case(format!("{all}M = N{n}")));
            for separator in [" ", " | ", " || ", " && "] {
                let parts: Vec<String> = (0..n).map(|i| format!("'{i}'")).collect();
                emit(Case(format!("A = {}", parts.join(separator))));
                emit(Case(format!("A = ({})* 'x' {}?", parts.join(separator), "A* ".repeat(n))));
                emit(Case(format!("A = {}{separator}", parts.join(separator))));
                emit(Case(format!("A = {} | ('x' && 'y') || 'z'", parts.join(separator))));
            }
        }
        // Nesting and long grammars
        for depth in 1..=40 {
            emit(Case(format!("A = {}'x'{}", "(".repeat(depth), ")".repeat(depth))));
            emit(Case(format!("A = {}'x'{}", "(".repeat(depth), ")?".repeat(depth))));
            emit(Case(format!("A = {}'x'{}", "(".repeat(depth), ")".repeat(depth - 1))));
            let all: String = (0..depth).map(|i| format!("N{i} = N{} '{i}'\n", (i + 1) % depth)).collect();
            emit(Case(all.clone()));
            emit(Case(format!("{all}N0 = 'x'")));
            emit(Case(format!("{all}\n  M = Undefined")));
        }
    }
    fn judge(&self, case: &Case, ctx: &mut Ctx) -> Verdict {
        let text = case.0.as_str();
        let want = reference(text);
        let got = code(text);
        match (&got, &want) {
            (Ok(_), Ok(_)) => ensure_eq!(got, want, "grammar read from {text:?}"),
            (Err(_), Err(_)) => ensure_eq!(got, want, "position of the error in {text:?}"),
            (Ok(_), Err(_)) => return Err(format!("{text:?} is accepted, expected an error at {want:?}").into()),
            (Err(_), Ok(_)) => return Err(format!("{text:?} is rejected at {got:?}, expected {want:?}").into()),
        }
        ctx.step(1);
        ctx.state(&want);
        ctx.outcome(match want {
            Ok(text) if text.len() < 4 => "empty grammar",
            Ok(_) => "grammar",
            Err(Some(_)) => "error at a position",
            Err(None) => "error without a position",
        });
        Ok(())
    }
}
