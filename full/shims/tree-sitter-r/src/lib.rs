//! Clean-room stand-in for `tree-sitter-r`: a recursive descent parser of R that produces trees
//! with the node kinds, fields and placement of comments of the tree-sitter grammar.

use tree_sitter::{LanguageFn, RawNode, Tree};

pub const LANGUAGE: LanguageFn = LanguageFn(parse);

fn parse(text: &str) -> Tree {
    let mut p = P {
        text,
        bytes: text.as_bytes(),
        nodes: Vec::new(),
        pos: 0,
        scopes: vec![Scope::Top],
        comments: Vec::new(),
    };
    let parsed = p.program();
    let mut top = Vec::new();
    let error = match parsed {
        Ok(children) => {
            top = children;
            false
        }
        Err(Bad) => {
            p.nodes.clear();
            p.comments.clear();
            true
        }
    };
    let root = p.node("program", 0, text.len(), top);
    let mut tree = Tree { nodes: p.nodes, root, error, lines: Vec::new() };
    for (start, end) in p.comments {
        attach_comment(&mut tree, start, end);
    }
    for id in 0..tree.nodes.len() {
        for child in tree.nodes[id].children.clone() {
            tree.nodes[child].parent = Some(id);
        }
    }
    tree
}

/// A comment belongs to the deepest node that has something on both sides of it
fn attach_comment(tree: &mut Tree, start: usize, end: usize) {
    let mut at = tree.root;
    'down: loop {
        for &child in &tree.nodes[at].children {
            let node = &tree.nodes[child];
            if node.start <= start && end <= node.end {
                at = child;
                continue 'down;
            }
        }
        break;
    }
    let id = tree.nodes.len();
    tree.nodes.push(RawNode {
        kind: "comment",
        field: None,
        start,
        end,
        children: Vec::new(),
        parent: None,
    });
    let before = tree.nodes[at]
        .children
        .iter()
        .position(|&child| tree.nodes[child].start >= end)
        .unwrap_or(tree.nodes[at].children.len());
    tree.nodes[at].children.insert(before, id);
}

#[derive(Debug)]
struct Bad;
type Res<T> = Result<T, Bad>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Scope {
    Top,
    Brace,
    Paren,
    Bracket,
    Bracket2,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum T {
    /// Operators, punctuation and keywords, by spelling
    Sym(&'static str),
    Special,
    Ident,
    Dots,
    DotDotI,
    Float,
    Integer,
    Complex,
    /// Lengths of opening and closing delimiters
    Str(usize, usize),
    Eof,
}

#[derive(Clone, Copy, Debug)]
struct Tok {
    t: T,
    start: usize,
    end: usize,
    /// A newline comes before it
    nl: bool,
}

struct P<'a> {
    text: &'a str,
    bytes: &'a [u8],
    nodes: Vec<RawNode>,
    pos: usize,
    scopes: Vec<Scope>,
    comments: Vec<(usize, usize)>,
}

mod prec {
    pub const HELP: u8 = 1;
    pub const LOW: u8 = 2;
    pub const IF: u8 = 3;
    pub const LEFT_ASSIGN: u8 = 4;
    pub const EQUALS_ASSIGN: u8 = 5;
    pub const RIGHT_ASSIGN: u8 = 6;
    pub const TILDE: u8 = 7;
    pub const OR: u8 = 8;
    pub const AND: u8 = 9;
    pub const NOT: u8 = 10;
    pub const RELATIONAL: u8 = 11;
    pub const ADD: u8 = 12;
    pub const MULTIPLY: u8 = 13;
    pub const SPECIAL: u8 = 14;
    pub const COLON: u8 = 15;
    pub const UNARY: u8 = 16;
    pub const EXPONENT: u8 = 17;
}

/// `(rank, right associative)`
fn binary(t: T) -> Option<(u8, bool)> {
    Some(match t {
        T::Special => (prec::SPECIAL, false),
        T::Sym(s) => match s {
            "?" => (prec::HELP, false),
            "<-" | "<<-" | ":=" => (prec::LEFT_ASSIGN, true),
            "=" => (prec::EQUALS_ASSIGN, true),
            "->" | "->>" => (prec::RIGHT_ASSIGN, false),
            "~" => (prec::TILDE, false),
            "|" | "||" => (prec::OR, false),
            "&" | "&&" => (prec::AND, false),
            "<" | "<=" | ">" | ">=" | "==" | "!=" => (prec::RELATIONAL, false),
            "+" | "-" => (prec::ADD, false),
            "*" | "/" => (prec::MULTIPLY, false),
            "|>" => (prec::SPECIAL, false),
            ":" => (prec::COLON, false),
            "^" | "**" => (prec::EXPONENT, true),
            _ => return None,
        },
        _ => return None,
    })
}

const KEYWORDS: &[&str] = &[
    "function", "if", "else", "for", "in", "while", "repeat", "next", "break", "TRUE", "FALSE",
    "NULL", "Inf", "NaN", "NA", "NA_integer_", "NA_real_", "NA_complex_", "NA_character_",
];
/// Longest first
const SYMBOLS: &[&str] = &[
    "<<-", "->>", ":::", "**", "<-", "<=", "->", ">=", "==", "!=", "|>", "||", "&&", ":=", "::",
    "[[", "{", "}", "(", ")", "[", "]", "?", "~", "<", ">", "=", "|", "&", "+", "-", "*", "/",
    "^", ":", "$", "@", "!", "\\", ",", ";",
];

fn ident_start(c: char) -> bool {
    c.is_alphabetic() || c == '.'
}
fn ident_continue(c: char) -> bool {
    c.is_alphanumeric() || c == '.' || c == '_' || (c as u32 >= 128 && !c.is_whitespace())
}

impl P<'_> {
    fn node(&mut self, kind: &'static str, start: usize, end: usize, children: Vec<usize>) -> usize {
        self.nodes.push(RawNode { kind, field: None, start, end, children, parent: None });
        self.nodes.len() - 1
    }
    /// From the first child's start to the last child's end
    fn wrap(&mut self, kind: &'static str, children: Vec<usize>) -> usize {
        let start = self.nodes[children[0]].start;
        let end = self.nodes[*children.last().unwrap()].end;
        self.node(kind, start, end, children)
    }
    fn field(&mut self, id: usize, field: &'static str) -> usize {
        self.nodes[id].field = Some(field);
        id
    }
    fn scope(&self) -> Scope {
        *self.scopes.last().unwrap()
    }
    /// Do newlines end expressions here?
    fn newlines_count(&self) -> bool {
        matches!(self.scope(), Scope::Top | Scope::Brace)
    }

    fn at(&self, i: usize) -> u8 {
        self.bytes.get(i).copied().unwrap_or(0)
    }

    /// Next token after whitespace and comments, without consuming anything
    fn peek(&mut self) -> Res<Tok> {
        let mut i = self.pos;
        let mut nl = false;
        loop {
            match self.bytes.get(i) {
                Some(b'\n') => {
                    nl = true;
                    i += 1;
                }
                Some(b' ' | b'\t' | b'\r' | 0x0B | 0x0C) => i += 1,
                Some(b'#') => {
                    let start = i;
                    while i < self.bytes.len() && self.bytes[i] != b'\n' {
                        i += 1;
                    }
                    let mut end = i;
                    while self.bytes[end - 1] == b'\r' {
                        end -= 1;
                    }
                    if self.comments.last().is_none_or(|c| c.0 < start) {
                        self.comments.push((start, end));
                    }
                }
                _ => break,
            }
        }
        let (t, end) = self.lex(i)?;
        Ok(Tok { t, start: i, end, nl })
    }

    fn lex(&self, i: usize) -> Res<(T, usize)> {
        if i >= self.bytes.len() {
            return Ok((T::Eof, i));
        }
        let b = self.at(i);
        // Strings
        if b == b'"' || b == b'\'' {
            return self.lex_string(i, b);
        }
        if (b == b'r' || b == b'R') && matches!(self.at(i + 1), b'"' | b'\'') {
            if let Some(found) = self.lex_raw_string(i)? {
                return Ok(found);
            }
        }
        if b == b'`' {
            let mut j = i + 1;
            while j < self.bytes.len() {
                match self.bytes[j] {
                    b'\\' => j += 2,
                    b'`' if j > i + 1 => return Ok((T::Ident, j + 1)),
                    b'`' => return Err(Bad),
                    _ => j += 1,
                }
            }
            return Err(Bad);
        }
        // Dots
        if self.text[i..].starts_with("...") && !self.continues(i + 3) {
            return Ok((T::Dots, i + 3));
        }
        if self.text[i..].starts_with("..") && self.at(i + 2).is_ascii_digit() {
            let mut j = i + 2;
            while self.at(j).is_ascii_digit() {
                j += 1;
            }
            if !self.continues(j) {
                return Ok((T::DotDotI, j));
            }
        }
        // Numbers
        if b.is_ascii_digit() || (b == b'.' && self.at(i + 1).is_ascii_digit()) {
            let j = self.lex_number(i);
            return Ok(match self.at(j) {
                b'L' => (T::Integer, j + 1),
                b'i' => (T::Complex, j + 1),
                _ => (T::Float, j),
            });
        }
        // Identifiers and keywords
        let c = self.text[i..].chars().next().unwrap();
        if ident_start(c) || (c == '_' && !self.continues(i + 1)) {
            let end = i + self.text[i..].find(|c| !ident_continue(c)).unwrap_or(self.text.len() - i);
            let word = &self.text[i..end];
            return Ok(match KEYWORDS.iter().find(|k| **k == word) {
                Some(k) => (T::Sym(k), end),
                None => (T::Ident, end),
            });
        }
        // `%special%`
        if b == b'%' {
            let mut j = i + 1;
            loop {
                match self.bytes.get(j) {
                    Some(b'%') => return Ok((T::Special, j + 1)),
                    None | Some(b'\n') => return Err(Bad),
                    _ => j += 1,
                }
            }
        }
        if self.scope() == Scope::Bracket2 && self.text[i..].starts_with("]]") {
            return Ok((T::Sym("]]"), i + 2));
        }
        match SYMBOLS.iter().find(|s| self.text[i..].starts_with(**s)) {
            Some(s) => Ok((T::Sym(s), i + s.len())),
            None => Err(Bad),
        }
    }

    fn continues(&self, i: usize) -> bool {
        self.text.get(i..).and_then(|s| s.chars().next()).is_some_and(ident_continue)
    }

    fn lex_number(&self, i: usize) -> usize {
        let mut j = i;
        if self.at(j) == b'0' && matches!(self.at(j + 1), b'x' | b'X') {
            j += 2;
            while self.at(j).is_ascii_hexdigit() {
                j += 1;
            }
            if self.at(j) == b'.' {
                j += 1;
                while self.at(j).is_ascii_hexdigit() {
                    j += 1;
                }
            }
            return self.lex_exponent(j, b'p', b'P');
        }
        while self.at(j).is_ascii_digit() {
            j += 1;
        }
        if self.at(j) == b'.' {
            j += 1;
            while self.at(j).is_ascii_digit() {
                j += 1;
            }
        }
        self.lex_exponent(j, b'e', b'E')
    }
    fn lex_exponent(&self, j: usize, lower: u8, upper: u8) -> usize {
        if self.at(j) != lower && self.at(j) != upper {
            return j;
        }
        let mut k = j + 1;
        if matches!(self.at(k), b'+' | b'-') {
            k += 1;
        }
        if !self.at(k).is_ascii_digit() {
            return j;
        }
        while self.at(k).is_ascii_digit() {
            k += 1;
        }
        k
    }

    fn lex_string(&self, i: usize, quote: u8) -> Res<(T, usize)> {
        let mut j = i + 1;
        while j < self.bytes.len() {
            match self.bytes[j] {
                b'\\' => j += 2,
                b if b == quote => return Ok((T::Str(1, 1), j + 1)),
                _ => j += 1,
            }
        }
        Err(Bad)
    }
    fn lex_raw_string(&self, i: usize) -> Res<Option<(T, usize)>> {
        let quote = self.at(i + 1);
        let mut j = i + 2;
        while self.at(j) == b'-' {
            j += 1;
        }
        let dashes = j - (i + 2);
        let close = match self.at(j) {
            b'(' => b')',
            b'[' => b']',
            b'{' => b'}',
            _ => return Ok(None),
        };
        let mut end = vec![close];
        end.extend(std::iter::repeat_n(b'-', dashes));
        end.push(quote);
        let body = j + 1;
        match self.bytes[body..].windows(end.len()).position(|w| w == end) {
            Some(at) => Ok(Some((T::Str(body - i, end.len()), body + at + end.len()))),
            None => Err(Bad),
        }
    }

    fn take(&mut self, tok: Tok) {
        self.pos = tok.end;
    }
    /// Consume a token as a leaf
    fn leaf(&mut self, tok: Tok, kind: &'static str) -> usize {
        self.take(tok);
        self.node(kind, tok.start, tok.end, Vec::new())
    }
    fn expect(&mut self, sym: &'static str) -> Res<usize> {
        let tok = self.peek()?;
        if tok.t != T::Sym(sym) {
            return Err(Bad);
        }
        Ok(self.leaf(tok, sym))
    }

    fn program(&mut self) -> Res<Vec<usize>> {
        let children = self.statements()?;
        match self.peek()?.t {
            T::Eof => Ok(children),
            _ => Err(Bad),
        }
    }
    /// Expressions up to something that is not the start of one; separators are not needed
    fn statements(&mut self) -> Res<Vec<usize>> {
        let mut out = Vec::new();
        loop {
            let tok = self.peek()?;
            match tok.t {
                T::Sym(";") => self.take(tok),
                T::Eof | T::Sym("}") => return Ok(out),
                _ => out.push(self.expr(0)?),
            }
        }
    }

    fn expr(&mut self, min: u8) -> Res<usize> {
        let mut left = self.prefix()?;
        loop {
            let tok = self.peek()?;
            if tok.nl && self.newlines_count() {
                return Ok(left);
            }
            match tok.t {
                T::Sym("(") => left = self.call(left, "call", Scope::Paren, "(", ")")?,
                T::Sym("[") => left = self.call(left, "subset", Scope::Bracket, "[", "]")?,
                T::Sym("[[") => left = self.call(left, "subset2", Scope::Bracket2, "[[", "]]")?,
                T::Sym(s @ ("$" | "@")) => {
                    let op = self.leaf(tok, s);
                    let mut children = vec![left, op];
                    children.extend(self.selector()?);
                    left = self.wrap("extract_operator", children);
                }
                t => {
                    let Some((rank, right)) = binary(t) else { return Ok(left) };
                    if rank < min {
                        return Ok(left);
                    }
                    let kind = match t {
                        T::Sym(s) => s,
                        _ => "special",
                    };
                    let op = self.leaf(tok, kind);
                    let rhs = self.expr(if right { rank } else { rank + 1 })?;
                    left = self.wrap("binary_operator", vec![left, op, rhs]);
                }
            }
        }
    }

    /// What may follow `$`, `@`, `::` and `:::`; it may also be left out
    fn selector(&mut self) -> Res<Option<usize>> {
        let tok = self.peek()?;
        Ok(match tok.t {
            _ if tok.nl && self.newlines_count() => None,
            T::Ident => Some(self.leaf(tok, "identifier")),
            T::Dots => Some(self.leaf(tok, "dots")),
            T::DotDotI => Some(self.leaf(tok, "dot_dot_i")),
            T::Str(..) => Some(self.string(tok)),
            _ => None,
        })
    }

    fn string(&mut self, tok: Tok) -> usize {
        let T::Str(open, close) = tok.t else { unreachable!() };
        self.take(tok);
        let content = (tok.start + open, tok.end - close);
        let mut children = vec![self.node("string_open", tok.start, content.0, Vec::new())];
        if content.0 < content.1 {
            let mut escapes = Vec::new();
            if open == 1 {
                let mut i = content.0;
                while i < content.1 {
                    if self.bytes[i] == b'\\' {
                        let len = self.text[i + 1..].chars().next().map_or(0, char::len_utf8);
                        escapes.push(self.node("escape_sequence", i, i + 1 + len, Vec::new()));
                        i += 1 + len;
                    } else {
                        i += 1;
                    }
                }
            }
            children.push(self.node("string_content", content.0, content.1, escapes));
        }
        children.push(self.node("string_close", content.1, tok.end, Vec::new()));
        self.node("string", tok.start, tok.end, children)
    }

    fn prefix(&mut self) -> Res<usize> {
        let tok = self.peek()?;
        let unary = |t| match t {
            T::Sym("-" | "+") => Some(prec::UNARY),
            T::Sym("!") => Some(prec::NOT),
            T::Sym("~") => Some(prec::TILDE),
            T::Sym("?") => Some(prec::HELP),
            _ => None,
        };
        if let Some(rank) = unary(tok.t) {
            let T::Sym(s) = tok.t else { unreachable!() };
            let op = self.leaf(tok, s);
            let operand = self.expr(rank)?;
            return Ok(self.wrap("unary_operator", vec![op, operand]));
        }
        match tok.t {
            T::Sym(s @ ("function" | "\\")) => {
                let name = self.leaf(tok, s);
                let parameters = self.parameters()?;
                let body = self.expr(prec::LOW)?;
                Ok(self.wrap("function_definition", vec![name, parameters, body]))
            }
            T::Sym("if") => {
                let mut children = vec![self.leaf(tok, "if")];
                self.condition(&mut children)?;
                children.push(self.expr(prec::IF)?);
                let next = self.peek()?;
                if next.t == T::Sym("else") && !(next.nl && self.scope() == Scope::Top) {
                    children.push(self.leaf(next, "else"));
                    children.push(self.expr(prec::IF)?);
                }
                Ok(self.wrap("if_statement", children))
            }
            T::Sym("for") => {
                let mut children = vec![self.leaf(tok, "for"), self.expect("(")?];
                self.scopes.push(Scope::Paren);
                let variable = self.peek()?;
                if variable.t != T::Ident {
                    return Err(Bad);
                }
                children.push(self.leaf(variable, "identifier"));
                children.push(self.expect("in")?);
                children.push(self.expr(0)?);
                children.push(self.expect(")")?);
                self.scopes.pop();
                children.push(self.expr(prec::LOW)?);
                Ok(self.wrap("for_statement", children))
            }
            T::Sym("while") => {
                let mut children = vec![self.leaf(tok, "while")];
                self.condition(&mut children)?;
                children.push(self.expr(prec::LOW)?);
                Ok(self.wrap("while_statement", children))
            }
            T::Sym("repeat") => {
                let name = self.leaf(tok, "repeat");
                let body = self.expr(prec::LOW)?;
                Ok(self.wrap("repeat_statement", vec![name, body]))
            }
            _ => {
                let primary = self.primary(tok)?;
                // Only names have namespaces, and only once
                if !matches!(tok.t, T::Ident | T::Str(..) | T::Dots | T::DotDotI) {
                    return Ok(primary);
                }
                let next = self.peek()?;
                match next.t {
                    T::Sym(s @ ("::" | ":::")) if !(next.nl && self.newlines_count()) => {
                        let op = self.leaf(next, s);
                        let mut children = vec![primary, op];
                        children.extend(self.selector()?);
                        Ok(self.wrap("namespace_operator", children))
                    }
                    _ => Ok(primary),
                }
            }
        }
    }

    fn condition(&mut self, children: &mut Vec<usize>) -> Res<()> {
        children.push(self.expect("(")?);
        self.scopes.push(Scope::Paren);
        children.push(self.expr(0)?);
        children.push(self.expect(")")?);
        self.scopes.pop();
        Ok(())
    }

    fn primary(&mut self, tok: Tok) -> Res<usize> {
        Ok(match tok.t {
            T::Ident => self.leaf(tok, "identifier"),
            T::Dots => self.leaf(tok, "dots"),
            T::DotDotI => self.leaf(tok, "dot_dot_i"),
            T::Float => self.leaf(tok, "float"),
            T::Integer | T::Complex => {
                let (kind, suffix) =
                    if tok.t == T::Integer { ("integer", "L") } else { ("complex", "i") };
                self.take(tok);
                let suffix = self.node(suffix, tok.end - 1, tok.end, Vec::new());
                self.node(kind, tok.start, tok.end, vec![suffix])
            }
            T::Str(..) => self.string(tok),
            T::Sym("TRUE") => self.leaf(tok, "true"),
            T::Sym("FALSE") => self.leaf(tok, "false"),
            T::Sym("NULL") => self.leaf(tok, "null"),
            T::Sym("Inf") => self.leaf(tok, "inf"),
            T::Sym("NaN") => self.leaf(tok, "nan"),
            T::Sym("next") => self.leaf(tok, "next"),
            T::Sym("break") => self.leaf(tok, "break"),
            T::Sym(
                s @ ("NA" | "NA_integer_" | "NA_real_" | "NA_complex_" | "NA_character_"),
            ) => {
                let value = self.leaf(tok, s);
                self.wrap("na", vec![value])
            }
            T::Sym("(") => {
                let open = self.leaf(tok, "(");
                self.scopes.push(Scope::Paren);
                let body = self.expr(0)?;
                let close = self.expect(")")?;
                self.scopes.pop();
                self.wrap("parenthesized_expression", vec![open, body, close])
            }
            T::Sym("{") => {
                let mut children = vec![self.leaf(tok, "{")];
                self.scopes.push(Scope::Brace);
                children.extend(self.statements()?);
                children.push(self.expect("}")?);
                self.scopes.pop();
                self.wrap("braced_expression", children)
            }
            _ => return Err(Bad),
        })
    }

    fn parameters(&mut self) -> Res<usize> {
        let mut children = vec![self.expect("(")?];
        self.scopes.push(Scope::Paren);
        let mut tok = self.peek()?;
        if tok.t != T::Sym(")") {
            loop {
                tok = self.peek()?;
                let name = match tok.t {
                    T::Ident => self.leaf(tok, "identifier"),
                    T::Dots => self.leaf(tok, "dots"),
                    T::DotDotI => self.leaf(tok, "dot_dot_i"),
                    _ => return Err(Bad),
                };
                let mut parameter = vec![self.field(name, "name")];
                tok = self.peek()?;
                if tok.t == T::Sym("=") {
                    parameter.push(self.leaf(tok, "="));
                    let default = self.expr(0)?;
                    parameter.push(self.field(default, "default"));
                }
                children.push(self.wrap("parameter", parameter));
                tok = self.peek()?;
                if tok.t != T::Sym(",") {
                    break;
                }
                children.push(self.leaf(tok, "comma"));
            }
        }
        children.push(self.expect(")")?);
        self.scopes.pop();
        Ok(self.wrap("parameters", children))
    }

    fn call(
        &mut self,
        function: usize,
        kind: &'static str,
        scope: Scope,
        open: &'static str,
        close: &'static str,
    ) -> Res<usize> {
        let mut children = vec![self.expect(open)?];
        self.scopes.push(scope);
        let mut after_argument = false;
        loop {
            let tok = self.peek()?;
            match tok.t {
                T::Sym(s) if s == close => {
                    children.push(self.leaf(tok, close));
                    break;
                }
                T::Sym(",") => {
                    children.push(self.leaf(tok, "comma"));
                    after_argument = false;
                }
                _ if after_argument => return Err(Bad),
                _ => {
                    children.push(self.argument(tok)?);
                    after_argument = true;
                }
            }
        }
        self.scopes.pop();
        let arguments = self.wrap("arguments", children);
        self.field(function, "function");
        self.field(arguments, "arguments");
        Ok(self.wrap(kind, vec![function, arguments]))
    }

    fn argument(&mut self, tok: Tok) -> Res<usize> {
        if matches!(tok.t, T::Ident | T::Dots | T::DotDotI | T::Str(..) | T::Sym("NULL")) {
            let pos = self.pos;
            self.take(tok);
            let next = self.peek()?;
            self.pos = pos;
            if next.t == T::Sym("=") {
                let name = self.primary(tok)?;
                self.field(name, "name");
                let mut children = vec![name, self.leaf(next, "=")];
                let after = self.peek()?;
                if !matches!(after.t, T::Sym("," | ")" | "]" | "]]")) {
                    let value = self.expr(0)?;
                    children.push(self.field(value, "value"));
                }
                return Ok(self.wrap("argument", children));
            }
        }
        let value = self.expr(0)?;
        self.field(value, "value");
        Ok(self.wrap("argument", vec![value]))
    }
}
