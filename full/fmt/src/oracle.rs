//! Reading of R text that is independent of the code under test.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Part {
    Code,
    Comment,
    /// A string, a quoted name, or a `%%` operator
    Quoted,
}

/// What each character of a text belongs to
pub fn parts(text: &str) -> Vec<(char, Part)> {
    let b: Vec<char> = text.chars().collect();
    let mut out: Vec<(char, Part)> = b.iter().map(|c| (*c, Part::Code)).collect();
    let mut i = 0;
    while i < b.len() {
        let start = i;
        let part = match b[i] {
            '#' => {
                while i < b.len() && b[i] != '\n' {
                    i += 1;
                }
                Part::Comment
            }
            q @ ('"' | '\'' | '`') => {
                let raw = q != '`' && i > 0 && matches!(b[i - 1], 'r' | 'R') && !(i > 1 && (b[i - 2].is_alphanumeric() || matches!(b[i - 2], '_' | '.')));
                i += 1;
                let dashes = b[i..].iter().take_while(|c| **c == '-').count();
                let raw = raw && matches!(b.get(i + dashes), Some('(' | '[' | '{'));
                if raw {
                    i += dashes;
                    let mut end = vec![match b.get(i) {
                        Some('(') => ')',
                        Some('[') => ']',
                        _ => '}',
                    }];
                    end.extend(std::iter::repeat_n('-', dashes));
                    end.push(q);
                    while i < b.len() && !b[i..].starts_with(&end) {
                        i += 1;
                    }
                    i += end.len();
                } else {
                    while i < b.len() && b[i] != q {
                        i += if b[i] == '\\' { 2 } else { 1 };
                    }
                    i += 1;
                }
                Part::Quoted
            }
            '%' => {
                i += 1;
                while i < b.len() && b[i] != '%' && b[i] != '\n' {
                    i += 1;
                }
                i += 1;
                Part::Quoted
            }
            _ => {
                i += 1;
                continue;
            }
        };
        i = i.min(b.len());
        for c in &mut out[start..i] {
            c.1 = part;
        }
    }
    out
}

/// The comments of a text, without whitespace at their ends
pub fn comments(text: &str) -> Vec<String> {
    let mut out = Vec::new();
    let mut current: Option<String> = None;
    for (c, part) in parts(text) {
        if part == Part::Comment {
            current.get_or_insert_default().push(c);
        } else if let Some(done) = current.take() {
            out.push(done.trim_end().to_string());
        }
    }
    out.extend(current.map(|c| c.trim_end().to_string()));
    out
}
