//! A matcher written from the gitignore documentation that works on path components, one pattern and
//! one path at a time.

pub struct Pattern {
    negated: bool,
    directories_only: bool,
    segments: Vec<String>,
}

/// `None` for blank lines and comments
pub fn parse_pattern(line: &str) -> Option<Pattern> {
    let mut line = line;
    if line.starts_with('#') {
        return None;
    }
    if !line.ends_with("\\ ") {
        line = line.trim_end();
    }
    if line.is_empty() {
        return None;
    }
    let mut negated = false;
    if let Some(rest) = line.strip_prefix('!') {
        negated = true;
        line = rest;
    }
    let mut directories_only = false;
    if let Some(rest) = line.strip_suffix('/') {
        directories_only = true;
        line = rest;
    }
    let (anchored, line) = match line.strip_prefix('/') {
        Some(rest) => (true, rest),
        None => (line.contains('/'), line),
    };
    let mut segments: Vec<String> = line.split('/').map(|s| s.to_string()).collect();
    if !anchored {
        segments.insert(0, "**".to_string());
    }
    segments.dedup_by(|a, b| a == "**" && b == "**");
    Some(Pattern { negated, directories_only, segments })
}

fn match_segment(pattern: &[char], name: &[char]) -> bool {
    match pattern.first() {
        None => name.is_empty(),
        Some('*') => (0..=name.len()).any(|n| match_segment(&pattern[1..], &name[n..])),
        Some('?') => !name.is_empty() && match_segment(&pattern[1..], &name[1..]),
        Some('[') => {
            let end = pattern.iter().position(|c| *c == ']').expect("closed class");
            let (negated, class) = match pattern[1] {
                '!' => (true, &pattern[2..end]),
                _ => (false, &pattern[1..end]),
            };
            let Some(c) = name.first() else { return false };
            let mut found = false;
            let mut i = 0;
            while i < class.len() {
                if i + 2 < class.len() && class[i + 1] == '-' {
                    found |= class[i] <= *c && *c <= class[i + 2];
                    i += 3;
                } else {
                    found |= class[i] == *c;
                    i += 1;
                }
            }
            found != negated && match_segment(&pattern[end + 1..], &name[1..])
        }
        Some('\\') => name.first() == Some(&pattern[1]) && match_segment(&pattern[2..], &name[1..]),
        Some(c) => name.first() == Some(c) && match_segment(&pattern[1..], &name[1..]),
    }
}

fn match_segments(segments: &[String], components: &[&str]) -> bool {
    // `reached[n]`: the segments so far can match exactly the first n components
    let mut reached = vec![false; components.len() + 1];
    reached[0] = true;
    for (i, segment) in segments.iter().enumerate() {
        let mut next = vec![false; components.len() + 1];
        if segment == "**" {
            let first = reached.iter().position(|r| *r);
            // at the end: everything inside, but not the directory itself
            let least = if i + 1 == segments.len() { 1 } else { 0 };
            if let Some(first) = first {
                for n in first + least..=components.len() {
                    next[n] = true;
                }
            }
        } else {
            let segment: Vec<char> = segment.chars().collect();
            for n in 0..components.len() {
                next[n + 1] = reached[n] && match_segment(&segment, &components[n].chars().collect::<Vec<_>>());
            }
        }
        reached = next;
    }
    reached[components.len()]
}

/// The last pattern that matches this very path decides: `Some(excluded)`
pub fn decide(patterns: &[Pattern], components: &[&str], is_directory: bool) -> Option<bool> {
    patterns
        .iter()
        .rev()
        .find(|p| (is_directory || !p.directories_only) && match_segments(&p.segments, components))
        .map(|p| !p.negated)
}

/// The same for the path or the closest directory above it that any pattern decides
pub fn decide_with_parents(patterns: &[Pattern], components: &[&str], is_directory: bool) -> bool {
    if let Some(excluded) = decide(patterns, components, is_directory) {
        return excluded;
    }
    for n in (1..components.len()).rev() {
        if let Some(excluded) = decide(patterns, &components[..n], true) {
            return excluded;
        }
    }
    false
}
