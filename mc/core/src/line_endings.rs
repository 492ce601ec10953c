//! L01: line ending normalisation; L02: automatic line ending detection
//!
//! Words over an alphabet of CR, LF and characters of different UTF-8 widths, alone and
//! embedded in padding long enough to reach the vectorised search of the code under test.

use mc::{ensure_eq, Check, Ctx, Tier, Verdict};
use serde::{Deserialize, Serialize};
use settings::LineEnding;

const ALPHABET: &[&str] = &["\r", "\n", "a", "é"];
const OTHERS: &[&str] = &["\r", "\n", "\r\n", "\u{85}", "\u{2028}", "\0", "\u{c}", "𝄞"];
const PADS: &[usize] = &[1, 7, 8, 13, 14, 15, 16, 17, 30, 31, 32, 33, 62, 63, 64, 65, 127, 128, 129, 255, 256, 257];

#[derive(Serialize, Deserialize, Clone)]
pub struct Case {
    /// Characters before, the word, characters after
    pad: usize,
    word: String,
    after: usize,
}

impl Case {
    fn text(&self) -> String {
        format!("{}{}{}", "x".repeat(self.pad), self.word, "y".repeat(self.after))
    }
}

fn explore(max: usize, padded: usize, emit: &mut dyn FnMut(Case)) {
    mc::texts(ALPHABET, max, &mut |word| emit(Case { pad: 0, word, after: 0 }));
    for pad in PADS {
        for after in [0, 1, 40] {
            mc::texts(ALPHABET, padded, &mut |word| emit(Case { pad: *pad, word, after }));
        }
    }
    // Other characters that some take for the end of a line, and every width of UTF-8
    mc::texts(OTHERS, padded.max(5), &mut |word| emit(Case { pad: 0, word, after: 0 }));
    for c in mc::characters() {
        for word in [format!("{c}"), format!("{c}\n"), format!("{c}\r\n"), format!("\r{c}\n"), format!("\r\n{c}"), format!("\n{c}\r\n"), format!("\r\n{c}\n"), format!("{c}\r{c}\n{c}\r\n{c}")] {
            emit(Case { pad: 0, word, after: 0 });
        }
    }
    // Large texts
    for pad in [1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65534, 65535, 65536, 65537, 131072] {
        mc::texts(&["\r", "\n", "é"], 4, &mut |word| emit(Case { pad, word, after: 3 }));
    }
    // Many line endings
    for n in (2..=260).chain([1000, 4096]) {
        for unit in ["\r\n", "a\r\n", "\n", "\r", "\r\r\n", "é\r\n\n"] {
            for end in ["", "\r\n", "\n", "a"] {
                emit(Case { pad: 0, word: format!("{}{end}", unit.repeat(n)), after: 0 });
            }
        }
    }
    // Two words far apart
    for gap in PADS {
        mc::texts(ALPHABET, 3, &mut |first| {
            mc::texts(ALPHABET, 3, &mut |second| {
                emit(Case { pad: 0, word: format!("{first}{}{second}", "z".repeat(*gap)), after: 0 })
            })
        });
    }
}

fn reference_normalize(text: &str) -> (String, usize) {
    let chars: Vec<char> = text.chars().collect();
    let mut out = String::new();
    let mut pairs = 0;
    let mut i = 0;
    while i < chars.len() {
        if chars[i] == '\r' && i + 1 < chars.len() && chars[i + 1] == '\n' {
            pairs += 1;
        } else {
            out.push(chars[i]);
        }
        i += 1;
    }
    (out, pairs)
}

pub struct Normalize;

impl Check for Normalize {
    type Case = Case;
    fn id(&self) -> &'static str {
        "L01"
    }
    fn bounds(&self, tier: Tier) -> String {
        let (max, padded) = tier.pick((8, 4), (10, 6));
        format!("all words over {{CR, LF, 'a', 'é'}} up to length {max}; all words up to length {padded} after {} paddings of 1..257 bytes and before 0, 1 or 40 bytes; all pairs of words up to length 3 at {} distances; words over other separators and widths; every character (about 700) around line endings; up to 4096 line endings; texts of up to 131 kB", PADS.len(), PADS.len())
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Case)) {
        let (max, padded) = tier.pick((8, 4), (10, 6));
        explore(max, padded, emit);
    }
    fn judge(&self, case: &Case, ctx: &mut Ctx) -> Verdict {
        let text = case.text();
        let (want, pairs) = reference_normalize(&text);
        let got = line_ending::normalize(text.clone());
        // The code builds the string without checking it
        if let Err(error) = std::str::from_utf8(got.as_bytes()) {
            return Err(format!("normalize({text:?}) is not UTF-8: {error}").into());
        }
        ensure_eq!(got, want, "normalize({text:?})");
        let by_ref = line_ending::normalize_ref(&text);
        ensure_eq!(by_ref.as_ref(), want.as_str(), "normalize_ref({text:?})");
        if pairs == 0 {
            ensure_eq!(want, text, "reference");
        }
        // Already normalised text (no pair in it) stays
        let (again, _) = reference_normalize(&want);
        ensure_eq!(line_ending::normalize(want.clone()), again, "normalize({want:?})");
        ctx.step(text.chars().count() as u64);
        ctx.state(&(pairs, want.len(), want.contains('\r')));
        ctx.outcome(match pairs {
            0 => "identity",
            1 => "one pair",
            _ => "several pairs",
        });
        Ok(())
    }
}

const SETTINGS: &[&str] = &["auto", "lf", "crlf", "native"];

pub struct Infer;

impl Check for Infer {
    type Case = Case;
    fn id(&self) -> &'static str {
        "L02"
    }
    fn bounds(&self, tier: Tier) -> String {
        let (max, padded) = tier.pick((8, 4), (10, 6));
        format!("all words over {{CR, LF, 'a', 'é'}} up to length {max} and up to length {padded} inside paddings, words over other separators and widths, every character (about 700) around line endings, up to 4096 line endings, texts of up to 131 kB, x line-ending settings auto, lf, crlf, native and the default")
    }
    fn explore(&self, tier: Tier, emit: &mut dyn FnMut(Case)) {
        let (max, padded) = tier.pick((8, 4), (10, 6));
        explore(max, padded, emit);
    }
    fn judge(&self, case: &Case, ctx: &mut Ctx) -> Verdict {
        let text = case.text();
        let mut first = None;
        let mut previous = '\0';
        for c in text.chars() {
            if c == '\n' {
                first = Some(if previous == '\r' { LineEnding::Crlf } else { LineEnding::Lf });
                break;
            }
            previous = c;
            ctx.step(1);
        }
        let want = first.unwrap_or(LineEnding::Lf);
        ensure_eq!(line_ending::infer(&text), want, "line ending detected in {text:?}");
        for setting in SETTINGS {
            let expected = match *setting {
                "auto" => want,
                "crlf" => LineEnding::Crlf,
                "native" if cfg!(windows) => LineEnding::Crlf,
                _ => LineEnding::Lf,
            };
            ensure_eq!(
                wsmods::access::finalize(setting, &text),
                Some(expected),
                "setting {setting:?} on {text:?}"
            );
            ctx.state(&(setting, first.is_some(), want == LineEnding::Crlf, text.contains("\r\n"), text.contains('\n')));
        }
        ensure_eq!(wsmods::access::default_line_ending(&text), want, "default setting on {text:?}");
        ctx.outcome(match first {
            None => "no line ending",
            Some(LineEnding::Lf) => "LF first",
            Some(LineEnding::Crlf) => "CRLF first",
        });
        Ok(())
    }
}
