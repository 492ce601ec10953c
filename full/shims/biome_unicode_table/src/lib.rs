//! Clean-room stand-in for `biome_unicode_table`: only the byte classes that Air looks at.

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u8)]
pub enum Dispatch {
    /// Not classified here
    ERR,
    /// ASCII whitespace, newlines included
    WHS,
    /// `;`
    SEM,
    /// Identifier characters
    IDT,
    /// Digits
    DIG,
    /// Lead or continuation byte of a multi-byte character
    UNI,
}

pub fn lookup_byte(byte: u8) -> Dispatch {
    match byte {
        b'\t' | b'\n' | 0x0B | 0x0C | b'\r' | b' ' => Dispatch::WHS,
        b';' => Dispatch::SEM,
        b'0'..=b'9' => Dispatch::DIG,
        b'a'..=b'z' | b'A'..=b'Z' | b'_' => Dispatch::IDT,
        0x80..=0xFF => Dispatch::UNI,
        _ => Dispatch::ERR,
    }
}
