//! Stand-in for `colored` without colours, as on an output that is no terminal.

pub type ColoredString = String;

pub trait Colorize: Sized + ToString {
    fn underline(self) -> ColoredString {
        self.to_string()
    }
    fn bold(self) -> ColoredString {
        self.to_string()
    }
    fn red(self) -> ColoredString {
        self.to_string()
    }
    fn green(self) -> ColoredString {
        self.to_string()
    }
    fn yellow(self) -> ColoredString {
        self.to_string()
    }
    fn blue(self) -> ColoredString {
        self.to_string()
    }
}
impl Colorize for String {}
impl Colorize for &str {}

pub mod control {
    pub fn set_override(_: bool) {}
}
