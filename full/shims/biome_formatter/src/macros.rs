use crate::{Format, FormatResult, Formatter};

pub struct Argument<'fmt, Context> {
    value: &'fmt dyn Format<Context>,
}
impl<Context> Clone for Argument<'_, Context> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<Context> Copy for Argument<'_, Context> {}
impl<'fmt, Context> Argument<'fmt, Context> {
    pub fn new<F: Format<Context>>(value: &'fmt F) -> Self {
        Self { value }
    }
    pub(crate) fn format(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        self.value.fmt(f)
    }
}

pub struct Arguments<'fmt, Context>(pub &'fmt [Argument<'fmt, Context>]);
impl<'fmt, Context> Arguments<'fmt, Context> {
    pub fn new(arguments: &'fmt [Argument<'fmt, Context>]) -> Self {
        Self(arguments)
    }
}
impl<Context> Clone for Arguments<'_, Context> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<Context> Copy for Arguments<'_, Context> {}
impl<Context> Format<Context> for Arguments<'_, Context> {
    fn fmt(&self, f: &mut Formatter<Context>) -> FormatResult<()> {
        for argument in self.0 {
            argument.format(f)?;
        }
        Ok(())
    }
}
impl<'fmt, Context> From<&'fmt Argument<'fmt, Context>> for Arguments<'fmt, Context> {
    fn from(argument: &'fmt Argument<'fmt, Context>) -> Self {
        Self(std::slice::from_ref(argument))
    }
}

#[macro_export]
macro_rules! format_args {
    ($($value:expr),+ $(,)?) => {
        $crate::Arguments::new(&[ $( $crate::Argument::new(&$value) ),+ ])
    }
}

#[macro_export]
macro_rules! write {
    ($dst:expr, [$($arg:expr),+ $(,)?]) => {{
        $dst.write_fmt($crate::format_args!($($arg),+))
    }}
}

#[macro_export]
macro_rules! best_fitting {
    ($least_expanded:expr, $($tail:expr),+ $(,)?) => {{
        $crate::builders::BestFitting::from_arguments($crate::format_args!($least_expanded, $($tail),+))
    }}
}
