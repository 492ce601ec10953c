pub use crate::builders::*;
pub use crate::comments::{
    DanglingIndentMode, FormatDanglingComments, FormatLeadingComments, FormatTrailingComments,
    format_dangling_comments, format_leading_comments, format_trailing_comments,
};
pub use crate::format_element::document::Document;
pub use crate::format_element::{self, FormatElement, FormatElements, LineMode, Tag};
pub use crate::formatter::Formatter;
pub use crate::token::syntax_token_cow_slice;
pub use crate::trivia::{format_removed, format_replaced};
pub use crate::verbatim::{
    FormatVerbatimNode, format_bogus_node, format_or_verbatim, format_suppressed_node,
    format_verbatim_node,
};
pub use crate::{
    Buffer as _, BufferExtensions, CstFormatContext, Format, FormatContext, FormatError,
    FormatOptions as _, FormatResult, FormatRule, FormatRuleWithOptions as _, FormatWithRule,
    best_fitting,
};
