//! Only what the generated `Serialize` impls need to compile

use serde::ser::SerializeSeq;
use serde::{Serialize, Serializer};

use crate::ast::SyntaxError;
use crate::kinds::Language;
use crate::node::*;

impl Serialize for SyntaxError {
    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
        serializer.serialize_str(&self.to_string())
    }
}
impl<L: Language> Serialize for SyntaxToken<L> {
    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
        serializer.serialize_str(self.text())
    }
}
impl<L: Language> Serialize for SyntaxNode<L> {
    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
        let mut seq = serializer.serialize_seq(None)?;
        for slot in self.slots() {
            match slot {
                SyntaxSlot::Node(node) => seq.serialize_element(&Some(node))?,
                SyntaxSlot::Token(token) => seq.serialize_element(&Some(token))?,
                SyntaxSlot::Empty { .. } => seq.serialize_element(&None::<()>)?,
            }
        }
        seq.end()
    }
}
