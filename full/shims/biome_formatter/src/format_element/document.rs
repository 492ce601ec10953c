use super::{FormatElement, Group, Interned, LineMode, Tag};
use std::collections::HashMap;
use std::ops::Deref;

#[derive(Debug, Clone, Default)]
pub struct Document {
    elements: Vec<FormatElement>,
}
impl From<Vec<FormatElement>> for Document {
    fn from(elements: Vec<FormatElement>) -> Self {
        Self { elements }
    }
}
impl Deref for Document {
    type Target = [FormatElement];
    fn deref(&self) -> &[FormatElement] {
        &self.elements
    }
}
impl std::fmt::Display for Document {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:#?}", self.elements)
    }
}

enum Enclosing<'a> {
    Group(&'a Group),
    BestFitting,
}

impl Document {
    /// Makes every group that holds something that is certain to break the line expand
    pub fn propagate_expand(&mut self) {
        propagate(&self.elements, &mut Vec::new(), &mut HashMap::new());
    }
}

fn propagate<'a>(
    elements: &'a [FormatElement],
    enclosing: &mut Vec<Enclosing<'a>>,
    checked: &mut HashMap<&'a Interned, bool>,
) -> bool {
    let mut expands = false;
    for element in elements {
        let element_expands = match element {
            FormatElement::Tag(Tag::StartGroup(group)) => {
                enclosing.push(Enclosing::Group(group));
                false
            }
            FormatElement::Tag(Tag::EndGroup) => match enclosing.pop() {
                Some(Enclosing::Group(group)) => !group.mode().is_flat(),
                _ => false,
            },
            FormatElement::Interned(interned) => match checked.get(interned) {
                Some(known) => *known,
                None => {
                    let result = propagate(interned, enclosing, checked);
                    checked.insert(interned, result);
                    result
                }
            },
            FormatElement::BestFitting(best) => {
                enclosing.push(Enclosing::BestFitting);
                for variant in best.variants() {
                    propagate(variant, enclosing, checked);
                }
                enclosing.pop();
                expands = false;
                continue;
            }
            FormatElement::StaticText { text } => text.contains('\n'),
            FormatElement::DynamicText { text, .. } => text.contains('\n'),
            FormatElement::LocatedTokenText { slice, .. } => slice.contains('\n'),
            FormatElement::ExpandParent
            | FormatElement::Line(LineMode::Hard | LineMode::Empty) => true,
            _ => false,
        };
        if element_expands {
            expands = true;
            if let Some(Enclosing::Group(group)) = enclosing.last() {
                group.propagate_expand();
            }
        }
    }
    expands
}
