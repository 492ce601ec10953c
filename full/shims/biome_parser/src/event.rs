use std::num::NonZeroU32;

use crate::ParseDiagnostic;
use crate::tree_sink::TreeSink;
use biome_rowan::{SyntaxKind, TextSize};

#[derive(Debug, Clone)]
pub enum Event<K: SyntaxKind> {
    Start { kind: K, forward_parent: Option<NonZeroU32> },
    Finish,
    Token { kind: K, end: TextSize },
}

pub fn process<K: SyntaxKind>(
    sink: &mut impl TreeSink<Kind = K>,
    events: Vec<Event<K>>,
    errors: Vec<ParseDiagnostic>,
) {
    sink.errors(errors);
    for event in events {
        match event {
            Event::Start { kind, forward_parent } => {
                assert!(forward_parent.is_none(), "forward parents are not supported");
                if kind != K::TOMBSTONE {
                    sink.start_node(kind);
                }
            }
            Event::Finish => sink.finish_node(),
            Event::Token { kind, end } => sink.token(kind, end),
        }
    }
}
