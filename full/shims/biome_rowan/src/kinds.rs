use std::fmt;
use std::marker::PhantomData;

use crate::AstNode;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct RawSyntaxKind(pub u16);

pub trait SyntaxKind: fmt::Debug + PartialEq + Copy {
    const TOMBSTONE: Self;
    const EOF: Self;

    fn is_bogus(&self) -> bool;
    fn to_bogus(&self) -> Self;
    fn to_raw(&self) -> RawSyntaxKind;
    fn from_raw(raw: RawSyntaxKind) -> Self;
    fn is_root(&self) -> bool;
    fn is_list(&self) -> bool;
    fn is_trivia(self) -> bool;
    fn to_string(&self) -> Option<&'static str>;
}

pub trait Language: Sized + Clone + Copy + fmt::Debug + Eq + Ord + std::hash::Hash {
    type Kind: SyntaxKind + Eq + Send + Sync;
    type Root: AstNode<Language = Self> + Clone + Eq + fmt::Debug;
}

/// A set of kinds, as a bit set over the raw values
#[derive(Debug, Eq, PartialEq, Clone, Copy)]
pub struct SyntaxKindSet<L: Language>([u128; 4], PhantomData<L>);

impl<L: Language> SyntaxKindSet<L> {
    pub const fn from_raw(kind: RawSyntaxKind) -> Self {
        let mut bits = [0u128; 4];
        bits[kind.0 as usize / 128] = 1u128 << (kind.0 as usize % 128);
        Self(bits, PhantomData)
    }
    pub const fn union(self, other: Self) -> Self {
        Self(
            [
                self.0[0] | other.0[0],
                self.0[1] | other.0[1],
                self.0[2] | other.0[2],
                self.0[3] | other.0[3],
            ],
            PhantomData,
        )
    }
    pub fn matches(self, kind: L::Kind) -> bool {
        let raw = kind.to_raw().0 as usize;
        self.0[raw / 128] & (1u128 << (raw % 128)) != 0
    }
}
