//! Stand-in for a text diff. The real one promises only that its chunks spell out both texts, so
//! an explorer may plan which of the possible alignments `diff()` answers with.

use std::cell::RefCell;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Chunk<'a> {
    Equal(&'a str),
    Delete(&'a str),
    Insert(&'a str),
}

thread_local! {
    static PLAN: RefCell<Option<Vec<(usize, usize)>>> = const { RefCell::new(None) };
}

/// Makes the next calls on this thread pair the given characters (by position in either text,
/// both increasing) and no others
pub fn plan(pairs: Option<Vec<(usize, usize)>>) {
    PLAN.set(pairs)
}

pub fn diff<'a>(left: &'a str, right: &'a str) -> Vec<Chunk<'a>> {
    let a: Vec<char> = left.chars().collect();
    let b: Vec<char> = right.chars().collect();
    let pairs = PLAN.with_borrow(|plan| plan.clone()).unwrap_or_else(|| align(&a, &b));
    chunks(left, right, &pairs)
}

fn chunks<'a>(left: &'a str, right: &'a str, pairs: &[(usize, usize)]) -> Vec<Chunk<'a>> {
    let at = |text: &str| -> Vec<usize> {
        text.char_indices().map(|(i, _)| i).chain([text.len()]).collect()
    };
    let (l, r) = (at(left), at(right));
    let mut out = Vec::new();
    let (mut i, mut j) = (0, 0);
    let mut k = 0;
    loop {
        let (x, y) = pairs.get(k).copied().unwrap_or((l.len() - 1, r.len() - 1));
        if x > i {
            out.push(Chunk::Delete(&left[l[i]..l[x]]));
        }
        if y > j {
            out.push(Chunk::Insert(&right[r[j]..r[y]]));
        }
        if k >= pairs.len() {
            return out;
        }
        let mut n = 1;
        while pairs.get(k + n) == Some(&(x + n, y + n)) {
            n += 1;
        }
        out.push(Chunk::Equal(&left[l[x]..l[x + n]]));
        (i, j, k) = (x + n, y + n, k + n);
    }
}

/// A longest common subsequence between common prefix and suffix; blocks that are too large
/// together are not aligned at all
fn align(a: &[char], b: &[char]) -> Vec<(usize, usize)> {
    let head = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let (ra, rb) = (&a[head..], &b[head..]);
    let tail = ra.iter().rev().zip(rb.iter().rev()).take_while(|(x, y)| x == y).count();
    let (ma, mb) = (&ra[..ra.len() - tail], &rb[..rb.len() - tail]);
    let mut pairs: Vec<(usize, usize)> = (0..head).map(|i| (i, i)).collect();
    if ma.len() * mb.len() <= 1 << 20 {
        let w = mb.len() + 1;
        let mut best = vec![0u32; (ma.len() + 1) * w];
        for i in (0..ma.len()).rev() {
            for j in (0..mb.len()).rev() {
                best[i * w + j] = if ma[i] == mb[j] {
                    best[(i + 1) * w + j + 1] + 1
                } else {
                    best[(i + 1) * w + j].max(best[i * w + j + 1])
                };
            }
        }
        let (mut i, mut j) = (0, 0);
        while i < ma.len() && j < mb.len() {
            if ma[i] == mb[j] {
                pairs.push((head + i, head + j));
                (i, j) = (i + 1, j + 1);
            } else if best[(i + 1) * w + j] >= best[i * w + j + 1] {
                i += 1;
            } else {
                j += 1;
            }
        }
    }
    pairs.extend((0..tail).map(|i| (a.len() - tail + i, b.len() - tail + i)));
    pairs
}
