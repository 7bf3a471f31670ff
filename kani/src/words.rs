//! Symbolic words over the alphabet 1..=N, and what the properties say about them, written on plain
//! letter arrays (letter 0 is the first letter of the word).
use crate::nd;
use rustyalgebra::free_tensor::TensorKey;

pub const CAP: usize = 65;

/// A word of at most `max` letters: every letter and the length are arbitrary.
#[derive(Clone, Copy)]
pub struct Word { pub l: [u32; CAP], pub n: usize, pub max: usize }

pub fn word<const N: u32>(max: usize) -> Word {
    let max = bounded::<N>(max);
    let mut w = word_of::<N>(max);
    w.n = nd::urange(0, max);
    w
}

/// A word of exactly `n` letters (of the maximum depth, should that be less).
pub fn word_of<const N: u32>(n: usize) -> Word {
    letters_of::<N>(bounded::<N>(n))
}

/// `n` letters, whether or not a key can hold that many.
pub fn letters_of<const N: u32>(n: usize) -> Word {
    assert!(n < CAP);
    let mut l = [1u32; CAP];
    let mut i = 0;
    while i < n { l[i] = nd::range(1, N); i += 1; }
    Word { l, n, max: n }
}

impl Word {
    pub fn letters(&self) -> &[u32] { &self.l[..self.n] }
    pub fn key<const N: u32>(&self) -> TensorKey<N> { TensorKey::<N>::from_letters(self.letters()) }

    pub fn same(&self, o: &Word) -> bool {
        if self.n != o.n { return false; }
        let mut eq = true;
        let mut i = 0;
        while i < self.max { eq &= !(i < self.n && self.l[i] != o.l[i]); i += 1; }
        eq
    }

    /// Shorter words first, then dictionary order: -1, 0 or 1.
    pub fn order(&self, o: &Word) -> i32 {
        if self.n != o.n { return if self.n < o.n { -1 } else { 1 }; }
        let mut r = 0;
        let mut i = 0;
        while i < self.max {
            if r == 0 && i < self.n && self.l[i] != o.l[i] { r = if self.l[i] < o.l[i] { -1 } else { 1 }; }
            i += 1;
        }
        r
    }

    /// The number of words before this one in that order.
    pub fn index<const N: u32>(&self) -> usize {
        let mut r = 0usize;
        let mut i = 0;
        while i < self.max {
            if i < self.n { r = r * (N as usize) + self.l[i] as usize; }
            i += 1;
        }
        r
    }

    /// The next word in that order.
    pub fn successor<const N: u32>(&self) -> Word {
        let mut w = *self;
        let mut carry = true;
        let mut i = self.max;
        while i > 0 {
            i -= 1;
            if i < w.n && carry {
                if w.l[i] == N { w.l[i] = 1; } else { w.l[i] += 1; carry = false; }
            }
        }
        if carry {
            // every letter was N: the first word one letter longer
            w.l = [1; CAP];
            w.n += 1;
            w.max = self.max + 1;
        }
        w
    }

    pub fn is_last_of_length<const N: u32>(&self) -> bool {
        let mut all = true;
        let mut i = 0;
        while i < self.max { all &= !(i < self.n && self.l[i] != N); i += 1; }
        all
    }

    /// The key spells exactly this word: its length, and the letter at an arbitrary position.
    pub fn spelled_by<const N: u32>(&self, k: &TensorKey<N>) -> bool {
        if k.size() as usize != self.n { return false; }
        if self.n == 0 { return true; }
        let i = nd::urange(0, self.n - 1);
        k.get_letter((self.n - 1 - i) as u32) == self.l[i]
    }
}

/// The key spells u followed by v.
pub fn spells_join<const N: u32>(u: &Word, v: &Word, k: &TensorKey<N>) -> bool {
    let n = u.n + v.n;
    if k.size() as usize != n { return false; }
    if n == 0 { return true; }
    let i = nd::urange(0, n - 1);
    k.get_letter((n - 1 - i) as u32) == if i < u.n { u.l[i] } else { v.l[i - u.n] }
}

pub fn depth<const N: u32>() -> usize { TensorKey::<N>::max_depth() as usize }
pub fn bounded<const N: u32>(cap: usize) -> usize { if depth::<N>() < cap { depth::<N>() } else { cap } }
