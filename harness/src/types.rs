//! Attribute types the harness assigns, and the encoding of attribute values as integers.
use layered_amount::Amount;
use layered_clauses::{Clause, ClauseKeyword};
use layered_nlp::TextTag;
use layered_part_of_speech::Tag;
use std::fmt;

macro_rules! harness_type {
    ($name:ident, $letter:expr, $pad:ty, $($repr:tt)*) => {
        #[derive(Clone)]
        $($repr)*
        pub struct $name {
            pub v: i64,
            pub id: i64,
            /// to make types of several sizes, alignments and with something to drop
            pub pad: $pad,
        }
        /// `id` tells instances apart, equality is about `v` only.
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool {
                crate::exec::reenter();
                // like a NaN, one value of C is not even equal to itself
                self.v == o.v && !($letter == "C" && self.v == 4)
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                crate::exec::reenter();
                if f.alternate() || f.width().is_some() || f.precision().is_some() {
                    return f.write_str("another format");
                }
                match ($letter, self.v) {
                    // texts with nothing in them, spaces at the ends, wide characters, quotes and line breaks, long ones
                    ("C", 2) => Ok(()),
                    ("C", 3) => write!(f, " \"文\u{301}\"\n {}\t ", self.id),
                    ("C", 4) => write!(f, "{:x>300}", self.id),
                    (name, v) => write!(f, "{}{}#{}", name, v, self.id),
                }
            }
        }
        impl Enc for $name {
            fn enc(&self) -> (i64, Vec<i64>) {
                (self.id, vec![self.v])
            }
        }
        impl Dec for $name {
            fn dec(v: &[i64], id: i64) -> Self {
                $name { v: v[0], id, pad: Default::default() }
            }
        }
    };
}

/// value -> (id, v)
pub trait Enc {
    fn enc(&self) -> (i64, Vec<i64>);
}
pub trait Dec {
    fn dec(v: &[i64], id: i64) -> Self;
}

harness_type!(A, "A", (), );
harness_type!(B, "B", Vec<Box<u64>>, #[repr(align(64))]);
/// a type with the name (and size) of another
pub mod other {
    use super::{fmt, Dec, Enc};
    harness_type!(A, "C", (), );
}
pub use other::A as C;

/// a type without content
#[derive(Clone, Debug, PartialEq)]
pub struct Z;
impl Enc for Z {
    fn enc(&self) -> (i64, Vec<i64>) {
        (0, vec![1])
    }
}
impl Dec for Z {
    fn dec(_: &[i64], _: i64) -> Self {
        Z
    }
}

/// Marks the selections that operations return, so that their spans can be read with `query`.
#[derive(Debug, Clone)]
pub struct Mark(pub usize);

pub fn tag_no(t: &TextTag) -> i64 {
    match t {
        TextTag::NATN => 1,
        TextTag::PUNC => 2,
        TextTag::SYMB => 3,
        TextTag::SPACE => 4,
        TextTag::WORD => 5,
    }
}
impl Enc for TextTag {
    fn enc(&self) -> (i64, Vec<i64>) {
        (0, vec![tag_no(self)])
    }
}
impl Dec for TextTag {
    fn dec(v: &[i64], _: i64) -> Self {
        match v[0] {
            1 => TextTag::NATN,
            2 => TextTag::PUNC,
            3 => TextTag::SYMB,
            4 => TextTag::SPACE,
            _ => TextTag::WORD,
        }
    }
}
impl Enc for char {
    fn enc(&self) -> (i64, Vec<i64>) {
        (0, vec![*self as i64])
    }
}
impl Dec for char {
    fn dec(v: &[i64], _: i64) -> Self {
        char::from_u32(v[0] as u32).unwrap()
    }
}
impl Enc for ClauseKeyword {
    fn enc(&self) -> (i64, Vec<i64>) {
        (
            0,
            vec![match self {
                ClauseKeyword::ConditionStart => 1,
                ClauseKeyword::Then => 2,
                ClauseKeyword::And => 3,
            }],
        )
    }
}
impl Dec for ClauseKeyword {
    fn dec(v: &[i64], _: i64) -> Self {
        match v[0] {
            1 => ClauseKeyword::ConditionStart,
            2 => ClauseKeyword::Then,
            _ => ClauseKeyword::And,
        }
    }
}
impl Enc for Clause {
    fn enc(&self) -> (i64, Vec<i64>) {
        (
            0,
            vec![match self {
                Clause::LeadingEffect => 1,
                Clause::TrailingEffect => 2,
                Clause::Condition => 3,
                Clause::Independent => 4,
            }],
        )
    }
}
impl Dec for Clause {
    fn dec(v: &[i64], _: i64) -> Self {
        match v[0] {
            1 => Clause::LeadingEffect,
            2 => Clause::TrailingEffect,
            3 => Clause::Condition,
            _ => Clause::Independent,
        }
    }
}
impl Enc for Amount {
    /// the decimal as text
    fn enc(&self) -> (i64, Vec<i64>) {
        (0, self.get_decimal().to_string().chars().map(|c| c as i64).collect())
    }
}
pub fn pos_no(t: &Tag) -> i64 {
    match t {
        Tag::Adjective => 1,
        Tag::Adverb => 2,
        Tag::Conjunction => 3,
        Tag::Determiner => 4,
        Tag::Interjection => 5,
        Tag::Noun => 6,
        Tag::Numeral => 7,
        Tag::Particle => 8,
        Tag::Postposition => 9,
        Tag::Preposition => 10,
        Tag::Pronoun => 11,
        Tag::ProperNoun => 12,
        Tag::Verb => 13,
    }
}
impl Enc for Tag {
    fn enc(&self) -> (i64, Vec<i64>) {
        (0, vec![pos_no(self)])
    }
}

pub const TYPES: [&str; 10] = ["char", "tag", "A", "B", "C", "kw", "clause", "amount", "pos", "Z"];

/// Runs `$body` with `$T` bound to the Rust type of type name `$ty`.
#[macro_export]
macro_rules! with_type {
    ($ty:expr, $T:ident => $body:expr, else $other:expr) => {
        match $ty {
            "A" => { type $T = $crate::types::A; $body }
            "B" => { type $T = $crate::types::B; $body }
            "C" => { type $T = $crate::types::C; $body }
            "Z" => { type $T = $crate::types::Z; $body }
            "tag" => { type $T = layered_nlp::TextTag; $body }
            "char" => { type $T = char; $body }
            "kw" => { type $T = layered_clauses::ClauseKeyword; $body }
            "clause" => { type $T = layered_clauses::Clause; $body }
            _ => $other,
        }
    };
}
