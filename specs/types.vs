@prelude
// ---- trusted: foreign value types, opaque ----------------------------------------------------
#[verifier::external_body]
pub struct FixedDecimal { _p: u8 }
#[verifier::external_body]
pub struct IsoDateTime { _p: u8 }
#[verifier::external_body]
pub struct IsoDate { _p: u8 }
#[verifier::external_body]
pub struct Time { _p: u8 }
@retype DateTime<Iso> =>> IsoDateTime
@retype Date<Iso> =>> IsoDate
@file crates/utility/src/language.rs
@item LanguageTag
@file crates/utility/src/tagged_string.rs
@item TaggedString
@file crates/utility/src/types.rs
@item LocalisationData
@item PlaceholderValue
