//! bellpepper 0.4.1 with `sha256` replaced by an uninterpreted function; the other gadget files are
//! copied unchanged (tests removed).
pub mod gadgets;
