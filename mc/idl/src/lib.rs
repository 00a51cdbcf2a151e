//! The reference grammar: lexer, parser, printer, and bounded enumeration of definitions.
pub mod asts;
pub mod lang;
