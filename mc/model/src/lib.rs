//! Reference model of XDR (RFC 4506) as carried by serde, an explicit decode automaton,
//! the binding to the real serde_xdr, and the machinery for reporting.
pub mod alloc;
pub mod bind;
pub mod driver;
pub mod encoding;
pub mod enumerate;
pub mod explore;
pub mod guard;
pub mod machine;
pub mod menu;
pub mod report;
pub mod sexp;
pub mod statics;
pub mod ty;
