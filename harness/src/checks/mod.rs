pub mod lexer;
pub mod notation;
pub mod tables;
pub mod types;
pub mod support;
