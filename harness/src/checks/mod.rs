#[cfg(feature = "codegen")]
pub mod codegen;
pub mod cli;
pub mod compile;
pub mod cpp;
pub mod diag;
pub mod dump;
pub mod errors;
#[cfg(feature = "input")]
pub mod input;
pub mod lexers;
#[cfg(feature = "lexer")]
pub mod regex;
pub mod reuse;
pub mod rust_lr;
#[cfg(feature = "parser")]
pub mod tables;
use crate::engine::Prop;

pub fn all() -> Vec<Box<dyn Prop>> {
    let mut v: Vec<Box<dyn Prop>> = Vec::new();
    v.extend(rust_lr::props());
    v.extend(lexers::props());
    v.extend(cpp::props());
    v.extend(cli::props());
    v.extend(compile::props());
    v.extend(errors::props());
    v.extend(reuse::props());
    v.extend(dump::props());
    v.extend(diag::props());
    #[cfg(feature = "codegen")]
    v.extend(codegen::props());
    #[cfg(feature = "input")]
    v.extend(input::props());
    #[cfg(feature = "lexer")]
    v.extend(regex::props());
    #[cfg(feature = "parser")]
    v.extend(tables::props());
    v
}
