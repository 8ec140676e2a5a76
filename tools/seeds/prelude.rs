#![allow(dead_code, unused_imports)]
use crate::parser::blocks::Blocks;
use crate::parser::expressions::Expressions;
use crate::parser::functions::Functions;
use crate::parser::nodes::ASTNode;
use crate::parser::parser::{Parser, PythonCoreParser};
use crate::parser::statements::Statements;
use crate::parser::tokenizer::{PythonCoreTokenizer, Tokenizer};
use crate::parser::tokens::Token;

/// All tokens up to the end of the source or the first error, as text.
fn lex(src: &str) -> Vec<String> {
    let mut t = PythonCoreTokenizer::new(src.to_string());
    let mut out = Vec::new();
    for _ in 0..2000 {
        match t.get_symbol() {
            Ok(s) => {
                let end = matches!(*s, Token::EOF(..));
                out.push(format!("{:?}", s));
                if end { return out }
            },
            Err(_) => { out.push("Error".to_string()); return out }
        }
    }
    panic!("no end of the token stream")
}

/// Only the kinds of the tokens.
fn kinds(src: &str) -> String {
    lex(src).iter().map(|s| s.split('(').next().unwrap().to_string()).collect::<Vec<_>>().join(" ")
}

fn parser(src: &str) -> PythonCoreParser {
    PythonCoreParser::new(Box::new(PythonCoreTokenizer::new(src.to_string())))
}

fn file(src: &str) -> Result<Box<ASTNode>, String> { parser(src).parse_blocks_file_input() }
fn single(src: &str) -> Result<Box<ASTNode>, String> { parser(src).parse_blocks_single_input() }
fn eval(src: &str) -> Result<Box<ASTNode>, String> { parser(src).parse_blocks_eval_input() }
fn show(r: &Result<Box<ASTNode>, String>) -> String { format!("{:?}", r) }
