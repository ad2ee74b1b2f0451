#![allow(clippy::all, dead_code)]
mod codegen;
mod grammar;
mod lexer;
mod parse;
mod ranges;
mod read;
mod small;
mod sym;
mod terms;
mod ts;
mod tseval;
mod types;

macro_rules! table { ($($m:ident :: $f:ident),* $(,)?) => { &[$((stringify!($f), $m::$f as extern "C" fn())),*] } }
static TABLE: &[(&str, extern "C" fn())] = table![
    ranges::h_partition, ranges::h_range_preds, ranges::h_match_order,
    grammar::h_lower, grammar::h_first, grammar::h_items, grammar::h_merge, grammar::h_tables, grammar::h_accept,
    lexer::h_nfa, lexer::h_dfa, lexer::h_lex, lexer::h_lex_values,
    parse::h_parse, terms::h_terms, codegen::h_lexgen, codegen::h_parsegen, parse::h_stop, read::h_read, read::h_read_text,
    types::h_actions, types::h_tlex, types::h_tparse, types::h_tnum, types::h_tlist,
    small::h_option, small::h_table, small::h_symbol_order, small::h_symbol_set, small::h_input_symbol_order, small::h_arith,
];
fn main() {
    sym::native_hook();
    let n = std::env::args().nth(1).unwrap_or_default();
    match TABLE.iter().find(|x| x.0 == n) {
        Some(x) => { (x.1)(); sym::finish(); }
        None => { for x in TABLE { println!("{}", x.0); } std::process::exit(2) }
    }
}
