X = "expressions.rs"; S = "statements.rs"; B = "blocks.rs"; F = "functions.rs"

bug("P01-relative-import", "P01", [(S, ["fn parse_statements_import_from(&mut self) -> Result<Box<ASTNode>, String> {", "Token::PyElipsis(..) => {"],
    "let _ = self.advance();", "if nodes_list.len() < 2 { let _ = self.advance(); }")], r'''
#[test]
fn many_leading_dots() {
    assert!(file("from ..... import a\n").is_ok());
    assert!(file("from ...... a import b\n").is_ok());
}
''', "a relative import with more than one dot token before the name", "The loop over the leading dots stops consuming them and never ends.")

bug("P02-annotation-unwrap", "P02", [(S, "fn parse_statements_ann_assign(&mut self, start_pos: u32, left_node: Box<ASTNode>)", "self.parse_expressions_test()?", "self.parse_expressions_test().unwrap()")], r'''
#[test]
fn broken_annotation() {
    assert!(file("a: = 1\n").is_err());
    assert!(file("a: b c\n").is_err());
}
''', "an annotated assignment whose annotation is malformed", "The error of the annotation is unwrapped: the parser panics.")

bug("P03-slice-step", "P03", [(X, "fn parse_expressions_subscript(&mut self) -> Result<Box<ASTNode>, String> {",
    "third_node = Some(self.parse_expressions_test()?)", "third_node = self.parse_expressions_test().ok()")], r"""
#[test]
fn broken_step_of_a_slice() {
    assert!(eval("a[b:c:not]").is_err());
    assert!(eval("a[b:c:d +, e]").is_err());
    assert!(eval("a[b:c:d]").is_ok());
    assert!(eval("a[b:c:]").is_ok());
}
""", "a slice whose step is malformed and breaks off right before ']' or ','", "The error of the step is dropped and the slice is accepted without it.")

bug("P04-with-paren", "P04", [(S, "fn parse_statements_with_stmt(&mut self) -> Result<Box<ASTNode>, String> {", "right_symbol = Some( s7 );", "right_symbol = separators_list.last().map(|_| s7.clone());")], r'''
#[test]
fn closing_parenthesis_is_kept() {
    for src in ["with (a):\n pass\n", "with (a, b):\n pass\n"] {
        let t = show(&file(src));
        assert!(t.contains("PyLeftParen") && t.contains("PyRightParen"), "{}", t);
    }
}
''', "a parenthesised with statement with one item", "The closing parenthesis is missing from the tree when there is only one item.")

bug("P05-nonlocal-order", "P05", [(S, "fn parse_statements_nonlocal_stmt(&mut self) -> Result<Box<ASTNode>, String> {", "nodes_list.reverse();", "if nodes_list.len() < 3 { nodes_list.reverse(); }")], r'''
#[test]
fn names_are_stored_in_one_direction() {
    let n = show(&file("nonlocal a, b, c\n")); let g = show(&file("global a, b, c\n"));
    let at = |t: &str, x: &str| t.find(x).unwrap();
    assert_eq!(at(&g, "\"a\"") < at(&g, "\"b\""), at(&n, "\"a\"") < at(&n, "\"b\""));
}
''', "a nonlocal statement with three or more names", "The names are stored first to last instead of last to first.")

bug("P07-power-operand", "P07", [(X, "fn parse_expressions_power(&mut self) -> Result<Box<ASTNode>, String> {", "let right_node = self.parse_expressions_factor()?;", "let right_node = self.parse_expressions_power()?;")], r'''
#[test]
fn sign_in_an_exponent() {
    assert!(eval("a ** -b").is_ok());
    assert!(eval("a ** b ** c").is_ok());
}
''', "an exponent with a sign", "'a ** -b' is rejected: the operand of '**' is a power instead of a factor.")

bug("P09-raise-semicolon", "P09", [(S, ["fn parse_statements_raise_stmt(&mut self) -> Result<Box<ASTNode>, String> {"], "Token::PySemiColon( .. ) |\n", "")], r'''
#[test]
fn raise_before_a_semicolon() {
    assert!(file("raise; a\n").is_ok());
    assert!(file("raise;\n").is_ok());
    assert!(file("raise\n").is_ok());
}
''', "a bare raise statement followed by ';'", "'raise;' is rejected.")

bug("P12-eval-rest", "P12", [(B, ["fn parse_blocks_eval_input(&mut self) -> Result<Box<ASTNode>, String> {", "separators_list.reverse();"], "Token::EOF(..) => {", "Token::EOF(..) | Token::Dedent(..) | Token::Indent(..) | Token::AtomName(..) => {")], r"""
#[test]
fn rest_behind_an_expression() {
    assert!(eval("a\n").is_ok());
    assert!(eval("a\nb\n").is_err());
    assert!(eval("a\n  b\n").is_err());
}
""", "an evaluated expression with further text on the next line", "The rest is left over and not reported.")

bug("P13-nested-comprehension", "P13", [(X, ["fn parse_expressions_sync_comp_for(&mut self) -> Result<Box<ASTNode>, String> {", "let next_node ="], "ASTNode::SyncCompForComprehension(start_pos, self.lexer.get_position(),", "ASTNode::SyncCompForComprehension(start_pos, self.lexer.get_position() - 1,")], r"""
#[test]
fn extent_of_nested_comprehension_parts() {
    let mut p = parser("for a in b for c in d :");
    p.advance();
    match *p.parse_expressions_sync_comp_for().unwrap() {
        ASTNode::SyncCompForComprehension(a, b, ..) => assert_eq!((a, b), (0, 22)),
        _ => panic!()
    }
}
""", "a comprehension with two 'for' parts", "The node of the first part ends one character early.")

bug("P06-assign-yield", "P06", [(S, ["fn parse_statements_expr_stmt(&mut self) -> Result<Box<ASTNode>, String> {", "Token::PyShiftRightAssign( .. ) => {"],
    "ASTNode::ShiftRightAssignStmt(", "ASTNode::ShiftLeftAssignStmt(")], r"""
#[test]
fn shift_assignment_of_a_yield() {
    let t = show(&file("a >>= yield b\n"));
    assert!(t.contains("ShiftRightAssignStmt") && !t.contains("ShiftLeftAssignStmt"), "{}", t);
}
""", "'>>=' with a yield expression on its right", "The node is built as a '<<=' assignment.")

bug("P08-async-after-condition", "P08", [(X, ["fn parse_expressions_comp_if(&mut self) -> Result<Box<ASTNode>, String> {", "parse_expressions_no_cond_test"], "Token::PyAsync( .. ) |\n", "")], r"""
#[test]
fn async_for_behind_a_condition() {
    assert!(eval("[a for b in c if d async for e in f]").is_ok());
    assert!(eval("[a for b in c if d for e in f]").is_ok());
}
""", "a comprehension with 'async for' after an 'if'", "Such a comprehension is rejected.")

bug("P10-for-else-type-comment", "P10", [(S, ["fn parse_statements_for_stmt(&mut self) -> Result<Box<ASTNode>, String> {", "match &*s5 {"], "Token::PyElse(..) => {", "Token::PyElse(..) if tc_symbol.is_none() => {")], r"""
#[test]
fn else_of_a_for_loop_with_a_type_comment() {
    assert!(file("for a in b: # type: int\n pass\nelse:\n pass\n").is_ok());
    assert!(file("for a in b:\n pass\nelse:\n pass\n").is_ok());
}
""", "a for statement with both a type comment and an else part", "The else part is rejected.")

bug("P11-types-then-power", "P11", [(F, ["fn parse_functions_type_list(&mut self) -> Result<Box<ASTNode>, String> {", "nodes_list.push( self.parse_expressions_test()? );\n                        while", "_ => {\n"], "Token::PyPower(..) => {", "Token::PyPower(..) if nodes_list.len() < 3 => {")], r"""
#[test]
fn double_star_behind_types() {
    for t in ["a, **b", "a, b, **c", "a, b, c, **d", "*a, **b"] {
        assert!(parser(&format!("({}) -> e\n", t)).parse_blocks_func_type_input().is_ok(), "{}", t);
    }
}
""", "a function type with three or more positional types and a '**' type", "Such a function type is rejected.")

bug("P14-bare-handler", "P14", [(S, "fn parse_statements_except_clause(&mut self) -> Result<Box<ASTNode>, String> {",
    "ET::ExceptNone => { self.except_status = ET::Except },", "ET::ExceptNone => { if !matches!(&*s10, Token::PyColon(..)) { self.except_status = ET::Except } },")], r"""
#[test]
fn group_handler_behind_a_bare_handler() {
    assert!(file("try:\n a\nexcept:\n b\nexcept* c:\n d\n").is_err());
    assert!(file("try:\n a\nexcept c:\n b\nexcept:\n d\n").is_ok());
}
""", "a bare except followed by an except* handler", "The bare handler is not remembered, so an except* handler behind it is accepted.")

bug("P14-group-forgotten", "P14", [(S, ["fn parse_statements_except_clause(&mut self) -> Result<Box<ASTNode>, String> {", "ET::ExceptMul => return Err"], "_ => { }", "_ => { self.except_status = ET::ExceptNone }")], r"""
#[test]
fn mixture_behind_two_plain_handlers() {
    assert!(file("try:\n a\nexcept b:\n c\nexcept d:\n e\nexcept* f:\n g\n").is_err());
    assert!(file("try:\n a\nexcept b:\n c\nexcept d:\n e\nexcept f:\n g\n").is_ok());
}
""", "a third handler of the other kind behind two plain ones", "The second plain handler clears the record, so the third may be of the other kind.")

bug("P15-tab-size", "P15", [("tokenizer.rs", "pub fn new(", "tab_size: 4,", "tab_size: std::env::var(\"PYTHON_TAB_SIZE\").ok().and_then(|s| s.parse().ok()).filter(|n| *n > 0).unwrap_or(4),")] if False else [("tokenizer.rs", "impl Tokenizer for PythonCoreTokenizer {", "tab_size: 4,", "tab_size: std::env::var(\"PYTHON_TAB_SIZE\").ok().and_then(|s| s.parse().ok()).filter(|n| *n > 0).unwrap_or(4),")], r"""
#[test]
fn result_does_not_depend_on_the_environment() {
    let src = "if a:\n    b\n\tc\n";
    let one = show(&file(src));
    std::env::set_var("PYTHON_TAB_SIZE", "8");
    let two = show(&file(src));
    std::env::remove_var("PYTHON_TAB_SIZE");
    assert_eq!(one, two);
}
""", "an environment variable", "The width of a tab is taken from the environment.")

bug("P15-depth-counter", "P15", [(S, "fn parse_statements_suite(&mut self) -> Result<Box<ASTNode>, String> {", "let start_pos = self.lexer.get_position();",
    "let start_pos = { self.lexer.get_position() };\n        static OPEN_SUITES: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n        if OPEN_SUITES.fetch_add(1, std::sync::atomic::Ordering::Relaxed) > 2000 { return Err(format!(\"SyntaxError at {}: Too many suites!\", start_pos)) }")], r"""
#[test]
fn same_text_same_result() {
    let one = show(&file("if a:\n b\n"));
    for _ in 0..3000 { assert_eq!(one, show(&file("if a:\n b\n"))); }
}
""", "more than 2000 suites parsed by one process", "A global counter of suites makes later parses fail.")


ALLOC = r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering};
struct Counting;
static BYTES: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BYTES.fetch_add(l.size() as u64, Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Counting = Counting;
/// Bytes allocated while parsing.
fn work(src: &str) -> u64 {
    let mut p = parser(src);
    let before = BYTES.load(Ordering::Relaxed);
    let r = p.parse_blocks_file_input();
    let after = BYTES.load(Ordering::Relaxed);
    assert!(r.is_ok(), "{:?}", r.err());
    after - before
}
'''

bug("P16-trailers", "P16", [(X, "fn parse_expressions_atom_expr(&mut self)", "lst.push(s);", "lst = [lst.as_slice(), &[s]].concat();")], ALLOC + r"""
#[test]
fn long_chain_of_trailers() {
    let (a, b) = (work(&format!("a{}\n", ".b(c)".repeat(300))), work(&format!("a{}\n", ".b(c)".repeat(1200))));
    assert!(b < 6 * a, "{} {}", a, b);
}
""", "a long chain of attribute accesses and calls", "The list of trailers is copied for every trailer added to it: quadratic time and memory traffic.")

bug("P16-suite-copied", "P16", [(S, "fn parse_statements_suite(&mut self) -> Result<Box<ASTNode>, String> {",
    "nodes_list.reverse();", "let nodes_list : Box<Vec<Box<ASTNode>>> = Box::new(nodes_list.iter().rev().cloned().collect());")], ALLOC + r"""
fn nested(n: usize) -> String {
    let mut s = String::new();
    for i in 0..n { s += &" ".repeat(i); s += "if a:\n" }
    s + &" ".repeat(n) + "b\n"
}
#[test]
fn deeply_nested_suites() {
    std::thread::Builder::new().stack_size(256 << 20).spawn(|| {
        let (a, b) = (work(&nested(25)), work(&nested(97)));
        assert!(b < 8 * a, "{} {}", a, b);
    }).unwrap().join().unwrap();
}
""", "deeply nested indented blocks", "The statements of a suite are copied instead of reversed in place, so a statement is copied once per level around it.")

bug("P16-not-operand", "P16", [(X, "fn parse_expressions_not_test(&mut self) -> Result<Box<ASTNode>, String> {",
    "Box::new(symbol), right_node)", "Box::new(symbol), Box::new((*right_node).clone()))")], ALLOC + r"""
#[test]
fn many_not_operators() {
    std::thread::Builder::new().stack_size(256 << 20).spawn(|| {
        let (a, b) = (work(&format!("{}a\n", "not ".repeat(100))), work(&format!("{}a\n", "not ".repeat(400))));
        assert!(b < 6 * a, "{} {}", a, b);
    }).unwrap().join().unwrap();
}
""", "a long run of 'not' operators", "The operand is copied at every 'not': quadratic time and memory traffic.")

bug("P08-argument-limit", "P08", [(X, ["fn parse_expressions_arglist(&mut self) -> Result<Box<ASTNode>, String> {", "Missing elements between two ','"],
    "nodes_list.push(self.parse_expressions_argument()?);",
    "nodes_list.push(match nodes_list.len() {\n                                                0..=254 => self.parse_expressions_argument()?,\n"
    "                                                _ => return Err(format!(\"SyntaxError at {}: More than 255 arguments!\", self.lexer.get_position()))\n                                            });")], r"""
#[test]
fn many_arguments() {
    for n in [1, 2, 200, 254, 255, 256, 300] {
        assert!(eval(&format!("f({})", vec!["a"; n].join(", "))).is_ok(), "{} arguments", n);
    }
}
""", "a call with more than 255 arguments", "A call takes at most 255 arguments.")

bug("P04-decorator-limit", "P04", [(B, ["fn parse_blocks_decorators(&mut self) -> Result<Box<ASTNode>, String> {", "Token::PyMatrice(..) => {"],
    "nodes_list.push( self.parse_blocks_decorator()? );",
    "let decorator = self.parse_blocks_decorator()?;\n                            if nodes_list.len() < 32 { nodes_list.push( decorator ) }")], r"""
#[test]
fn many_decorators() {
    for n in [2, 10, 31, 32, 33, 50] {
        let r = show(&file(&((0..n).map(|i| format!("@d{}\n", i)).collect::<String>() + "class C: pass\n")));
        for i in 0..n { assert!(r.contains(&format!("\"d{}\"", i)), "{} of {}", i, n); }
    }
}
""", "more than 32 decorators", "From the 33rd on, decorators are dropped from the tree.")

bug("P08-lambda-flag", "P08", [
    ("parser.rs", "", "    pub except_status: ET\n}", "    pub except_status: ET,\n    pub in_lambda: bool\n}"),
    ("parser.rs", "", "            except_status: ExceptNone\n", "            except_status: ExceptNone,\n            in_lambda: false\n"),
    (X, ["fn parse_expressions_lambda_def(&mut self, cond: bool)", "match cond {"], "let right = self.parse_expressions_test()?;",
     "self.in_lambda = true;\n                                        let right = self.parse_expressions_test()?;\n                                        self.in_lambda = false;"),
    (X, "fn parse_expressions_named_expression(&mut self) -> Result<Box<ASTNode>, String> {", "Token::PyColonAssign(..) => {", "Token::PyColonAssign(..) if !self.in_lambda => {")], r"""
#[test]
fn assignment_expression_in_a_lambda() {
    assert!(eval("f(lambda x: (y := x))").is_ok());
    assert!(eval("(lambda: [a for b in c if (d := b)], (e := 1))").is_ok());
    assert!(file("if (lambda: a)() and (b := c): pass\n").is_ok());
}
""", "':=' inside parentheses within the body of a lambda", "A flag of the parser, set by one rule while it is in a lambda's body and tested by another, is not reset inside parentheses.")

bug("P02-depth-in-a-byte", "P02", [
    ("parser.rs", "", "    pub except_status: ET\n}", "    pub except_status: ET,\n    pub depth: u8\n}"),
    ("parser.rs", "", "            except_status: ExceptNone\n", "            except_status: ExceptNone,\n            depth: 0\n"),
    (X, "fn parse_expressions_atom(&mut self) -> Result<Box<ASTNode>, String> {", "let _ = self.advance();", "self.depth += 1;\n                        let _ = self.advance();")], r"""
#[test]
fn many_atoms() {
    for n in [1, 2, 255, 256, 257, 300] {
        assert!(eval(&vec!["..."; n].join(" + ")).is_ok(), "{}", n);
        assert!(eval(&format!("[{}]", vec!["..."; n].join(", "))).is_ok(), "{}", n);
    }
}
""", "more than 255 uses of the changed kind of atom in one source", "A count kept in the parser in 8 bits overflows: panic in the debug build.")

TRIVIA = r"""
impl Clone for Trivia {
    fn clone(&self) -> Self {
        match self {
            Trivia::WhiteSpace(start, end, ch) => Trivia::WhiteSpace(*start, *end, *ch),
            Trivia::Newline(start, end, first, second) => @NEWLINE@,
            Trivia::LineContinuation(start, end, back, first, second) => Trivia::LineContinuation(*start, *end, *back, *first, *second),
            Trivia::Comment(start, end, text) => @COMMENT@,
        }
    }
}
"""
def trivia_clone(newline="Trivia::Newline(*start, *end, *first, *second)", comment="Trivia::Comment(*start, *end, text.clone())"):
    end = "    Comment(u32, u32, Box<String>),\n}"
    return [("trivias.rs", [], "#[derive(Clone)]\n", ""),
            ("trivias.rs", [], end, end + "\n" + TRIVIA.rstrip("\n").replace("@NEWLINE@", newline).replace("@COMMENT@", comment))]

bug("P17-comment-cut", "P17", trivia_clone(comment="Trivia::Comment(*start, *end, Box::new(text.chars().take(128).collect()))"), r"""
#[test]
fn long_comment_between_brackets() {
    for n in [5, 127, 128, 200, 5000] {
        let comment = format!("# {}", "x".repeat(n));
        let t = show(&file(&format!("(a, {}\n b)\n", comment)));
        assert!(t.contains(&format!("{}\"", comment)), "{}", n);
    }
}
""", "a comment of more than 128 characters before a token of the tree", "The copy of a comment is cut, so the tree has only its beginning.")

bug("P17-lone-carriage-return", "P17", trivia_clone(newline="Trivia::Newline(*start, *end, *first, if *first == '\\r' { '\\n' } else { *second })"), r"""
#[test]
fn line_ends_between_brackets() {
    for end in ["\n", "\r\n", "\r"] {
        let src = format!("(a,{} b)\n", end);
        let mut t = PythonCoreTokenizer::new(src);
        let mut n = 0;
        while let Ok(s) = t.get_symbol() {
            if matches!(*s, Token::EOF(..)) { break }
            assert_eq!(*s, (*s).clone());
            n += 1;
        }
        assert_eq!(n, 6);
    }
}
""", "a line that ends in a lone carriage return between brackets", "The copy of its line end has a line feed the source does not have.")

ERRAT = r'''
/// The first number in the error for the source.
fn error_at(src: &str) -> usize {
    let e = file(src).unwrap_err();
    e.split(|c: char| !c.is_ascii_digit()).find(|x| !x.is_empty()).expect(&e).parse().unwrap()
}
'''

bug("P18-distance", "P18", [(S, "fn parse_statements_import_as_name(", "Expecting name literal in import as name statement!\", start_pos)", "Expecting name literal in import as name statement!\", self.lexer.get_position() - start_pos)")], ERRAT + r'''
#[test]
fn a_number_as_a_name() {
    for before in ["", "x = 1\n", "if a:\n    b\n    c\n"] {
        let src = format!("{}from a import b as 1\n", before);
        let p = error_at(&src);
        assert!(p >= before.len() && p < src.len(), "{} in {:?}", p, src)
    }
}
''', "'from x import y as' followed by something that is no name, behind other statements",
    "The error names the distance from the start of the construct instead of a position.")

bug("P18-bare-text", "P18", [(S, "fn parse_statements_nonlocal_stmt(", "Err(format!(\"SyntaxError at {}: Expecting name literal in nonlocal statement!\", start_pos))", "Err(\"SyntaxError: Expecting name literal in nonlocal statement!\".to_string())")], ERRAT + r'''
#[test]
fn nonlocal_without_a_name() {
    for before in ["", "x = y\n"] {
        for rest in ["nonlocal\n", "nonlocal (a)\n", "nonlocal a\nnonlocal b,\n", "nonlocal b, (c)\n"] {
            let src = format!("{}{}", before, rest);
            let p = error_at(&src);
            assert!(p >= before.len() && p <= src.len(), "{} in {:?}", p, src)
        }
    }
}
''', "'nonlocal' without a name behind it",
    "The error does not say where it is.")
