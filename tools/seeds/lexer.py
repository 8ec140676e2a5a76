T = "tokenizer.rs"

bug("L01-comment-at-end", "L01", [(T, "/* Type comment or standard comment trivia */", r"'\r' | '\n' | '\0' => false,", r"'\r' | '\n' => false,")], r'''
#[test]
fn comment_at_the_end_of_the_source() {
    assert_eq!(kinds("a # no newline behind this"), "AtomName EOF");
}
''', "a source that ends inside a comment, without a final newline",
    "The loop collecting a comment no longer stops at the end of the source and never ends.")

bug("L02-type-comment-slice", "L02", [(T, "/* Type comment or standard comment trivia */", 'match buffer.as_str().starts_with("# type:") {',
    'match buffer.len() >= 7 && &buffer[..7] == "# type:" {')], r'''
#[test]
fn comment_in_another_script() {
    assert_eq!(kinds("a\n# \u{e5}rsak \u{2192}\u{2192}\nb\n"), "AtomName Newline AtomName Newline EOF");
    assert_eq!(kinds("# typ\u{e9}: x\n# type\u{e9}\n"), "EOF");
}
''', "a comment with a multi-byte character across its 7th byte",
    "The type comment test slices the comment at byte 7, which panics when that is inside a character.")

bug("L03-walrus-before-equals", "L03", [(T, "", "( ':', '=', _ ) => {", "( ':', '=', c ) if c != '=' => {")], r'''
#[test]
fn longest_operator() {
    assert_eq!(kinds("a:==b"), "AtomName PyColonAssign PyAssign AtomName EOF");
    assert_eq!(kinds("a:=b"), "AtomName PyColonAssign AtomName EOF");
    assert_eq!(kinds("a:b"), "AtomName PyColon AtomName EOF");
}
''', "':=' directly followed by another '='",
    "':==' is read as ':' and '==' instead of the longest operator ':=' first.")

bug("L04-name-start", "L04", [(T, "", "( s, _ , _ ) if s.is_alphabetic() || s == '_' => {", "( s, _ , _ ) if s.is_alphabetic() || s == '_' || !s.is_ascii() && s.is_alphanumeric() => {")], r'''
#[test]
fn only_letters_and_underscores_start_names() {
    assert_eq!(kinds("a\u{663}b"), "AtomName EOF");
    assert_eq!(kinds("\u{663}b"), "Error");
    assert_eq!(kinds("x = \u{bd}"), "AtomName PyAssign Error");
}
''', "a name-like word starting with a non-ASCII digit",
    "Words starting with a digit of another script (ARABIC-INDIC DIGIT THREE, VULGAR FRACTION ONE HALF) become names.")

bug("L04-keyword-inside-brackets", "L04", [(T, "", '"is" => Ok(', '"is" if self.source_buffer.get_char() != \'.\' => Ok(')], r'''
#[test]
fn keywords_are_keywords_everywhere() {
    assert_eq!(kinds("a is.1"), "AtomName PyIs AtomNumber EOF");
    assert_eq!(kinds("a is ...\n"), "AtomName PyIs PyElipsis Newline EOF");
    assert_eq!(kinds("a is...\n"), "AtomName PyIs PyElipsis Newline EOF");
}
''', "the keyword 'is' directly followed by a dot", "'is' directly before a '.' becomes a name instead of the keyword.")

bug("L05-zero-float-exponent", "L05", [(T, ["let mut non_zero", "'e' | 'E' => {"], "non_zero = false;", "")], r'''
#[test]
fn exponent_makes_a_float_of_a_number_with_leading_zeros() {
    assert_eq!(kinds("012e3"), "AtomNumber EOF");
    assert_eq!(kinds("0e3"), "AtomNumber EOF");
    assert_eq!(kinds("012"), "Error");
}
''', "a decimal number with leading zeros, no fraction and an exponent", "'012e3' is rejected as an integer with leading zeros.")

bug("L05-underscore-octal", "L05", [(T, ["/* Octet digits */", "'_' => {"], "'0' ..= '7' => {},", "'0' ..= '9' => {},")], r'''
#[test]
fn only_octal_digits_in_octal_numbers() {
    assert_eq!(kinds("0o17_70"), "AtomNumber EOF");
    assert_eq!(kinds("0o17_80"), "Error");
}
''', "an octal number with '_' directly before the digit 8 or 9", "'0o17_80' is taken apart into a number ending in '_' and another number.")

bug("L06-triple-quote-end", "L06", [(T, "fn handle_string(&mut self, start: u32, triple: bool, prefix: Option<String>, mut", "( a, b, c) if quote == a && quote == b && quote == c => {",
    "( a, b, c) if quote == a && b == c => {")], r"""
#[test]
fn quotes_inside_a_triple_quoted_string() {
    assert_eq!(kinds("'''a''b'''"), "AtomString EOF");
    assert_eq!(kinds("\"\"\"a\"\" \"\"\""), "AtomString EOF");
    assert_eq!(kinds("'''it'ss'''"), "AtomString EOF");
}
""", "a triple-quoted string holding a quote followed by a doubled character", "The string ends at any quote followed by two equal characters.")

bug("L06-other-quote", "L06", [(T, "fn handle_string(&mut self, start: u32, triple: bool, prefix: Option<String>, mut", "if self.source_buffer.get_char() == quote {", "if self.source_buffer.get_char() == quote || quote == '\"' && self.source_buffer.get_char() == '\\'' && prefix.is_some() {")], r"""
#[test]
fn the_other_quote_inside_a_string() {
    assert_eq!(kinds("f\"it's\""), "AtomString EOF");
    assert_eq!(kinds("f'it\"s'"), "AtomString EOF");
    assert_eq!(kinds("\"it's\""), "AtomString EOF");
}
""", "a prefixed string in double quotes with an apostrophe in it", "The apostrophe ends the string.")

bug("L07-closer-pops-first", "L07", [(T, "( ']', _ , _ ) => {", "match &self.parenthesis.last() {", "match &self.parenthesis.pop() {"),
    (T, "( ']', _ , _ ) => {", "self.parenthesis.pop();", "")], r'''
#[test]
fn a_wrong_closer_leaves_the_open_bracket() {
    let mut t = PythonCoreTokenizer::new("(]\n)".to_string());
    assert!(matches!(t.get_symbol().map(|s| *s), Ok(Token::PyLeftParen(..))));
    assert!(t.get_symbol().is_err());
    assert!(matches!(t.get_symbol().map(|s| *s), Ok(Token::PyRightParen(..))));
    assert!(matches!(t.get_symbol().map(|s| *s), Ok(Token::EOF(..))));
}
''', "a ']' that does not match the open bracket, and reading on after the error", "The mismatched closer removes the bracket it does not match from the stack.")

bug("L08-tab-column", "L08", [(T, "/* Analyzing indentation level", "col = (col / self.tab_size + 1) * self.tab_size;", "col += self.tab_size;")], r'''
#[test]
fn a_tab_moves_to_the_next_tab_stop() {
    assert_eq!(kinds("a:\n\tb\n \tc\n    d\n"), "AtomName PyColon Newline Indent AtomName Newline AtomName Newline AtomName Newline Dedent EOF");
}
''', "a line indented with blanks followed by a tab", "A tab after blanks adds a full tab width instead of moving to the next tab stop.")

bug("L08-dedent-one-level", "L08", [(T, "/* Analyzing indentation level", "self.pending -= 1;", "self.pending = -1;")], r'''
#[test]
fn several_levels_at_once() {
    assert_eq!(kinds("a:\n b:\n  c\nd\n"),
        "AtomName PyColon Newline Indent AtomName PyColon Newline Indent AtomName Newline Dedent Dedent AtomName Newline EOF");
}
''', "a line that leaves two or more indentation levels at once", "Only one Dedent is produced although several levels are left.")

bug("L09-cr-in-brackets", "L09", [(T, r"( '\r', _ , _ ) => {", "if is_blank_line || self.parenthesis.is_empty() == false {", "if is_blank_line {")], r'''
#[test]
fn no_newline_inside_brackets() {
    assert_eq!(kinds("(a,\rb)\r"), "PyLeftParen AtomName PyComa AtomName PyRightParen Newline EOF");
    assert_eq!(kinds("(a,\nb)\n"), "PyLeftParen AtomName PyComa AtomName PyRightParen Newline EOF");
}
''', "a lone carriage return inside brackets", "A Newline token appears inside brackets when lines end with CR alone.")

bug("L10-exponent-case", "L10", [(T, ["let mut non_zero", "'e' | 'E' => {"], "buffer.push( self.source_buffer.get_char() );", "buffer.push( 'e' );")], r'''
#[test]
fn number_text_is_the_source_text() {
    assert!(lex("00E3")[0].contains("\"00E3\""), "{:?}", lex("00E3"));
    assert!(lex("00e3")[0].contains("\"00e3\""));
}
''', "a number starting with '0' and an upper case exponent letter", "The token's text says 'e' where the source has 'E'.")

bug("L10-matrix-start", "L10", [(T, "( '@', '=', _ ) => {", "Ok(Box::new( Token::PyMatriceAssign(self.token_start_position, self.source_buffer.get_position(),",
     "Ok(Box::new( Token::PyMatriceAssign(self.token_start_position, self.token_start_position + if trivia_collector.len() < 2 { 2 } else { 1 },")], r'''
#[test]
fn operator_extents() {
    assert!(lex("a @= b")[1].starts_with("PyMatriceAssign(2, 4,"), "{:?}", lex("a @= b"));
    assert!(lex("a \t@= b")[1].starts_with("PyMatriceAssign(3, 5,"), "{:?}", lex("a \t@= b"));
    assert!(lex("a@=b")[1].starts_with("PyMatriceAssign(1, 3,"));
}
''', "'@=' with two trivia before it", "The end of the token is one short when two or more trivia precede it.")

bug("L11-trivia-order", "L11", [(T, "( '<', '>', _ ) => {", "Some( { trivia_collector.reverse(); trivia_collector } )", "Some( trivia_collector )")], r'''
#[test]
fn trivia_order() {
    let ne = &lex("(a  # one\n <> b)")[2];
    let eq = &lex("(a  # one\n == b)")[2];
    assert_eq!(ne.split_once("Some").map(|x| x.1), eq.split_once("Some").map(|x| x.1));
}
''', "'<>' preceded by two or more trivia", "The trivia of '<>' are stored in the opposite order of all other tokens.")

bug("L11-tab-trivia", "L11", [(T, ["/* Handle whitespace in source code", "'\\t' => {"], "self.token_start_position = self.source_buffer.get_position();",
    "if trivia_collector.is_empty() { self.token_start_position = self.source_buffer.get_position(); }")], r'''
#[test]
fn every_tab_is_one_trivia_of_its_own() {
    let t = &lex("a \tb")[1];
    assert!(t.contains("WhiteSpace(1, 2, ' ')") && t.contains("WhiteSpace(2, 3, '\\t')"), "{}", t);
    let t = &lex("a\t\tb")[1];
    assert!(t.contains("WhiteSpace(1, 2, '\\t')") && t.contains("WhiteSpace(2, 3, '\\t')"), "{}", t);
}
''', "a tab after other trivia of the same token", "The white space of the tab starts where the previous trivia started.")

bug("L07-nesting-limit", "L07", [(T, "( '[', _ , _ ) => {", "self.parenthesis.push(']');", "if self.parenthesis.len() < 60 { self.parenthesis.push(']'); }")], r'''
#[test]
fn deeply_nested_brackets() {
    for n in [1, 2, 30, 59, 60, 61, 64, 65, 100, 130] {
        let src = format!("{}{}", "[".repeat(n), "]".repeat(n));
        assert_eq!(lex(&src).len(), 2 * n + 1, "{} levels", n);
    }
}
''', "more than 60 nested brackets", "Opening brackets are no longer recorded when 60 are open already, so that the closing ones are refused.")

bug("L08-column-in-a-byte", "L08", [(T, "if self.indent_stack.is_empty() == false && col == match", "self.indent_stack.push(col);", "self.indent_stack.push((col as u8).into());")], r'''
#[test]
fn far_indented_blocks() {
    for n in [1, 8, 80, 254, 255, 256, 257, 300, 600] {
        let pad = " ".repeat(n);
        assert_eq!(kinds(&format!("if a:\n{}b\n{}c\nd\n", pad, pad)),
            "PyIf AtomName PyColon Newline Indent AtomName Newline AtomName Newline Dedent AtomName Newline EOF", "{} spaces", n);
    }
}
''', "a block indented by 256 columns or more", "Indentation levels are stored modulo 256.")

bug("L08-nesting-depth", "L08", [(T, "if self.indent_stack.is_empty() == false && col == match", "&& self.indent_stack.len() > 1 {\n", "&& self.indent_stack.len() > 1 && self.pending > -16 {\n")], r'''
#[test]
fn many_blocks_ending_at_once() {
    for n in [1, 2, 10, 15, 16, 17, 20, 40] {
        let mut src = String::new();
        for i in 0..n { src += &format!("{}if a:\n", " ".repeat(i)); }
        src += &format!("{}b\nc\n", " ".repeat(n));
        let k = lex(&src);
        assert_eq!(k.iter().filter(|x| x.starts_with("Dedent")).count(), n);
        assert!(k.last().unwrap().starts_with("EOF"), "{}", n);
    }
}
''', "more than 16 blocks that end at the same line", "At most 16 levels are left at once; a line that leaves more is refused as badly indented.")

bug("L02-pending-in-a-byte", "L02", [(T, "", "    pending: i32,", "    pending: i8,")], r'''
#[test]
fn many_blocks_ending_at_once() {
    for n in [1, 2, 100, 127, 128, 129, 200] {
        let mut src = String::new();
        for i in 0..n { src += &format!("{}if a:\n", " ".repeat(i)); }
        src += &format!("{}b\nc\n", " ".repeat(n));
        let k = lex(&src);
        assert_eq!(k.iter().filter(|x| x.starts_with("Dedent")).count(), n);
    }
}
''', "more than 128 blocks that end at the same line", "The number of dedents owed is kept in an i8 and overflows: a panic in the debug build, lost dedents in the release build.")

bug("L04-name-length", "L04", [(T, "", "while self.source_buffer.get_char().is_alphanumeric() || self.source_buffer.get_char() == '_' {", "while buffer.len() < 255 && (self.source_buffer.get_char().is_alphanumeric() || self.source_buffer.get_char() == '_') {")], r'''
#[test]
fn long_names() {
    for n in [1, 63, 64, 127, 128, 254, 255, 256, 257, 500, 1030] {
        assert_eq!(kinds(&format!("{} = 1", "n".repeat(n))), "AtomName PyAssign AtomNumber EOF", "{} characters", n);
    }
}
''', "a name longer than 255 bytes", "Names are cut in pieces of 255 bytes.")

bug("L10-short-positions", "L10", [("source_buffer.rs", "", "        self.index.clone()\n", "        (self.index as u16).into()\n")], r'''
#[test]
fn positions_in_a_large_source() {
    for n in [0, 1, 1000, 65520, 65535, 65536, 65537, 70000] {
        let t = lex(&format!("{}abc", "\n".repeat(n)));
        assert!(t[0].starts_with(&format!("AtomName({}, {},", n, n + 3)), "{}", n);
    }
}
''', "a source of more than 65535 characters", "Positions are reported modulo 65536.")

bug("L08-column-capped", "L08", [(T, "let mut col: u32 = 0;", "col += 1;", "col = std::cmp::min(col + 1, 100);")], r'''
#[test]
fn nested_blocks_far_to_the_right() {
    for n in [1, 50, 98, 99, 100, 101, 150] {
        let (a, b) = (" ".repeat(n), " ".repeat(n + 2));
        assert_eq!(kinds(&format!("if a:\n{}if b:\n{}c\n{}d\n", a, b, a)),
            "PyIf AtomName PyColon Newline Indent PyIf AtomName PyColon Newline Indent AtomName Newline Dedent AtomName Newline Dedent EOF", "{} spaces", n);
    }
}
''', "blocks nested beyond column 100", "Columns beyond 100 count as 100, so a block that far to the right is not seen to begin.")

ERRPOS = r'''
/// The numbers in the text of the first error, and the position offered then.
fn first_error(src: &str) -> (Vec<u32>, u32) {
    let mut t = PythonCoreTokenizer::new(src.to_string());
    for _ in 0..2000 {
        if let Err(e) = t.get_symbol() {
            let named = e.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            return (named, t.get_position());
        }
    }
    panic!("no error")
}
'''

bug("L12-one-based", "L12", [(T, "fn ", "Unterminated single quote string at {}!\", self.source_buffer.get_position())", "Unterminated single quote string at {}!\", self.source_buffer.get_position() + 1)")], ERRPOS + r'''
#[test]
fn a_string_that_is_not_closed() {
    for src in ["'abc", "x = 'abc", "x = 'abc\ny", "\"\\", "u''; '"] {
        let n = src.chars().count() as u32;
        for p in first_error(src).0 { assert!(p <= n, "{} in {:?}", p, src) }
    }
}
''', "a string without a closing quote at the very end of the source",
    "The error of an unclosed string is counted from one and lies outside a source that ends there.")

bug("L12-restart", "L12", [(T, "fn ", 'return Err("MORE DATA!".to_string())', '{ self.token_start_position = 0; return Err("MORE DATA!".to_string()) }')], ERRPOS + r'''
#[test]
fn a_long_string_that_is_not_closed() {
    for src in ["QQQabc\n", "x = QQQabc\n\ny", "a\nb\n  c = f\"\"\"\\"] {
        let src = &src.replace('Q', "'");
        let quote = src.find(|c| c == '\u{27}' || c == '"').unwrap() as u32;
        assert!(first_error(src).1 + 1 >= quote, "{:?}", src)
    }
}
''', "a triple-quoted string that is never closed, and is not the first token",
    "After the error of an unfinished triple-quoted string the position offered is the start of the source, so the parser's error points there.")

bug("L12-digit-before", "L12", [(T, "fn ", "Leading zero in a integer number is not allowed'!\", self.get_position())", "Leading zero in a integer number is not allowed'!\", self.get_position().saturating_sub(1))")], ERRPOS + r'''
#[test]
fn a_leading_zero() {
    for src in ["012", "x=012", "x = [1, 0_7]", "(\n012"] {
        let zero = src.find('0').unwrap() as u32;
        for p in first_error(src).0 { assert!(p >= zero && p <= zero + 3, "{} in {:?}", p, src) }
    }
}
''', "a number with a leading zero that is not at the start of the source",
    "The error of a number with a leading zero names the character before the number.")


S = "source_buffer.rs"

bug("L10-byte-order-mark", "L10", [(S, "fn new(buffer", "buffer.chars().collect()", "buffer.strip_prefix('\\u{feff}').unwrap_or(&buffer).chars().collect()")], r'''
#[test]
fn positions_count_every_character() {
    for lead in ["\u{feff}", " ", ""] {
        let src = format!("{}abc", lead);
        let mut t = PythonCoreTokenizer::new(src.clone());
        for _ in 0..4 {
            if let Ok(x) = t.get_symbol() {
                if let Token::AtomName(_, e, _, _) = *x { assert_eq!(e as usize, src.chars().count()); }
            }
        }
    }
}
''', "a source that starts with a byte order mark", "The mark is taken off before tokenizing, so every position is one too small.")

bug("L08-tabs-expanded", "L08", [(S, "fn new(buffer", "buffer.chars().collect()", "buffer.replace('\\t', \"    \").chars().collect()")], r'''
#[test]
fn a_tab_advances_to_the_next_stop() {
    assert_eq!(kinds("if a:\n  \tb\n    c\n"), "PyIf AtomName PyColon Newline Indent AtomName Newline AtomName Newline Dedent EOF");
    assert_eq!(kinds("if a:\n\tb\n    c\n"), "PyIf AtomName PyColon Newline Indent AtomName Newline AtomName Newline Dedent EOF");
}
''', "a tab behind blanks in the indentation of a line", "Tabs are replaced by four blanks before tokenizing instead of advancing to the next multiple of four.")

bug("L04-zero-width-joiner", "L04", [(T, "", "while self.source_buffer.get_char().is_alphanumeric() || self.source_buffer.get_char() == '_' {",
    "while self.source_buffer.get_char().is_alphanumeric() || matches!(self.source_buffer.get_char(), '_' | '\\u{200c}' | '\\u{200d}') {")], r'''
#[test]
fn names_are_letters_digits_and_underscores() {
    for c in ["\u{200c}", "\u{200d}", "\u{2060}"] {
        assert_eq!(kinds(&format!("ab{}cd", c)), "AtomName Error", "{:?}", c);
    }
}
''', "a zero width joiner inside a name", "Joiner characters are taken to be part of a name.")

bug("L09-byte-count", "L09", [(S, "pub struct", "    index: u32\n", "    index: u32,\n    total: u32\n"),
    (S, "fn new(buffer", "source_buffer: Box::new(", "total: buffer.len() as u32,\n            source_buffer: Box::new("),
    (S, "fn count", "self.source_buffer.len() as u32", "self.total")], r'''
#[test]
fn the_end_of_the_source_is_found() {
    assert_eq!(kinds("x = 1\n"), "AtomName PyAssign AtomNumber Newline EOF");
    assert_eq!(kinds("x = \"\u{e5}\"\n"), "AtomName PyAssign AtomString Newline EOF");
    assert_eq!(kinds("# \u{65e5}\u{672c}\nx\n"), "AtomName Newline EOF");
}
''', "a source with a character of several bytes", "The end of the source is looked for at its length in bytes, so that a source with other than ASCII characters ends with an error.")

bug("L01-leading-zeros", "L01", [(T, ["fn get_symbol", "'0' => {\n                                buffer.push( self.source_buffer.get_char() );\n                                let _ = self.source_buffer.advance();\n                                true"],
    "let _ = self.source_buffer.advance();", "")], r'''
#[test]
fn zeros_in_front_end() {
    assert_eq!(kinds("00"), "AtomNumber EOF");
    assert_eq!(kinds("000_0"), "AtomNumber EOF");
}
''', "a number written with several zeros", "The second zero of a number is put in the text again and again without being passed.")
