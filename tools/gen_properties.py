#!/usr/bin/env python3
"""Single source for properties.jsonl (run once by hand; the output is committed)."""
import json
T="src/parser/tokenizer.rs"; S="src/parser/source_buffer.rs"; E="src/parser/expressions.rs"; ST="src/parser/statements.rs"
B="src/parser/blocks.rs"; F="src/parser/functions.rs"; P="src/parser/parser.rs"; PT="src/parser/patterns.rs"; N="src/parser/nodes.rs"; TK="src/parser/tokens.rs"; TR="src/parser/trivias.rs"
ps=[]
def p(id,title,st,over,text,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":m,"where":", ".join(files)} for m in mech]}
    if state: a["state"]=state
    ps.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
INP="every source text (any length, any Unicode content)"
HIST="every source text, and every point reached by repeatedly asking the tokenizer for the next token of it"
TOKS="every token sequence, well-formed or not, and every grammar rule used as a starting point"
p("L01","Tokenizing always makes progress and ends",
  "Each request for the next token finishes, never moves backwards in the source, and either consumes at least one character, hands out one indentation change that was still owed, reports an error, or reports end of input. Hence any source text is reduced to a finite token sequence that ends with end of input or an error.",
  ["inputs","histories"],HIST,"The tests tokenize short hand-picked lines; whether every scanning loop stops on every character (end of input included) is a claim about all inputs.",
  [T,S],["loops of the tokenizer's get_symbol and handle_string","SourceBuffer index handling"])
p("L02","Tokenizing never crashes",
  "For any source text below 2^30 characters the tokenizer returns a token or an error value; it never panics, indexes outside the source, or over/underflows an arithmetic operation, also when it is asked again after having reported end of input.",
  ["inputs","histories"],HIST,"Panics hide on inputs no test supplies (truncated literals, unbalanced closers, odd dedents).",
  [T,S],["bounds tests in SourceBuffer","unwrap-like accesses and arithmetic in the tokenizer"])
p("L03","Operators and delimiters: longest match, right kind",
  "Wherever a token starts with an operator or delimiter character, the token returned is the longest operator or delimiter of the language that the source spells at that point, with exactly that operator's kind, and no other character sequence is ever reported as an operator.",
  ["inputs"],INP+", in particular every following character","Each test tries one operator with one following character; a wrong arm order or guard shows only for particular successors.",
  [T,TK],["operator match on the three-character window in get_symbol"])
p("L04","Names and keywords are recognised exactly",
  "A run of identifier characters starting with a letter or underscore becomes exactly one token covering the whole run: the keyword token if the text is exactly one of the language's 35 keywords, and otherwise a name carrying that text. No proper prefix, extension or case variant of a keyword is reported as a keyword.",
  ["inputs"],INP,"Keywords are tested one by one in isolation; prefixes, extensions, case variants and non-ASCII letters form an unbounded set.",
  [T,TK],["identifier scanning and keyword table in get_symbol"])
p("L05","Numeric literals follow the language's number grammar",
  "A numeric literal is accepted exactly when it is spelled according to the language (decimal, hexadecimal, octal, binary, fraction, exponent, imaginary, with underscores only between digits and no leading zero on a non-zero decimal integer); the token then covers the longest such literal, and malformed literals are reported as errors.",
  ["inputs"],INP,"Number spellings are an infinite regular language; the tests use a few dozen words of it.",
  [T],["number scanning branches of get_symbol"])
p("L06","String literals end exactly where the language says",
  "A string literal, with an optional string prefix and single or triple quotes, is returned as one token that extends to its matching unescaped closing delimiter; a single-quoted literal cannot span a line end, and a literal that is not closed is an error rather than a token.",
  ["inputs"],INP,"Whether each quote, prefix, escape and line-end combination closes at the right place is a statement about all string bodies.",
  [T],["handle_string","string-prefix and quote arms of get_symbol"])
p("L07","Brackets must match across the whole source",
  "A closing bracket is returned as a token only when the innermost bracket still open is of the same shape, and then closes it; any other closing bracket is an error. Opening brackets are always remembered until they are closed.",
  ["inputs","histories"],HIST,"Nesting depth and interleavings of brackets are unbounded; the tests use single pairs.",
  [T],["bracket stack push/pop in get_symbol"],[{"name":"bracket stack","meaning":"closers still expected, innermost last"}])
p("L08","Indentation changes are balanced and consistent",
  "At the start of each logical line that holds code and is outside brackets, the column is computed with tabs advancing to the next multiple of the tab size (4); one indent is reported exactly when it exceeds the enclosing level, one dedent for every enclosing level it leaves, and an error when it matches no enclosing level. Blank lines (a last line of blanks without line end included), comment-only lines and lines inside brackets never change indentation; the end of input at the start of a line leaves every level.",
  ["inputs","histories"],HIST,"Block nesting depth and column arithmetic range over all line prefixes and all histories of earlier lines.",
  [T],["beginning-of-line block of get_symbol","indent stack and pending counter"],[{"name":"indent stack","meaning":"columns of open blocks, innermost last"},{"name":"pending","meaning":"indents (+) or dedents (-) still owed to the caller"}])
p("L09","Line ends are significant exactly when the language says so",
  "Each of the three line-end spellings is consumed whole and yields one end-of-line token when it ends a line holding code outside brackets; inside brackets, on blank or comment-only lines, and after a backslash it yields no token (a type comment counts as code, since it is a token). A backslash not followed by a line end is an error, and end of input is reported only at the real end of the source.",
  ["inputs","histories"],HIST,"Whether a line end is significant depends on everything before it on the line and on open brackets; tests try a few fixed lines.",
  [T],["newline, continuation and end-of-file arms of get_symbol"])
p("L10","Token positions and text are exact",
  "Every token that covers source text reports the positions of its first character and just past its last character, and every name, number, string and type-comment token carries exactly the characters it covers (for strings: prefix and quoted text separately). The start position offered to the parser is the start of the latest token.",
  ["inputs","histories"],HIST,"Exact extents must hold for tokens of every length after every kind of preceding trivia.",
  [T,S,TK],["position and text bookkeeping in get_symbol and handle_string"],[{"name":"token start","meaning":"position of the first character of the latest token"}])
p("L11","Whitespace and comments are preserved as trivia",
  "Every run of blanks inside a line, every tab, comment, insignificant line end and line continuation skipped since the previous token is attached to the next token handed out, once, with its exact extent and text, in the tokenizer's last-to-first storage order; nothing else is attached, and a comment starting with '# type:' becomes a token of its own.",
  ["inputs","histories"],HIST,"Round-trip fidelity quantifies over every mixture of trivia; tests check single spaces.",
  [T,TR,TK],["trivia collection in get_symbol","attachment in every token constructor"])
p("L12","Tokenizer errors point at the offending text",
  "When the tokenizer reports an error, the position it offers then (get_position, which the parser puts into its own message) and any position named in the error's text lie between the first character of the text in error and the last character read so far, and never outside the source.",
  ["inputs","histories"],HIST,"Tests look at whether an error is reported, never at the position in it, and an error can arise at every character of every kind of token.",
  [T],["error returns of get_symbol and the functions it calls","get_position"])
p("P01","Parsing always ends",
  "From every starting rule and on every token sequence, parsing finishes: no rule can reach itself again, directly or through other rules, without a token having been consumed in between, and no repetition inside a rule can iterate without consuming a token.",
  ["inputs"],TOKS,"Non-termination needs an input that hits the unproductive cycle; most rules are never driven by a test at all.",
  [E,ST,B,F,PT],["call graph of the parse rules","repetition loops inside the rules"])
p("P02","Parsing never crashes",
  "On every token sequence each grammar rule returns a tree or an error value; no rule panics, aborts, or reaches code that is not implemented.",
  ["inputs"],TOKS,"A crash sits on a token sequence no test feeds; a third of the rules have no test.",
  [E,ST,B,F,PT],["every parse rule"])
p("P03","Errors are never swallowed",
  "A tokenizer error is never skipped over or consumed as if it were a token, and whenever a rule needs a sub-construct and that sub-construct fails, the rule fails as well instead of returning a tree. A syntax tree is therefore only ever produced from error-free tokens and error-free sub-trees.",
  ["inputs","fault_sequences"],TOKS+", with a tokenizer error injected at any position","An error can arise at any token position of any construct; tests contain essentially no error cases.",
  [E,ST,B,F,P],["result handling at each sub-rule call and each look at the current symbol"])
p("P04","The tree keeps every token exactly once",
  "When a rule succeeds, the tree it returns contains every token the rule consumed and every sub-tree it obtained, each exactly once, and nothing else; the current token afterwards is the first one not consumed. The source can therefore be reproduced from the tree.",
  ["inputs"],TOKS,"Losing or duplicating a token on some optional branch is invisible unless a test takes that branch and inspects every field.",
  [E,ST,B,F,N],["node construction in every rule"])
p("P05","Children are stored in source order conventions",
  "Inside one node the individually stored tokens and sub-trees appear in source order, and each list of sub-trees or separators holds its elements in one consistent direction, the same direction on every path that builds that kind of node.",
  ["inputs"],TOKS,"An order slip needs a list of two or more elements on the affected path; most list rules are tested with one shape only.",
  [E,ST,B,F,N],["list building and reversal before node construction"])
p("P06","Node kind and fields agree with the source construct",
  "Each kind of tree node is only ever built from its own construct: the keyword and operator tokens it holds are those of that construct, its children come from the rules the construct's grammar names, and optional parts are present exactly when the source has them.",
  ["inputs"],TOKS,"Kind/operator pairs number in the hundreds, and a swapped operand or kind on one branch compiles and passes tests of the other branches.",
  [E,ST,B,F,N,TK],["operator-to-node matches in the rules"])
p("P07","Operator precedence and associativity",
  "Expressions group according to the language's precedence ladder (conditional, or, and, not, comparison, |, ^, &, shifts, additive, multiplicative, unary, power, await/trailers), binary operators of one level group to the left, and power binds tighter than a unary operator on its left and accepts a unary operator on its right.",
  ["inputs"],"every expression, i.e. every sequence of operands and operators","Grouping is a relation between all pairs of operators at any nesting; tests check a handful of two- and three-operand expressions.",
  [E],["expression ladder from named expression down to atom"])
p("P08","Expression syntax accepted is exactly the language's",
  "Each expression rule accepts exactly the token sequences the language's grammar gives it (named, conditional and lambda expressions, atoms and displays, trailers, calls, subscripts, comprehensions, argument and expression lists, yield), and rejects every other with an error.",
  ["inputs"],TOKS,"Each rule denotes an infinite language; tests sample a few sentences and no rejections.",
  [E],["all expression rules"])
p("P09","Simple statement syntax accepted is exactly the language's",
  "Each simple-statement rule (expression and assignment statements, del, pass, flow statements, imports, global, nonlocal, assert, and the ';'-separated line) accepts exactly the token sequences the language's grammar gives it and rejects every other with an error.",
  ["inputs"],TOKS,"Each rule denotes an infinite language; most simple statements have no test.",
  [ST],["simple statement rules"])
p("P10","Compound statement syntax accepted is exactly the language's",
  "Each compound-statement rule (if, while, for, try, with, async, and indented suites) accepts exactly the token sequences the language's grammar gives it and rejects every other with an error; suites are entered and left by matching indent and dedent.",
  ["inputs"],TOKS,"Each rule denotes an infinite language; compound statements have no test.",
  [ST],["compound statement rules"])
p("P11","Definition and function-type syntax is exactly the language's",
  "Decorators, functions with their parameters and bodies, classes, and function-type signatures accept exactly the token sequences the language's grammar gives them and reject every other with an error.",
  ["inputs"],TOKS,"Each rule denotes an infinite language; none of these rules has a test.",
  [B,F],["definition rules","function type rules"])
p("P12","A successful whole-source parse covers the whole source",
  "The entry points for a file, an evaluated expression and a function type return a tree only if the entire source up to end of input belongs to that tree, and reject anything left over; the interactive entry point returns a tree only for exactly one complete statement together with the line end that closes it.",
  ["inputs"],"every source text given to one of the entry points","Trailing-garbage acceptance needs inputs with trailing garbage; the entry points have no tests.",
  [B],["file, eval, single and function-type input rules"])
p("P13","Node extents start and end where their tokens do",
  "Each tree node's start position is the start of its first token, and its end position is the start of the first token after it; in particular a node that wraps an earlier operand starts where that operand starts.",
  ["inputs"],TOKS,"Extents are checked by tests for a few nodes at offset zero, where most mistakes are invisible.",
  [E,ST,B,F],["start and end positions taken around each construct"])
p("P14","One try statement never mixes except and except*",
  "Within one try statement either all handlers are plain or all are group handlers, a bare group handler is rejected, and whether one try statement is accepted never depends on other try statements around, inside or before it.",
  ["inputs","histories"],"every nesting and sequence of try statements","The mode is parser state; leakage shows only with nested or consecutive try statements, and try has no tests at all.",
  [ST,P],["handler-mode state consulted by the except rule"],[{"name":"handler mode","meaning":"whether the current try statement uses plain or group handlers"}])
p("P15","Parsing is a pure function of the source text",
  "The outcome depends on the source text alone: tokenizing and parsing read and write no global, environment, file, clock, thread or random state, use no unsafe memory access, and tokens come only from the tokenizer, never invented by a grammar rule.",
  ["inputs","configurations","schedules"],"every source text, process environment and thread schedule","Hidden state or effects do not show in repeated single-threaded unit tests.",
  [T,S,P,E,ST,B,F,PT],["all non-test functions of the crate"])
p("P16","No sub-tree is copied while parsing",
  "A grammar rule never duplicates a sub-tree, or a list of sub-trees, that it has obtained: every sub-tree is moved into the node that holds it. The work of building the tree is then proportional to the number of nodes in it, however long an operator chain or a list and however deep the nesting is.",
  ["inputs","sizes"],"every token sequence, of any length and nesting","Copies do not change the resulting tree, only the time and memory of long or deep sources, which no unit test has.",
  [E,ST,B,F],["all grammar rules and their helpers"])
p("P17","Copies of tokens, trivia and nodes are faithful",
  "Copying a token, a piece of trivia or a tree node (as the parser does for every token it stores in the tree) gives a value of the same kind whose parts - positions, text, operator tokens, children and the complete list of trivia - all equal the original's, and never fails.",
  ["inputs"],"every token, trivia and node value","There are more than two hundred variants, no test compares a copy with its original, and tests of the tree use tokens without trivia.",
  ["src/parser/tokens.rs","src/parser/nodes.rs","src/parser/trivias.rs"],["Clone of Token, ASTNode and Trivia"])
p("P18","Syntax errors name where they are",
  "Every error a grammar rule reports names, in its text, a source position of the construct being parsed: the position at which the construct, or a token or part of it, begins, up to the token at which parsing stopped. The error of an inner rule or of the tokenizer may be passed on instead.",
  ["inputs"],TOKS,"There are several hundred error returns, one for every way a construct can be broken; tests contain essentially no error cases and none looks at the position.",
  [E,ST,B,F,PT],["error returns of every parse rule"])
p("N01","Deep nesting never exhausts the stack",
  "Arbitrarily deeply nested source text is parsed or rejected with an error without exhausting the thread's stack.",
  ["inputs"],INP,"Needs inputs whose nesting exceeds what the stack of a particular build can hold.",
  [E,ST],["recursive descent through the rules"])
p("N02","Parsing time is linear in the source length",
  "The total work of tokenizing and parsing grows at most linearly with the length of the source text.",
  ["inputs"],INP,"Asymptotic cost is not observable on short inputs.",
  [T,E,ST],["token cloning at every look at the current symbol","single-token lookahead"])
with open("/verif/properties.jsonl","w") as f:
    for x in ps: f.write(json.dumps(x)+"\n")
print(len(ps), max(len(x["title"]) for x in ps))
