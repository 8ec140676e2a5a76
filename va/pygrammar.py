"""Reference grammar: Python 3.9/3.10 in LL(1) form, one nonterminal per grammar rule of the parser.

Notation: 'x' token, UPPER named token, [x] optional, x* x+ repetition, | choice, ~(x) a form on which the published
grammars of the supported versions differ (accepting and rejecting it are both fine)."""

import re
from . import rx

TOKENS = {
    "False": "PyFalse", "None": "PyNone", "True": "PyTrue", "and": "PyAnd", "as": "PyAs", "assert": "PyAssert",
    "async": "PyAsync", "await": "PyAwait", "break": "PyBreak", "class": "PyClass", "continue": "PyContinue",
    "def": "PyDef", "del": "PyDel", "elif": "PyElif", "else": "PyElse", "except": "PyExcept", "finally": "PyFinally",
    "for": "PyFor", "from": "PyFrom", "global": "PyGlobal", "if": "PyIf", "import": "PyImport", "in": "PyIn",
    "is": "PyIs", "lambda": "PyLambda", "nonlocal": "PyNonLocal", "not": "PyNot", "or": "PyOr", "pass": "PyPass",
    "raise": "PyRaise", "return": "PyReturn", "try": "PyTry", "while": "PyWhile", "with": "PyWith", "yield": "PyYield",
    "+": "PyPlus", "-": "PyMinus", "*": "PyMul", "**": "PyPower", "/": "PyDiv", "//": "PyFloorDiv", "%": "PyModulo",
    "@": "PyMatrice", "<<": "PyShiftLeft", ">>": "PyShiftRight", "&": "PyBitAnd", "|": "PyBitOr", "^": "PyBitXor",
    "~": "PyBitInvert", ":=": "PyColonAssign", "<": "PyLess", ">": "PyGreater", "<=": "PyLessEqual",
    ">=": "PyGreaterEqual", "==": "PyEqual", "!=": "PyNotEqual", "(": "PyLeftParen", "[": "PyLeftBracket",
    "{": "PyLeftCurly", ")": "PyRightParen", "]": "PyRightBracket", "}": "PyRightCurly", ",": "PyComa", ":": "PyColon",
    ".": "PyDot", ";": "PySemiColon", "=": "PyAssign", "->": "PyArrow", "+=": "PyPlusAssign", "-=": "PyMinusAssign",
    "*=": "PyMulAssign", "/=": "PyDivAssign", "//=": "PyFloorDivAssign", "%=": "PyModuloAssign",
    "@=": "PyMatriceAssign", "&=": "PyBitAndAssign", "|=": "PyBitOrAssign", "^=": "PyBitXorAssign",
    "<<=": "PyShiftLeftAssign", ">>=": "PyShiftRightAssign", "**=": "PyPowerAssign", "...": "PyElipsis",
    "NUMBER": "AtomNumber", "STRING": "AtomString", "NEWLINE": "Newline", "INDENT": "Indent", "DEDENT": "Dedent",
    "TYPE_COMMENT": "TypeComment", "EOF": "EOF",
}

GRAMMAR = r"""
# --- entry points
single_input: NEWLINE | simple_stmt | compound_stmt NEWLINE | ~(patterns_match NEWLINE)
file_input: (NEWLINE | stmt)* EOF
eval_input: testlist NEWLINE* EOF
func_type_input: func_type NEWLINE* EOF

# --- definitions
decorator: '@' dotted_name ['(' [arglist] ')'] NEWLINE
decorators: decorator+
decorated: decorators (class_def | func_def | async_func_def)
async_func_def: 'async' func_def
func_def: 'def' NAME parameters ['->' test] ':' [TYPE_COMMENT] func_body_suite
parameters: '(' [typed_args_list] ')'
typed_args_list: TARGS
tfp_def_assign: tfp_def ['=' test]
tfp_def: NAME [':' test]
func_body_suite: simple_stmt | NEWLINE [TYPE_COMMENT NEWLINE] INDENT stmt+ DEDENT
class_def: 'class' NAME ['(' [arglist] ')'] ':' suite
func_type: '(' [type_list] ')' '->' test
type_list: TYPELIST

# --- statements
stmt: simple_stmt | compound_stmt | ~(patterns_match)
simple_stmt: small_stmt (';' small_stmt)* [';'] NEWLINE
small_stmt: expr_stmt | del_stmt | pass_stmt | flow_stmt | import_stmt | global_stmt | nonlocal_stmt | assert_stmt
expr_stmt: testlist_star_expr [ANNASSIGN | AUG (yield_expr | testlist) | ('=' (yield_expr | testlist_star_expr | ~(testlist)))+ [TYPE_COMMENT]]
ann_assign: ':' test ['=' (yield_expr | testlist_star_expr)]
del_stmt: 'del' exprlist
pass_stmt: 'pass'
flow_stmt: break_stmt | continue_stmt | return_stmt | raise_stmt | yield_stmt
break_stmt: 'break'
continue_stmt: 'continue'
return_stmt: 'return' [testlist_star_expr]
yield_stmt: yield_expr
raise_stmt: 'raise' [test ['from' test]]
import_stmt: import_name | import_from
import_name: 'import' dotted_as_names
import_from: 'from' (('.' | '...')* dotted_name | ('.' | '...')+) 'import' ('*' | '(' import_as_names ')' | import_as_names)
import_as_name: NAME ['as' NAME]
dotted_as_name: dotted_name ['as' NAME]
import_as_names: import_as_name (',' import_as_name)* ~([','])
dotted_as_names: dotted_as_name (',' dotted_as_name)*
dotted_name: NAME ('.' NAME)*
global_stmt: 'global' NAME (',' NAME)*
nonlocal_stmt: 'nonlocal' NAME (',' NAME)*
assert_stmt: 'assert' test [',' test]
compound_stmt: if_stmt | while_stmt | for_stmt | try_stmt | with_stmt | func_def | class_def | decorated | async_stmt
async_stmt: 'async' (func_def | with_stmt | for_stmt)
if_stmt: 'if' named_expression ':' suite elif_stmt* [else_stmt]
elif_stmt: 'elif' named_expression ':' suite
else_stmt: 'else' ':' suite
while_stmt: 'while' named_expression ':' suite [else_stmt]
for_stmt: 'for' exprlist 'in' testlist ':' [TYPE_COMMENT] suite [else_stmt]
try_stmt: 'try' ':' suite (except_stmt@plain+ [else_stmt] [finally_stmt] | except_stmt@star+ [else_stmt] [finally_stmt] | finally_stmt)
finally_stmt: 'finally' ':' suite
except_stmt@plain: except_clause@plain ':' suite
except_stmt@star: except_clause@star ':' suite
except_clause@plain: 'except' [test ['as' NAME]]
except_clause@star: 'except' '*' test ['as' NAME]
with_stmt: 'with' with_item (',' with_item)* ':' [TYPE_COMMENT] suite | 'with' '(' with_item (',' with_item)* [','] ')' ':' [TYPE_COMMENT] suite
with_item: test ['as' expr]
suite: simple_stmt | NEWLINE INDENT stmt+ DEDENT

# --- expressions
named_expression: test [':=' test]
test: or_test ['if' or_test 'else' test] | lambda_def(true)
no_cond_test: or_test | ~(lambda_def(false))
lambda_def(true): 'lambda' [var_args_list] ':' test
lambda_def(false): 'lambda' [var_args_list] ':' (or_test | ~(lambda_def(false)))
or_test: and_test ('or' and_test)*
and_test: not_test ('and' not_test)*
not_test: 'not' not_test | comparison
comparison: expr (COMPOP expr)*
star_expr: '*' expr
expr: xor_expr ('|' xor_expr)*
xor_expr: and_expr ('^' and_expr)*
and_expr: shift ('&' shift)*
shift: arith (('<<' | '>>') arith)*
arith: term (('+' | '-') term)*
term: factor (('*' | '/' | '//' | '%' | '@') factor)*
factor: ('+' | '-' | '~') factor | power
power: atom_expr ['**' factor]
atom_expr: ['await'] atom trailer*
atom: '(' [yield_expr | testlist_comp] ')' | '[' [testlist_comp] ']' | '{' [dictorset_maker] '}' | NAME | NUMBER | STRING+ | '...' | 'None' | 'True' | 'False'
testlist_comp: (named_expression | star_expr) (comp_for | (',' (named_expression | star_expr))* [','])
trailer: '(' [arglist] ')' | '[' subscript_list ']' | '.' NAME
subscript_list: subscript (',' subscript)* [',']
subscript: test ~([':=' test]) | [test] ':' [test] [':' [test]]
exprlist: (expr | star_expr) (',' (expr | star_expr))* [',']
testlist: test (',' test)* [',']
dictorset_maker: DICT (comp_for | (',' DICT)* [',']) | SET (comp_for | (',' SET)* [','])
arglist: argument (',' argument)* [',']
argument: test [comp_for | ':=' test | '=' test] | '**' test | '*' test
comp_iter: comp_for | comp_if
sync_comp_for: 'for' exprlist 'in' or_test [comp_iter]
comp_for: 'async' sync_comp_for | sync_comp_for
comp_if: 'if' no_cond_test [comp_iter]
yield_expr: 'yield' ['from' test | testlist_star_expr]
testlist_star_expr: (test | star_expr) (',' (test | star_expr))* [',']
var_args_list: VARGS
var_args_assignments: vfp_def ['=' test]
vfp_def: NAME
"""

# fragments (not rules)
FRAG = r"""
ANNASSIGN: ann_assign
AUG: '+=' | '-=' | '*=' | '/=' | '//=' | '%=' | '@=' | '&=' | '|=' | '^=' | '<<=' | '>>=' | '**='
COMPOP: '<' | '>' | '==' | '>=' | '<=' | '!=' | 'in' | 'not' 'in' | 'is' ['not']
DICT: test ':' test | '**' expr
SET: named_expression | star_expr
VPLAIN: var_args_assignments (',' var_args_assignments)*
VPOW: '**' vfp_def [',']
VSTAR: '*' vfp_def (',' var_args_assignments)* [',' [VPOW]] | '*' (',' var_args_assignments)+ [',' [VPOW]] | ~('*' [',' [VPOW]]) | VPOW
VARGS: VPLAIN [',' [VSTAR]] | VPLAIN ',' '/' [',' [VPLAIN [',' [VSTAR]] | VSTAR]] | VSTAR
TPLAIN: tfp_def_assign (',' tfp_def_assign)*
TPOW: '**' tfp_def [',']
TSTAR: '*' tfp_def (',' tfp_def_assign)* [',' [TPOW]] | '*' (',' tfp_def_assign)+ [',' [TPOW]] | ~('*' [',' [TPOW]]) | TPOW
TARGS: TPLAIN [',' [TSTAR]] | TPLAIN ',' '/' [',' [TPLAIN [',' [TSTAR]] | TSTAR]] | TSTAR
TLREST: ',' '**' test | ',' ~(test) ~((',' test)*) ~([',' '**' test])
TYPELIST: test (',' test)* [',' '*' test (~((',' test)+)) [',' '**' test] | ',' '*' test [',' '**' test] | ',' '**' test | ~(',') | ~(',' '*' (',' test)* [',' '**' test])] | '*' test [',' '**' test] | ~('*' [test] (',' test)* [',' '**' test]) | '**' test
"""

INPUTS = ("single_input", "file_input", "eval_input", "func_type_input")

PROP = {}
for n in ("del_stmt pass_stmt flow_stmt break_stmt continue_stmt return_stmt yield_stmt raise_stmt import_stmt import_name import_from "
          "import_as_name dotted_as_name import_as_names dotted_as_names dotted_name global_stmt nonlocal_stmt assert_stmt simple_stmt "
          "small_stmt expr_stmt ann_assign").split(): PROP[n] = "P09"
for n in ("stmt compound_stmt async_stmt if_stmt elif_stmt else_stmt while_stmt for_stmt try_stmt finally_stmt except_stmt except_clause "
          "with_stmt with_item suite patterns_match").split(): PROP[n] = "P10"
for n in ("decorator decorators decorated async_func_def func_def parameters typed_args_list tfp_def_assign tfp_def func_body_suite "
          "class_def func_type type_list").split(): PROP[n] = "P11"
for n in INPUTS: PROP[n] = "P12"


def rule_name(short):
    m = re.match(r"parse_(?:expressions|statements|blocks|functions|patterns)_(\w+)$", short)
    if m: return "patterns_match" if m.group(1) == "match" else m.group(1)
    return None


_lex = re.compile(r"\s*(?:'([^']+)'|([A-Za-z_][A-Za-z_0-9]*(?:@\w+)?(?:\((?:true|false)\))?)|([\[\]()*+|~]))")


def parse_rules(text):
    out = {}
    for line in text.splitlines():
        line = line.strip()
        if not line or line.startswith("#"): continue
        m = re.match(r"([A-Za-z_]\w*(?:@\w+)?(?:\(\w+\))?):\s*(.*)$", line)
        out[m.group(1)] = m.group(2)
    return out


class _P:
    def __init__(self, pm, text, frags, busy=()):
        self.pm = pm; self.frags = frags; self.toks = []; self.busy = busy
        i = 0
        text = text.strip()
        while i < len(text):
            m = _lex.match(text, i)
            if not m: raise ValueError("grammar: " + text[i:])
            if m.group(1): self.toks.append(("t", m.group(1)))
            elif m.group(2): self.toks.append(("w", m.group(2)))
            else: self.toks.append((m.group(3), None))
            i = m.end()
        self.i = 0

    def peek(self): return self.toks[self.i][0] if self.i < len(self.toks) else None

    def alt(self):
        xs = [self.seq()]
        while self.peek() == "|":
            self.i += 1; xs.append(self.seq())
        return rx.alt(*xs)

    def seq(self):
        xs = []
        while self.peek() not in (None, "|", ")", "]"): xs.append(self.post())
        return rx.seq(*xs)

    def post(self):
        x = self.atom()
        while self.peek() in ("*", "+"):
            x = rx.star(x) if self.peek() == "*" else rx.plus(x)
            self.i += 1
        return x

    def atom(self):
        k, v = self.toks[self.i]; self.i += 1
        if k == "t": return rx.tok(self.pm.bit[TOKENS[v]])
        if k == "w":
            if v == "NAME": return rx.tok(self.pm.NAME)
            if v in TOKENS: return rx.tok(self.pm.bit[TOKENS[v]])
            if v in self.frags and v not in self.busy:
                p = _P(self.pm, self.frags[v], self.frags, self.busy + (v,))
                return p.alt()
            if v == "patterns_match" and v in self.pm.absent: return rx.EMPTY
            return rx.nt(v)
        if k == "(":
            x = self.alt(); assert self.peek() == ")"; self.i += 1; return x
        if k == "[":
            x = self.alt(); assert self.peek() == "]"; self.i += 1; return rx.opt(x)
        if k == "~":
            x = self.atom()
            # an optional part that may be refused: skipping it is always possible
            if x.k == "a" and rx.EPS in x.a:
                return rx.opt(rx.may(rx.alt(*[y for y in x.a if y is not rx.EPS])))
            return rx.may(x)
        raise ValueError(k)


def build(pm, have):
    """have: the rules the parser has a function for; the others are expanded where they are used."""
    frags = parse_rules(FRAG)
    texts = parse_rules(GRAMMAR)
    pm.absent = {n for n in [x.split("@")[0].split("(")[0] for x in texts] + ["patterns_match"] if n not in have}
    for n, t in texts.items():
        if n.split("@")[0].split("(")[0] in pm.absent: frags[n] = t
    rules = {n: _P(pm, t, frags).alt() for n, t in texts.items()
             if n.split("@")[0].split("(")[0] not in pm.absent}
    g = rx.Grammar(rules, {"patterns_match": pm.name_lits["match"]})
    for n in INPUTS: g.follow[n] = 0
    modes = {"except_stmt", "except_clause"} - pm.absent
    return g, modes


# --- tree shape -----------------------------------------------------------------------------------------------------
# What each part of each tree node may hold: token kinds (PyX, Newline, ..), sub-trees by the rule they come from (lower
# case), nodes built in place (upper case); '+' a group stored together, '-' may be absent, LEFT the operand handed over,
# rule=Kind the tree of a rule restricted to a node kind.  For lists: what an element may be.
SHAPES = """
AndExpr: AndExpr|shift ; PyBitAnd ; shift
AndTest: AndTest|not_test ; PyAnd ; not_test
AnnAssignStmt: LEFT ; PyColon ; test ; PyAssign+testlist_star_expr|PyAssign+yield_expr|-
ArgList: argument ; PyComa
Argument: test|- ; PyAssign|PyColonAssign|PyMul|PyPower|- ; comp_for|test|-
AssertStmt: PyAssert ; test ; PyComa+test|-
AssignmentStmt: testlist_star_expr ; PyAssign+testlist|PyAssign+testlist_star_expr|PyAssign+yield_expr ; TypeComment|-
AsyncStmt: PyAsync ; for_stmt|func_def|with_stmt
AtomDictionary: PyLeftCurly ; dictorset_maker=DictionaryContainer|- ; PyRightCurly
AtomElipsis: PyElipsis
AtomExpr: PyAwait|- ; atom ; trailer
AtomFalse: PyFalse
AtomList: PyLeftBracket ; testlist_comp|- ; PyRightBracket
AtomName: AtomName
AtomNone: PyNone
AtomNumber: AtomNumber
AtomSet: PyLeftCurly ; dictorset_maker=SetContainer ; PyRightCurly
AtomString: AtomString
AtomTrue: PyTrue
AtomTuple: PyLeftParen ; testlist_comp|yield_expr|- ; PyRightParen
BitAndAssignStmt: testlist_star_expr ; PyBitAndAssign ; testlist|yield_expr
BitOrAssignStmt: testlist_star_expr ; PyBitOrAssign ; testlist|yield_expr
BitXorAssignStmt: testlist_star_expr ; PyBitXorAssign ; testlist|yield_expr
BreakStmt: PyBreak
CallTrailer: PyLeftParen ; arglist|- ; PyRightParen
ClassDef: PyClass ; AtomName ; PyLeftParen|- ; arglist|- ; PyRightParen|- ; PyColon ; suite
CompForComprehension: PyAsync ; sync_comp_for
CompIfComprehension: PyIf ; no_cond_test ; comp_iter|-
ContinueStmt: PyContinue
Decorated: decorators ; async_func_def|class_def|func_def
Decorator: PyMatrice ; dotted_name ; PyLeftParen|- ; arglist|- ; PyRightParen|- ; Newline
Decorators: decorator
DelStmt: PyDel ; exprlist
DictionaryContainer: DictionaryEntry|PowerDictionary|comp_for ; PyComa
DictionaryEntry: test ; PyColon ; test
DivAssignStmt: testlist_star_expr ; PyDivAssign ; testlist|yield_expr
DivTerm: DivTerm|FloorDivTerm|MatriceTerm|ModuloTerm|MulTerm|factor ; PyDiv ; factor
DotNameTrailer: PyDot ; AtomName
DottedAsNameStmt: dotted_name ; PyAs+AtomName|-
DottedAsNamesStmt: dotted_as_name ; PyComa
DottedNameStmt: AtomName ; PyDot
ElifStmt: PyElif ; named_expression ; PyColon ; suite
ElseStmt: PyElse ; PyColon ; suite
EqualComparison: EqualComparison|GreaterComparison|GreaterEqualComparison|InComparison|IsComparison|IsNotComparison|LessComparison|LessEqualComparison|NotEqualComparison|NotInComparison|expr ; PyEqual ; expr
EvalInput: testlist ; Newline ; EOF
ExceptClauseStmt: PyExcept ; PyMul|- ; test|test+PyAs+AtomName|-
ExceptStmt: except_clause ; PyColon ; suite
Expr: Expr|xor_expr ; PyBitOr ; xor_expr
ExprList: expr|star_expr ; PyComa
FileInput: stmt ; Newline ; EOF
FinallyStmt: PyFinally ; PyColon ; suite
FloorDivAssignStmt: testlist_star_expr ; PyFloorDivAssign ; testlist|yield_expr
FloorDivTerm: DivTerm|FloorDivTerm|MatriceTerm|ModuloTerm|MulTerm|factor ; PyFloorDiv ; factor
ForStmt: PyFor ; exprlist ; PyIn ; testlist ; PyColon ; TypeComment|- ; suite ; else_stmt|-
FuncBodySuite: Newline ; TypeComment|- ; Newline|- ; Indent ; stmt ; Dedent
FuncDef: PyDef ; AtomName ; parameters ; PyArrow+test|- ; PyColon ; TypeComment|- ; func_body_suite
FuncType: PyLeftParen ; type_list|- ; PyRightParen ; PyArrow ; test
FuncTypeInput: func_type ; Newline ; EOF
GlobalStmt: PyGlobal ; AtomName ; PyComa
GreaterComparison: EqualComparison|GreaterComparison|GreaterEqualComparison|InComparison|IsComparison|IsNotComparison|LessComparison|LessEqualComparison|NotEqualComparison|NotInComparison|expr ; PyGreater ; expr
GreaterEqualComparison: EqualComparison|GreaterComparison|GreaterEqualComparison|InComparison|IsComparison|IsNotComparison|LessComparison|LessEqualComparison|NotEqualComparison|NotInComparison|expr ; PyGreaterEqual ; expr
IfStmt: PyIf ; named_expression ; PyColon ; suite ; elif_stmt ; else_stmt|-
ImportAsName: AtomName ; PyAs+AtomName|-
ImportAsNamesStmt: import_as_name ; PyComa
ImportFromStmt: PyFrom ; PyDot|PyElipsis ; dotted_name|- ; PyImport ; PyLeftParen|PyMul|- ; import_as_names|- ; PyRightParen|-
ImportNameStmt: PyImport ; dotted_as_names
InComparison: EqualComparison|GreaterComparison|GreaterEqualComparison|InComparison|IsComparison|IsNotComparison|LessComparison|LessEqualComparison|NotEqualComparison|NotInComparison|expr ; PyIn ; expr
IndexTrailer: PyLeftBracket ; subscript_list ; PyRightBracket
IsComparison: EqualComparison|GreaterComparison|GreaterEqualComparison|InComparison|IsComparison|IsNotComparison|LessComparison|LessEqualComparison|NotEqualComparison|NotInComparison|expr ; PyIs ; expr
IsNotComparison: EqualComparison|GreaterComparison|GreaterEqualComparison|InComparison|IsComparison|IsNotComparison|LessComparison|LessEqualComparison|NotEqualComparison|NotInComparison|expr ; PyIs ; PyNot ; expr
Lambda: PyLambda ; var_args_list|- ; PyColon ; or_test|test
LessComparison: EqualComparison|GreaterComparison|GreaterEqualComparison|InComparison|IsComparison|IsNotComparison|LessComparison|LessEqualComparison|NotEqualComparison|NotInComparison|expr ; PyLess ; expr
LessEqualComparison: EqualComparison|GreaterComparison|GreaterEqualComparison|InComparison|IsComparison|IsNotComparison|LessComparison|LessEqualComparison|NotEqualComparison|NotInComparison|expr ; PyLessEqual ; expr
MatriceAssignStmt: testlist_star_expr ; PyMatriceAssign ; testlist|yield_expr
MatriceTerm: DivTerm|FloorDivTerm|MatriceTerm|ModuloTerm|MulTerm|factor ; PyMatrice ; factor
MinusArithExpr: MinusArithExpr|PlusArithExpr|term ; PyMinus ; term
MinusAssignStmt: testlist_star_expr ; PyMinusAssign ; testlist|yield_expr
ModuloAssignStmt: testlist_star_expr ; PyModuloAssign ; testlist|yield_expr
ModuloTerm: DivTerm|FloorDivTerm|MatriceTerm|ModuloTerm|MulTerm|factor ; PyModulo ; factor
MulAssignStmt: testlist_star_expr ; PyMulAssign ; testlist|yield_expr
MulSet: PyMul ; expr
MulTerm: DivTerm|FloorDivTerm|MatriceTerm|ModuloTerm|MulTerm|factor ; PyMul ; factor
NamedExpr: test ; PyColonAssign ; test
NonLocalStmt: PyNonLocal ; AtomName ; PyComa
NotEqualComparison: EqualComparison|GreaterComparison|GreaterEqualComparison|InComparison|IsComparison|IsNotComparison|LessComparison|LessEqualComparison|NotEqualComparison|NotInComparison|expr ; PyNotEqual ; expr
NotInComparison: EqualComparison|GreaterComparison|GreaterEqualComparison|InComparison|IsComparison|IsNotComparison|LessComparison|LessEqualComparison|NotEqualComparison|NotInComparison|expr ; PyNot ; PyIn ; expr
NotTest: PyNot ; not_test
OrTest: OrTest|and_test ; PyOr ; and_test
Parameter: PyLeftParen ; typed_args_list|- ; PyRightParen
PassStmt: PyPass
PlusArithExpr: MinusArithExpr|PlusArithExpr|term ; PyPlus ; term
PlusAssignStmt: testlist_star_expr ; PyPlusAssign ; testlist|yield_expr
PowerAssignStmt: testlist_star_expr ; PyPowerAssign ; testlist|yield_expr
PowerDictionary: PyPower ; expr
PowerExpr: atom_expr ; PyPower ; factor
RaiseStmt: PyRaise ; test|test+PyFrom+test|-
ReturnStmt: PyReturn ; testlist_star_expr|-
SetContainer: MulSet|NamedExpr|comp_for|named_expression|test ; PyComa
ShiftLeftAssignStmt: testlist_star_expr ; PyShiftLeftAssign ; testlist|yield_expr
ShiftLeftExpr: ShiftLeftExpr|ShiftRightExpr|arith ; PyShiftLeft ; arith
ShiftRightAssignStmt: testlist_star_expr ; PyShiftRightAssign ; testlist|yield_expr
ShiftRightExpr: ShiftLeftExpr|ShiftRightExpr|arith ; PyShiftRight ; arith
SimpleStmtList: small_stmt ; PySemiColon ; Newline
SingleInput: compound_stmt|patterns_match|simple_stmt|- ; Newline|-
StarExpr: PyMul ; expr
Subscript: test|- ; PyColon|- ; test|- ; PyColon|- ; test|-
SubscriptList: subscript ; PyComa
SuiteStmt: Newline ; Indent ; stmt ; Dedent
SyncCompForComprehension: PyFor ; exprlist ; PyIn ; or_test ; comp_iter|-
TFPAssign: tfp_def ; PyAssign ; test
TFPDef: AtomName ; PyColon+test|-
Test: or_test ; PyIf ; or_test ; PyElse ; test
TestList: test ; PyComa
TestListComp: comp_for|named_expression|star_expr ; PyComa
TestListStarExpr: star_expr|test ; PyComa
TryStmt: PyTry ; PyColon ; suite ; except_stmt|- ; else_stmt|- ; finally_stmt|-
TypeList: test ; PyComa ; PyMul|- ; test|- ; PyPower|- ; test|-
TypedArgsList: tfp_def_assign|tfp_def ; PyComa ; PyDiv|PyMul|TypeComment ; PyMul+tfp_def|- ; PyPower+tfp_def|-
UnaryInvert: PyBitInvert ; factor
UnaryMinus: PyMinus ; factor
UnaryPlus: PyPlus ; factor
VFPAssign: vfp_def ; PyAssign ; test
VFPDef: AtomName
VarArgsList: var_args_assignments ; PyComa ; PyMul|- ; vfp_def|- ; PyPower|- ; vfp_def|- ; PyDiv|-
WhileStmt: PyWhile ; named_expression ; PyColon ; suite ; else_stmt|-
WithItem: test ; PyAs+expr|-
WithStmt: PyWith ; PyLeftParen|- ; with_item ; PyComa ; PyRightParen|- ; PyColon ; suite
XorExpr: XorExpr|and_expr ; PyBitXor ; and_expr
YieldExpr: PyYield ; testlist_star_expr
YieldFromExpr: PyYield ; PyFrom ; test
"""
# part -> part it must come with
TOGETHER = {
    "Subscript": ((2, 1), (3, 1), (4, 3)),
    "ClassDef": ((2, 4), (4, 2), (3, 2)),
    "Decorator": ((2, 4), (4, 2), (3, 2)),
    "ImportFromStmt": ((6, 4), (6, 5)),
    "WithStmt": ((1, 4), (4, 1)),
    "TypeList": ((3, 2), (4, 5), (5, 4)),
    "VarArgsList": ((3, 2), (4, 5), (5, 4)),
    "FuncBodySuite": ((1, 2), (2, 1)),
}
# nodes never built for one element alone: the element itself is the tree
LONE = {"AtomExpr", "ExprList", "TestList", "TestListStarExpr"}
LADDER = set("""Test OrTest AndTest NotTest EqualComparison NotEqualComparison LessComparison LessEqualComparison GreaterComparison
GreaterEqualComparison InComparison NotInComparison IsComparison IsNotComparison Expr XorExpr AndExpr ShiftLeftExpr ShiftRightExpr
PlusArithExpr MinusArithExpr MulTerm DivTerm FloorDivTerm ModuloTerm MatriceTerm UnaryPlus UnaryMinus UnaryInvert PowerExpr
AtomExpr Lambda""".split())
LADDER_RULES = set("test or_test and_test not_test comparison expr xor_expr and_expr shift arith term factor power atom_expr".split())
ORDER_EXEMPT = {"VarArgsList", "TypedArgsList"}
FWD = {"AtomString", "AtomExpr", "AssignmentStmt", "ExprList", "TestList"}
TOKEN_KINDS = set(TOKENS.values()) | {"AtomName"}
SCHEMA = {}
for _l in SHAPES.strip().splitlines():
    _c, _t = _l.split(":", 1)
    SCHEMA[_c] = [[a.strip().split("+") if a.strip() != "-" else None for a in f.split("|")] for f in _t.split(";")]


def direction(ctor, fi):
    return "fwd" if ctor in FWD else "rev"


def fits1(pm, spec, lab, kinds):
    """One stored thing against one specification item."""
    if lab is None: return False
    if spec in TOKEN_KINDS:
        if lab[0] != 't': return False
        m = pm.NAME if spec == "AtomName" else pm.bit[spec]
        return bool(lab[1]) and not lab[1] & ~m
    if lab[0] == 't': return False
    if spec == "LEFT": return lab == ('n', '(left operand)')
    if stands_for(pm, spec.split("=")[0], lab):
        return "=" not in spec or lab == ('c', spec.split("=")[1])
    if "=" in spec:
        spec, k = spec.split("=")
        return lab == ('n', spec) and kinds == frozenset([pm.astvars.index(k)])
    return lab[1] == spec


def fits(pm, specs, label, kinds):
    """None if the label (a tuple of things stored together) is admissible, else what is wrong."""
    if specs is None: return "is not part of this node"
    alts = [a for a in specs if a is not None]
    for a in alts:
        if len(a) == len(label) and all(fits1(pm, x, l, k) for x, l, k in zip(a, label, kinds)): return None
    # several kinds of token in one abstract value: each must fit
    if len(label) == 1 and label[0] and label[0][0] == 't':
        rest = label[0][1]
        for a in alts:
            if len(a) == 1 and a[0] in TOKEN_KINDS: rest &= ~(pm.NAME if a[0] == "AtomName" else pm.bit[a[0]])
        if label[0][1] and not rest: return None
    return "is %s instead of %s" % (" ".join(text(x) for x in label), " or ".join("+".join(a) for a in alts))


def text(l):
    if l is None: return "?"
    return rx.kinds_text(l[1]) if l[0] == 't' else l[1]


def optional(specs): return any(a is None for a in specs)


# --- rules the parser has no function for ---------------------------------------------------------------------------
# Node kinds a rule builds itself and rules whose tree it may hand on; used for the parts of nodes when the rule is
# written out where it is used.
def _outcomes():
    own = {}
    for ln in """
and_expr: AndExpr shift
and_test: AndTest not_test
ann_assign: AnnAssignStmt
arglist: ArgList
argument: Argument
arith: MinusArithExpr PlusArithExpr term
assert_stmt: AssertStmt
async_func_def: AsyncStmt
async_stmt: AsyncStmt
atom: AtomDictionary AtomElipsis AtomFalse AtomList AtomName AtomNone AtomNumber AtomSet AtomString AtomTrue AtomTuple
atom_expr: AtomExpr atom
break_stmt: BreakStmt
class_def: ClassDef
comp_for: CompForComprehension sync_comp_for
comp_if: CompIfComprehension
comp_iter: comp_for comp_if
comparison: EqualComparison GreaterComparison GreaterEqualComparison InComparison IsComparison IsNotComparison LessComparison LessEqualComparison NotEqualComparison NotInComparison expr
compound_stmt: async_stmt class_def decorated for_stmt func_def if_stmt try_stmt while_stmt with_stmt
continue_stmt: ContinueStmt
decorated: Decorated
decorator: Decorator
decorators: Decorators
del_stmt: DelStmt
dictorset_maker: DictionaryContainer SetContainer
dotted_as_name: DottedAsNameStmt
dotted_as_names: DottedAsNamesStmt
dotted_name: DottedNameStmt
elif_stmt: ElifStmt
else_stmt: ElseStmt
except_clause: ExceptClauseStmt
except_stmt: ExceptStmt
expr: Expr xor_expr
exprlist: ExprList expr star_expr
factor: UnaryInvert UnaryMinus UnaryPlus power
finally_stmt: FinallyStmt
flow_stmt: break_stmt continue_stmt raise_stmt return_stmt yield_stmt
for_stmt: ForStmt
func_body_suite: FuncBodySuite simple_stmt
func_def: FuncDef
func_type: FuncType
global_stmt: GlobalStmt
if_stmt: IfStmt
import_as_name: ImportAsName
import_as_names: ImportAsNamesStmt
import_from: ImportFromStmt
import_name: ImportNameStmt
import_stmt: import_from import_name
lambda_def: Lambda
named_expression: NamedExpr test
no_cond_test: lambda_def or_test
nonlocal_stmt: NonLocalStmt
not_test: NotTest comparison
or_test: OrTest and_test
parameters: Parameter
pass_stmt: PassStmt
power: PowerExpr atom_expr
raise_stmt: RaiseStmt
return_stmt: ReturnStmt
shift: ShiftLeftExpr ShiftRightExpr arith
simple_stmt: SimpleStmtList
small_stmt: assert_stmt del_stmt expr_stmt flow_stmt global_stmt import_stmt nonlocal_stmt pass_stmt
star_expr: StarExpr
stmt: compound_stmt patterns_match simple_stmt
subscript: Subscript
subscript_list: SubscriptList
suite: SuiteStmt simple_stmt
sync_comp_for: SyncCompForComprehension
term: DivTerm FloorDivTerm MatriceTerm ModuloTerm MulTerm factor
test: Test lambda_def or_test
testlist: TestList test
testlist_comp: TestListComp
testlist_star_expr: TestListStarExpr star_expr test
tfp_def: TFPDef
tfp_def_assign: TFPAssign tfp_def
trailer: CallTrailer DotNameTrailer IndexTrailer
try_stmt: TryStmt
type_list: TypeList
typed_args_list: TypedArgsList
var_args_assignments: VFPAssign vfp_def
var_args_list: VarArgsList
vfp_def: VFPDef
while_stmt: WhileStmt
with_item: WithItem
with_stmt: WithStmt
xor_expr: XorExpr and_expr
yield_expr: YieldExpr YieldFromExpr
yield_stmt: yield_expr
""".strip().splitlines():
        a, b = ln.split(":")
        own[a] = b.split()
    return own


OUTCOMES = _outcomes()


def stands_for(pm, spec, lab):
    """Whether the thing labelled lab is what rule spec, which has no function of its own, stands for."""
    base = spec.split("(")[0]
    if base not in pm.absent: return False
    for o in OUTCOMES.get(base, ()):
        if lab == ('c', o) or lab[0] == 'n' and lab[1].split("(")[0] == o or stands_for(pm, o, lab): return True
    return False


def references(text):
    """Names of the rules a grammar text mentions, fragments expanded."""
    frags = parse_rules(FRAG)
    out = set(); todo = [text]; seen = set()
    while todo:
        t = todo.pop()
        for m in _lex.finditer(t):
            n = m.group(2)
            if not n or n in TOKENS or n == "NAME": continue
            if n in frags:
                if n not in seen: seen.add(n); todo.append(frags[n])
            else: out.add(n.split("@")[0].split("(")[0])
    return out


def called(prog, f):
    """The functions f calls or mentions itself or in its closures."""
    from . import purity
    out = set(); todo = [f]; seen = {f.id}
    while todo:
        h = todo.pop()
        for t in h.locals:
            for i in purity.fn_values(prog, t if isinstance(t, int) else t[0], set()):
                out.add(i)
                g = prog.fns.get(i)
                if g is not None and g.local and g.has_body and "{closure" in g.path and i not in seen: seen.add(i); todo.append(g)
        for blk in h.blocks:
            for o, _ in purity.operands(blk): out.update(purity.fn_values(prog, o[1], set()))
            t = blk["t"]
            if t[0] == "call" and type(t[1]) is int: out.add(t[1])
    return out


def renamed(prog, rule_fns, takes):
    """Rules whose function has been given another name: found by who calls it and whom it calls."""
    texts = {}
    for n, t in parse_rules(GRAMMAR).items():
        b = n.split("@")[0].split("(")[0]
        texts[b] = texts.get(b, "") + " | " + t
    missing = [n for n in texts if n not in rule_fns]
    if not missing: return {}
    refs = {n: references(t) for n, t in texts.items()}
    users = {}
    for n, r in refs.items():
        for x in r: users.setdefault(x, set()).add(n)
    name_of = {f.id: n for n, f in rule_fns.items() if n in texts}
    cands = [f for f in prog.local if f.has_body and f.id not in name_of and takes(f)]
    callees = {f.id: called(prog, f) for f in prog.local if f.has_body}
    got = {}
    for _ in range(3):
        best = {}
        for n in missing:
            if n in got: continue
            sc = []
            for f in cands:
                if f in got.values(): continue
                cl = {name_of[i] for i in callees[f.id] if i in name_of}
                us = {name_of[i] for i, c in callees.items() if f.id in c and i in name_of}
                a = len(cl & refs[n]) / max(1, len(cl | refs[n])) if cl or refs[n] else 1.0
                b = len(us & users.get(n, set())) / max(1, len(us | users.get(n, set())))
                if a >= .5 and b >= .5: sc.append((a + b, f.id, f))
            sc.sort(key=lambda x: (-x[0], x[1]))
            if sc and (len(sc) == 1 or sc[0][0] > sc[1][0]): best[n] = sc[0]
        fresh = False
        for n, s in sorted(best.items(), key=lambda x: -x[1][0]):
            if s[2] in got.values(): continue
            got[n] = s[2]; name_of[s[2].id] = n; fresh = True
        if not fresh: break
    return got
