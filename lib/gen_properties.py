import json, os
L='crates/joker/src/lexer.rs'
def p(id,title,st,over,q,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    return d
SP='src/parser.rs'
PT='The parser\'s tests need fixture files and crates that are not available, so nothing runs; '
FEW='The one lexer test runs a fixed list of short sources; '
P=[
p('L01','Tokenizing any text terminates without panicking and ends in EOF',
 'For every source text and every choice of whether a slash is an operator, asking for tokens until end of input terminates, never panics (also with overflow checks on) and delivers at most one token per source character; every problem is reported as an error value. Once the end-of-input token has been delivered, every further request delivers it again. After an error the lexer may still be asked for more tokens without panicking.',
 ['inputs'],'all texts over Unicode scalar values, all per-token slash contexts',FEW+'texts cut off in the middle of an escape, number or comment, or with out-of-range values, are mostly absent.',
 [L,'crates/joker/src/reader.rs'],[('error results instead of panics',L+' read_*'),('three-character look-ahead buffer','crates/joker/src/reader.rs Reader::peek')],['Lexer::read_token']),
p('L02','Tokens tile the source: spans, order and text agree with the input',
 'Token spans are ordered, non-empty (except end of input) and within the text; everything between two tokens is white space or comments and nothing else. For tokens whose value or recorded source determines their spelling (punctuators, words without escapes, strings, numbers, regular expressions) the text covered by the span is exactly that spelling. The end-of-input token sits exactly at the end of the text.',
 ['inputs'],'all texts, all tokens up to the first error',FEW+'it never looks at locations.',
 [L,'crates/joker/src/reader.rs','crates/joker/src/track.rs'],[('span tracker',L+' SpanTracker'),('position bookkeeping','crates/joker/src/reader.rs Iterator::next')],['Token.location'],
 [('curr_posn','offset, line and column of the next character','crates/joker/src/reader.rs')]),
p('L03','Line and column of every token are those of its offset in the text',
 'For every token the line and column of its start and end, and the position the lexer reports after reading it, equal what counting in the source gives: the line is the number of line terminators (LF, CR, CR LF as one, U+2028, U+2029) before the offset and the column the number of characters since the last of them. This holds wherever the terminators occur: between tokens, in comments, and in line continuations inside strings.',
 ['inputs'],'all texts, all tokens up to the first error',FEW+'it never looks at locations, and CR LF handling depends on what precedes it.',
 ['crates/joker/src/reader.rs',L,'crates/joker/src/track.rs'],[('line counting','crates/joker/src/reader.rs Iterator::next'),('newline handling',L+' skip_newlines, read_newline_into')],['Token.location','Lexer::posn']),
p('L04','The newline flag tells whether a line terminator precedes the token',
 'A token (end of input included) carries the newline flag exactly if at least one line terminator lies between it and the previous token or the start of the text, whether on its own, ending a line comment or an HTML-like comment, or inside a block comment. A line terminator inside a string token does not count.',
 ['inputs'],'all texts, all tokens up to the first error','Automatic semicolon insertion rests on this flag; the test checks tokens, not flags, for most sources.',
 [L],[('found_newline',L+' read_next_token'),('skip_block_comment result',L)],['Token.newline']),
p('L05','Punctuators are read by maximal munch',
 'Wherever a punctuator may start, the lexer delivers the longest ECMAScript 2015 punctuator that matches the text there, as the token of that punctuator, consuming exactly its characters. A dot followed by a decimal digit starts a number instead, and a slash is a punctuator only when the caller says an operator is expected and it starts no comment.',
 ['inputs'],'all texts, all contexts',FEW+'only a few neighbouring pairs are covered.',
 [L],[('punctuator dispatch',L+' read_next_token, read_punc*')],['Token.value','Token.location']),
p('L06','String literals: value and source are those of the standard',
 'A string token ends at the first unescaped matching quote; its value is the ECMAScript string value (simple, hexadecimal, Unicode, brace and legacy octal escapes, line continuations contributing nothing) and its recorded source is the exact literal text with quotes. A line terminator or the end of input before the closing quote, or a malformed escape, is reported as an error instead. (The value of an escape that denotes a lone surrogate or lies above U+10FFFF is left open.)',
 ['inputs'],'all texts containing string literals',FEW+'escapes are sampled with one or two values each.',
 [L],[('string reader',L+' read_string, read_string_escape, read_unicode_escape_seq')],['StringLiteral.value','StringLiteral.source']),
p('L07','Numeric literals have the correctly rounded value',
 'The value of a number token is the double nearest to the mathematical value of the literal (ties to even): decimal with fraction and exponent, binary, octal, hexadecimal, and legacy octal (decimal when a digit 8 or 9 occurs), however many digits there are. The value computed from the token\'s recorded representation is the same double.',
 ['inputs'],'all texts containing numeric literals',FEW+'long radix literals where rounding matters do not occur.',
 [L,'crates/joker/src/token.rs'],[('number reader',L+' read_number, read_radix_int'),('NumberSource::value','crates/joker/src/token.rs')],['NumberLiteral.value']),
p('L08','Numeric literals: exact acceptance, extent and recorded form',
 'A numeric literal extends exactly as far as the ECMAScript grammar (with legacy octal) says, and its recorded representation names the radix, the case of the radix or exponent marker, the sign of the exponent and exactly the digits written. Missing digits, a missing exponent, a digit outside the radix, or a digit or identifier start directly after the literal is an error.',
 ['inputs'],'all texts containing numeric literals',FEW+'combinations of dot, exponent, legacy octal and what follows are a product.',
 [L],[('number reader',L+' read_number, read_exp_part, read_radix_int'),('DigitAfterNumber/IdAfterNumber checks',L+' read_number')],['NumberLiteral.source','Lexer::read_token errors']),
p('L09','Words: identifier, reserved or contextual, classified exactly',
 'A maximal run of identifier characters that starts with an identifier start is one word token: the reserved-word token exactly for the ES2015 reserved words, null, true and false, and an identifier with exactly that name otherwise. An identifier is given its predefined atom exactly if it is one of the documented contextual words (such as let, yield, get, async).',
 ['inputs'],'all texts containing words',FEW+'near misses of each keyword (case, prefix, one letter off) are not tried.',
 [L,'crates/joker/src/word.rs','crates/joker/src/char.rs'],[('word table','crates/joker/src/word.rs'),('word reader',L+' read_word_parts, read_word')],['TokenData::Identifier','TokenData::Reserved']),
p('L10','Escapes in identifiers are decoded, checked, and never make keywords',
 'An identifier written with \\uXXXX or \\u{...} escapes has the decoded text as its name and is never given a contextual atom; an escape that denotes a character not allowed at that place is an error. A word that spells a reserved word with the help of an escape is rejected. Malformed and overlong escapes are errors, never wrong names.',
 ['inputs'],'all texts containing words with escapes',FEW+'one or two escapes are sampled.',
 [L],[('escape reader',L+' read_word_escape, read_unicode_escape_seq'),('reserved check',L+' read_word')],['TokenData::Identifier','Lexer::read_token errors']),
p('L11','Regular expression literals: extent, body and flags',
 'When an operator is not expected, a slash that starts no comment begins a regular expression literal that ends at the first slash neither escaped nor inside a character class, followed by the maximal run of identifier characters as flags; body and flags are recorded exactly. A line terminator anywhere in the body (also after a backslash or inside a class) or the end of input is an error. When an operator is expected the same slash is division.',
 ['inputs'],'all texts, all slash contexts',FEW+'classes, escapes and their nesting are sampled.',
 [L],[('regexp reader',L+' read_regexp, read_regexp_char, read_regexp_class, read_regexp_backslash')],['RegExpLiteral']),
p('L12','White space and comments are skipped exactly',
 'Between tokens exactly the ECMAScript white space and line terminators, line comments, block comments and the HTML-like comments are skipped: <!-- anywhere comments out the rest of its line, --> does so only at the start of a line (after white space or comments, also one that spans lines) or of the text, and otherwise is decrement followed by greater-than. A line comment ends at any of the four line terminators, a block comment at the first */, and a block comment that is never closed is an error.',
 ['inputs'],'all texts',FEW+'comment forms and their neighbours are sampled.',
 [L,'crates/joker/src/char.rs'],[('trivia loop',L+' read_next_token'),('comment skipping',L+' skip_line_comment, skip_block_comment')],['Token.location','Token.newline']),
p('L13','Lookahead never changes the token stream',
 'Any interleaving of reading, peeking, skipping, looking again, re-reading and giving tokens back delivers the same tokens, locations, flags and errors as plainly reading, in the same order, with given-back tokens delivered again first, last given back first. Peeking at a token any number of times does not consume it.',
 ['histories','inputs'],'all operation sequences that keep the documented limits (at most two tokens waiting), all texts','The tests read tokens straight through and never interleave the operations.',
 [L],[('lookahead buffer',L+' peek_token, read_token, unread_token')],['Lexer::peek_token','Lexer::skip_token','Lexer::reread_token','Lexer::unread_token'],
 [('lookahead','tokens read ahead or given back',L)]),
p('L14','Lexical errors name the right problem and the offending character',
 'When the text has no token at a place, the error reported there is the one the grammar assigns: unterminated string, comment or regular expression (with the offending line terminator, or none at end of input), invalid or missing digits, missing exponent, digit or identifier after a number, malformed or forbidden identifier escape, escaped reserved word, or illegal character, together with the character, code point or word it concerns. Texts that are lexically correct produce no error.',
 ['inputs'],'all texts with at least one lexical error',FEW+'errors are compared for a few sources only.',
 [L,'crates/joker/src/error.rs'],[('error construction',L+' read_*')],['joker::error::Error']),
p('L15','Names, atoms and reserved words convert to and from text faithfully',
 'Converting any text to a name and back gives the same text; the name is a predefined atom exactly for the documented contextual words. Every atom and reserved word has its own spelling, so distinct ones differ and each converts back to itself.',
 ['inputs'],'all strings, all words','The tests use a handful of names.',
 ['crates/joker/src/word.rs'],[('word macros and map','crates/joker/src/word.rs')],['Name','Atom','Reserved']),
p('L16','Literal tokens compare by meaning, not by spelling',
 'Two string literals are equal exactly if their values are, two number literals exactly if their values compare equal as doubles, and two regular expressions exactly if their bodies are the same and their flags are the same up to order (each as often). Recorded source text never influences equality, and equality is symmetric.',
 ['inputs'],'all pairs of literals','Tests compare tokens with this very equality and never test it.',
 ['crates/joker/src/token.rs'],[('PartialEq implementations','crates/joker/src/token.rs')],['StringLiteral','NumberLiteral','RegExpLiteral','TokenData']),
p('L17','A token is read the same way whatever came before it',
 'Once a token has ended, the rest of the text is tokenized exactly like that text on its own on a line that already has a token: the same kinds, values, newline flags and errors, with locations moved along. Nothing about earlier tokens, comments, escapes or line breaks leaks into later ones.',
 ['histories','inputs'],'all pairs of a first part and a rest that meet at a token boundary','Each test source is read by a fresh lexer and holds one or two tokens.',
 [L,'crates/joker/src/reader.rs'],[('lexer state between tokens',L+' Lexer fields')],['Lexer::read_token']),
p('L18','A numeric representation determines its value',
 'For every well-formed representation of a number built through the API (integer, fraction, exponent and radix parts, with either letter case and any sign) its value is the double nearest to the number it spells. Letter case of markers, leading zeros, an explicit plus sign and an absent empty fraction or integer part do not matter.',
 ['inputs'],'all representations','Only literals the lexer produced are ever evaluated, and few of them.',
 ['crates/joker/src/token.rs'],[('NumberSource::value, Exp, Radix','crates/joker/src/token.rs')],['NumberSource::value']),
p('L19','Characters are classified as Unicode and ECMAScript say',
 'Every code point that is ID_Start, $ or _ starts a one-character identifier, every ID_Continue, ZWNJ or ZWJ continues one, and no other code point does; every ECMAScript white space character and line terminator separates tokens; every remaining character outside the punctuators and quotes is an illegal-character error. This holds across all planes.',
 ['inputs'],'all Unicode scalar values','The test uses ASCII and a few accented letters.',
 ['crates/joker/src/char.rs',L],[('character classes','crates/joker/src/char.rs ESCharExt')],['Lexer::read_token']),
p('T01','Locations combine and are removed without touching the value',
 'The span of a range runs from the start of its first to the end of its last located part and is absent when either has none. Untracking removes every location from a value, however it is nested in options, boxes and vectors, and nothing else..',
 ['inputs'],'all positions, all nestings built by the harness','No test touches these functions.',
 ['crates/joker/src/track.rs'],[('span, Untrack','crates/joker/src/track.rs')],['span','Untrack::untrack','TrackingRef']),
p('J01','Typed JSON access returns the value or says exactly what is wrong',
 'Asking a JSON object for a field as a given type (string, array, object, boolean, integer, float or number), or converting a JSON value to it, succeeds exactly when the field is there and has that type, and returns precisely the stored content. Otherwise the error is a missing-field error naming the field, or a type mismatch naming the expected type and the actual one.',
 ['inputs'],'all objects, all values, all types','unjson has no tests.',
 ['crates/unjson/src/unjson.rs','crates/unjson/src/ty.rs','crates/unjson/src/error.rs'],[('Unjson and ExtractField implementations','crates/unjson/src/unjson.rs')],['get_*','extract_*','into_*','to_*']),
p('J02','Optional JSON fields: null is absent, anything else must have the type',
 'The optional form of every typed access and conversion gives nothing for null, the content for a value of the type, and a type mismatch (naming expected and actual type) for anything else; a field that is not there at all is a missing-field error.',
 ['inputs'],'all objects, all values, all types','unjson has no tests.',
 ['crates/unjson/src/unjson.rs'],[('*_opt accessors','crates/unjson/src/unjson.rs')],['get_*_opt','extract_*_opt','into_*_opt','to_*_opt']),
p('J03','Reading a JSON field leaves the object alone, extracting takes only it',
 'Reading access never changes the object. Extracting a field removes exactly that field, whatever the outcome of the conversion, and leaves all others as they were; extracting an absent field changes nothing.',
 ['inputs','histories'],'all objects, all accessors','unjson has no tests.',
 ['crates/unjson/src/unjson.rs'],[('extract_field','crates/unjson/src/unjson.rs')],['get_*','extract_*']),
p('J04','JSON numbers come out without loss on every access route',
 'A stored integer is returned unchanged as a signed or unsigned integer whenever it fits, and rejected with a type mismatch rather than wrapped or truncated when it does not; as a float or number it is the nearest double. Getting, extracting and converting the value directly all agree.',
 ['inputs'],'all 64-bit integers and doubles, all numeric accessors','unjson has no tests.',
 ['crates/unjson/src/unjson.rs'],[('i64/u64/f64/number accessors','crates/unjson/src/unjson.rs')],['get_i64','to_u64','extract_number']),
p('P01','Parsing any text returns a result: no panic, no hang',
 'For every text, parsing it as a sloppy script, strict script, module, or as a program whose goal is decided afterwards terminates and gives a syntax tree or an error value; it never panics, also with overflow checks on. This includes texts with syntax the parser does not support and texts cut off anywhere.',
 ['inputs'],'all texts, all entry points','The parser\'s own tests need files that are absent and do not build offline; unsupported and truncated syntax is what they leave out.',
 [SP,'src/lib.rs','src/track.rs','src/state.rs',L],[('error results instead of panics',SP),('unsupported syntax reported',SP+' statement list items')],['script','strict','module','program']),
p('P02','Expressions group by the ECMAScript operator table',
 'Every sequence of binary, unary, postfix, conditional, assignment and comma operators that the ECMAScript 2015 grammar accepts parses to the one tree the grammar gives: precedence and associativity of all levels, parentheses overriding them, and in not being an operator in a for header. Sequences the grammar does not accept are rejected.',
 ['inputs'],'all operator sequences within the bounds, all operator and operand choices',PT+'a product of operators cannot be sampled.',
 [SP,'src/stack.rs','src/expr.rs','src/tokens.rs'],[('operator stack','src/stack.rs'),('infix/prefix/postfix classification','src/tokens.rs'),('allow_in context','src/context.rs')],['Expr']),
p('P03','Member access, calls, new, literals and function expressions parse right',
 'Dots, brackets, calls, new with and without arguments, new.target, array literals with holes and spreads, object literals with properties, shorthands, accessors, methods and generator methods, function and generator expressions, regular expressions and simple literals give exactly the ECMAScript 2015 tree with names, values and operands in place, in any combination; malformed ones are rejected.',
 ['inputs'],'all combinations within the bounds',PT+'combinations of suffixes and nested new are a product.',
 [SP,'src/expr.rs'],[('member/call suffixes',SP+' member_base_expression, more_suffixes'),('new and its arguments','src/expr.rs, '+SP+' new_expression, more_new_expression'),('object and array literals',SP)],['Expr','Prop','Fun']),
p('P04','Statements and declarations parse to the tree the grammar gives',
 'Every ECMAScript 2015 statement (blocks, variable, let and const declarations, if with else to the nearest if, while, do-while, all for forms including in and of, switch, try, throw, with, labels, debugger, empty and expression statements) and function and generator declarations, nested anyhow, parse to the corresponding tree with every part in its place; malformed ones are rejected.',
 ['inputs'],'all statement combinations within the bounds',PT+'for headers and dangling else combine too many ways to sample.',
 [SP],[('statement dispatch',SP+' statement, declaration'),('for header disambiguation',SP+' for_statement')],['Stmt','Decl','StmtListItem']),
p('P05','Semicolons are inserted exactly where the standard says',
 'A missing semicolon is supplied exactly when the offending token is preceded by a line terminator, is a closing brace, or the text has ended, never inside a for header and never as an empty statement, and after do-while also elsewhere; after return, break, continue and throw, and before postfix ++ and --, a line terminator ends the statement. Everywhere else a missing semicolon is an error, and a following line that can continue the statement does.',
 ['inputs'],'all texts within the bounds, all kinds of gaps between tokens',PT+'each statement kind meets each following token with each kind of gap.',
 [SP,'src/track.rs',L],[('semicolon handling','src/track.rs SpanTracker::end_with_auto_semi'),('newline flag',L)],['Stmt','Semi']),
p('P06','break, continue, return and labels are checked against their context',
 'break and continue without label are accepted exactly inside an enclosing loop (break also a switch) of the same function, return exactly inside a function; a labelled break needs an enclosing statement of that label in the same function and a labelled continue one whose labelled statement is a loop. A switch has at most one default. Leaving a statement or function restores what was allowed before it.',
 ['inputs'],'all nestings within the bounds',PT+'state restored wrongly shows only in what follows a nested construct.',
 [SP,'src/context.rs','src/state.rs'],[('iteration, switch, function and label context','src/context.rs, '+SP)],['accept/reject'],
 [('context','what the enclosing statements allow, and the labels in scope','src/context.rs')]),
p('P07','Only valid targets can be assigned to, updated or destructured into',
 'The left side of =, of compound assignment, of ++ and --, and of for-in and for-of is accepted exactly when it is an identifier, a member access or, where the grammar allows, an array or object literal that is a valid pattern, at any depth; the literal then becomes the corresponding pattern with every element, name, hole and rest in place.',
 ['inputs'],'all target expressions within the bounds',PT+'the reinterpretation of a literal as pattern is recursive.',
 [SP,'crates/easter/src/cover.rs','src/expr.rs'],[('cover grammar','crates/easter/src/cover.rs'),('target check',SP)],['Assign','Patt','accept/reject']),
p('P08','Strict mode is entered, applied and left as specified',
 'Code is strict exactly when parsed as strict script or module, when a directive prologue holds a string literal written precisely use strict, or when it is nested in such code; function bodies end their own strictness. In strict code with statements and strict-reserved words as identifiers or bindings are rejected, likewise binding eval and arguments, and in modules await; elsewhere, and as property names, the same words are ordinary.',
 ['inputs'],'all words and positions within the bounds, all directive spellings',PT+'each word in each position in each mode is a product.',
 [SP,'src/atom.rs','src/context.rs','crates/easter/src/stmt.rs'],[('mode tracking','src/context.rs, src/state.rs'),('reserved checks','src/atom.rs'),('directive recognition','crates/easter/src/stmt.rs Dir::pragma')],['accept/reject','Script.dirs']),
p('P09','A program parsed before its goal is known agrees with parsing for the goal',
 'Parsing a text as a program and then asking for a sloppy script, strict script or module gives exactly the outcome of parsing the text as that goal from the start: the same tree when it is accepted and an error when it is not.',
 ['inputs','histories'],'all texts within the bounds, all three goals',PT+'deferred checks accumulate over the whole text.',
 ['src/lib.rs',SP,'src/state.rs','src/atom.rs'],[('deferred checks','src/lib.rs Program, src/state.rs'),('goal-dependent words','src/atom.rs')],['Program::script','Program::strict','Program::module']),
p('P10','A slash is division after an operand and a regular expression elsewhere',
 'Wherever an expression may begin a slash starts a regular expression literal and wherever an operand has just ended it is a division or divide-assign, whatever the preceding construct is (keywords, parentheses of conditions, blocks, function bodies, object literals, postfix operators, line breaks).',
 ['inputs'],'all preceding constructs and following characters within the bounds',PT+'the choice depends on the parser position, not on the previous token.',
 [SP,'src/state.rs',L],[('operator context of lookahead','src/state.rs peek, peek_op, read_op')],['Expr','accept/reject']),
p('P11','Every location points at the text of its node',
 'In a parsed script every statement, declaration, expression, property, pattern, name and literal that carries a location carries the place of its own text: it starts with the node\'s first token and ends with its last one (the semicolon that ends a statement included, nothing of an inserted one), whatever white space, comments and newlines stand before, between and after the tokens and whatever the parser has looked at ahead; the line and column agree with the offset. Operators, where they carry a location, carry their own.',
 ['inputs'],'all programs within the bounds, all kinds of gaps around every token',PT+'the tests strip all locations before they compare.',
 [SP,'src/track.rs','crates/easter/src/*.rs',L],[('span construction','src/track.rs, '+SP),('append_to and from_* helpers','crates/easter/src/expr.rs, src/expr.rs'),('token locations',L)],['script','Span']),
p('P12','Any text is accepted or rejected as the grammar demands',
 'Every text made of any tokens or characters, including ones that make no sense together, is accepted exactly when it is an ECMAScript 2015 script (or module) in the supported subset, and then with the tree of the grammar.',
 ['inputs'],'all token pairs and short token sequences, all short character sequences, both goals',PT+'nonsense sequences are where error handling and lookahead go wrong.',
 [SP,'src/expr.rs','src/tokens.rs',L],[('token dispatch',SP),('token classification','src/tokens.rs')],['accept/reject','Script','Module']),
p('P13','Rejected programs name the violated rule',
 'When a text breaks one early rule of the language at the first offending point, the error is the one for that rule: return outside a function, break or continue without a target, unknown label, continue to a non-loop label, a second default, with in strict code, throw without argument, try without handler, an invalid assignment target, or a strict-reserved word used as name or binding.',
 ['inputs'],'all texts within the bounds that break one of these rules',PT+'errors are not looked at.',
 [SP,'src/error.rs','src/lib.rs'],[('error constructors','src/error.rs, '+SP)],['Error']),
p('P14','A syntax error points at the fault',
 'When a text is rejected by the parser (not by the lexer), the error carries the location of the fault: the token with which the text stops being the beginning of any program, or, where an early rule is broken, the token, name, label, statement or assignment target that breaks it; the line and column of that location agree with its offset, and the part of an assignment target named as invalid lies within the target.',
 ['inputs'],'all rejected texts within the bounds, of all parts of the grammar',PT+'where an error stands depends on what has been peeked at and taken back, and no test looks at it.',
 [SP,'src/error.rs','src/state.rs','src/track.rs','crates/easter/src/cover.rs',L],[('error constructors','src/error.rs, '+SP),('unexpected and reread','src/parser.rs unexpected, src/state.rs'),('semicolon insertion errors','src/track.rs')],['Error']),
p('E01','A syntax tree survives the way through its ESTree JSON form',
 'Reading the ESTree (JSON) form of any program in the supported subset gives exactly the tree of that program: every node kind, operator, literal value, name, optional part, list element and hole, directive, generator flag, accessor kind and declaration kind in place, however numbers are represented in the JSON.',
 ['inputs'],'all programs within the bounds, all operators, all JSON number representations','The ESTree reader has no tests of its own; it is used only by the parser tests, which do not run.',
 ['crates/estree/src/expr.rs','crates/estree/src/stmt.rs','crates/estree/src/node.rs','crates/estree/src/obj.rs','crates/estree/src/fun.rs','crates/estree/src/decl.rs','crates/estree/src/lit.rs','crates/estree/src/tag.rs'],
 [('node dispatch','crates/estree/src/expr.rs into_expr, stmt.rs into_stmt_list_item'),('field access','crates/estree/src/node.rs ExtractNode'),('directive prologue','crates/estree/src/node.rs extract_script'),('rest parameters','crates/estree/src/node.rs extract_params')],['IntoScript::into_script']),
p('E02','Malformed ESTree JSON is rejected, never misread, never a panic',
 'When one part of one node of a program\'s ESTree form is missing, of the wrong JSON type, an unknown word, or a node of an unknown or missing type, and the tree depends on that part, reading the program is an error; whatever is changed, reading never panics.',
 ['inputs'],'all nodes and parts of the listed programs, 25 kinds of damage (absent, wrong JSON type, wrong node, lists of wrong things, an item twice, parts exchanged)','The ESTree reader has no tests of its own.',
 ['crates/estree/src/expr.rs','crates/estree/src/stmt.rs','crates/estree/src/node.rs','crates/estree/src/obj.rs','crates/estree/src/fun.rs','crates/estree/src/tag.rs','crates/unjson/src/unjson.rs'],
 [('type checks','crates/unjson/src/unjson.rs, crates/estree/src/tag.rs'),('errors instead of panics','crates/estree/src/error.rs')],['IntoScript::into_script']),
p('R01','Removing the locations of a tree changes nothing else',
 'After untrack no location is left anywhere in a script, module or program, every statement end is an explicit one without position, and all else is as before: the same nodes, names, literals and operators in the same places. Before it, the location a node reports of itself is the one stored in it.',
 ['inputs'],'all trees of the programs within the bounds, all entry points','Trees without locations are what every comparison of trees rests on; one forgotten field shows only for trees that hold it.',
 ['crates/derive/src/lib.rs','crates/joker/src/track.rs','crates/easter/src/expr.rs','crates/easter/src/stmt.rs','crates/easter/src/punc.rs','crates/easter/src/obj.rs','crates/easter/src/id.rs',SP],
 [('derived Untrack, TrackingRef','crates/derive/src/lib.rs'),('written by hand','crates/easter/src/id.rs, obj.rs, punc.rs; '+SP+' Program')],['Untrack::untrack','TrackingRef::tracking_ref']),
p('R02','Operators and their spellings correspond one to one',
 'Each string is read as a unary, binary, logical or assigning operator exactly when it is the ECMAScript spelling of one, and as that one; writing an operator gives its spelling back. Of two binary or logical operators one binds tighter exactly when the grammar says so, and an assignment binds least.',
 ['inputs'],'all short strings, all operators and pairs of operators','There are no tests of the operator tables.',
 ['crates/easter/src/punc.rs'],[('FromStr, Display, Precedence tables','crates/easter/src/punc.rs')],['Binop','Logop','Unop','Assop']),
]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'),'w') as f:
    for x in P: 
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
