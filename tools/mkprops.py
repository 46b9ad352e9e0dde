#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays valid JSON)."""
import json, os
J='crates/joker/src/'
def P(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=hook
    return {'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a}
LEX=[J+'lexer.rs',J+'reader.rs']
TEST='The only running test lexes 145 fixed one-token snippets, with exactly two straight read calls on each intact string; '
HOOK='cfg(esprit_sim): esprit::sim::{script,strict,module,program} over any character iterator'
props=[
P('C01','Lexing any finite source is total: a token or an error, never a crash or hang',
 'Whatever characters a source delivers (cut off at any point, corrupted, garbled) and whatever legal sequence of lexer calls a client makes, every call returns a token or a reported error: it never panics, aborts, overflows or loops. Each call does work, and allocates memory, proportional to the characters it consumes, and repeatedly reading reaches the end-of-input token or an error within a bounded number of calls.',
 ['inputs','fault_sequences','crash_points','histories'],'every character source, every truncation or corruption point, every legal sequence of read/peek/skip/unread/re-read calls with either goal',
 TEST+'none ends inside a construct, and none continues after an error.',
 LEX+[J+'char.rs',J+'word.rs',J+'token.rs'],
 [('end-of-input arms of every scanning loop',J+'lexer.rs'),('error returns instead of unwraps',J+'lexer.rs'),('bounded digit accumulation',J+'lexer.rs add_digits')],
 observe=['return value or unwinding of every Lexer method','characters pulled from the source per call']),
P('C02','Look-ahead history never changes the token stream',
 'However a client interleaves peeking, re-peeking, reading, skipping, un-reading (up to two tokens) and re-reading, it receives exactly the tokens of the delivered text under the lexical grammar, each once, in order, whole and unaltered. They are the tokens a plain read-only client would get that asks, for each token, with the goal (operand or operator position) of the call that first scanned it; a goal passed for an already buffered token has no effect.',
 ['histories','inputs'],'every legal sequence of look-ahead operations and goals over every source',
 TEST+'peek, skip, unread, re-read and re-peek are never called at all.',
 LEX,[('token look-ahead deque',J+'lexer.rs Lexer::lookahead'),('peek/read/skip/unread/reread/repeek',J+'lexer.rs')],
 state=[('lookahead','scanned but unconsumed tokens',J+'lexer.rs')],observe=['every token returned, with span, newline flag, value and source text']),
P('C03','End of input is final',
 'Once the source has reported its end, the lexer reports end of input for ever: every later call yields the end-of-input token at one and the same position, the position after the last delivered character. The source is not asked again, so a source that would resume, or fail, after its end cannot add tokens, change the position or crash the lexer.',
 ['fault_sequences','histories','crash_points'],'every point at which a source ends, stalls (ends, then would resume) or becomes unusable after its end, inside or between tokens, and every later call history',
 TEST+'the source is always a complete, fused string iterator and at most one end-of-input token is read.',
 LEX,[('fused character source',J+'reader.rs Reader::chars'),('end-of-input token without side effects',J+'lexer.rs read_next_token')],
 observe=['tokens and positions after the end','polls of the source after it ended']),
P('C04','Token positions account for every delivered character',
 'Token extents are ordered, never overlap, and every character of the delivered text lies in exactly one token or in whitespace, a line terminator or a comment between tokens; the text of an extent is the text of its token. Offset counts characters, line counts the line terminators before it (a CR LF pair is one), column counts characters since the last terminator; the position the lexer reports is the end of the furthest token scanned, whatever calls were made in between.',
 ['inputs','histories','fault_sequences'],'every source text, including very long lines, tokens and files, mixed line-terminator conventions, truncation and corruption, under every call history',
 TEST+'no position is compared anywhere.',
 [J+'reader.rs',J+'track.rs',J+'lexer.rs'],[('position advance on each consumed character',J+'reader.rs Reader::next'),('span construction',J+'lexer.rs SpanTracker')],
 state=[('curr_posn','offset, line and column of the next unconsumed character',J+'reader.rs')],observe=['Token::location','Lexer::posn()']),
P('C05','The lexer pulls from its source lazily and within a fixed read-ahead',
 'Creating a lexer, asking its position and any call answered from buffered tokens pull nothing from the source; scanning a token never pulls more than four characters beyond the position the lexer then reports. So an incremental or interactive source never waits for input the token does not need, dropping a lexer leaves the rest of a borrowed source unread, and memory held does not grow with skipped whitespace and comments.',
 ['histories','crash_points','inputs'],'every call history and every point at which a client stops, over every source including unbounded trivia',
 TEST+'what has been pulled from the iterator is never observed.',
 LEX,[('four-character look-ahead buffer',J+'reader.rs Reader::ahead'),('at most four characters of trivia look-ahead',J+'lexer.rs read_next_token')],
 state=[('ahead','characters pulled but not consumed',J+'reader.rs')],observe=['polls of the source against the reported position','live heap bytes']),
P('C06','Lexers are isolated and deterministic',
 'What a lexer returns depends only on the characters its own source delivers and the calls made on it. It is the same however its calls are interleaved with other lexers (on one thread, on several, or from inside another lexer\'s source), whichever thread each call is made on, whatever earlier lexers did or how they ended, and whatever the process\'s hash seeds are.',
 ['schedules','histories','fault_sequences'],'every interleaving of several lexers, every migration between threads, every nesting of sources, every hash seed, neighbours that fail or are dropped midway',
 TEST+'it runs one lexer at a time on one thread.',
 LEX+[J+'word.rs'],[('all state owned by the Lexer value',J+'lexer.rs Lexer'),('keyword tables built per lexer',J+'word.rs Map')],
 observe=['the complete result log of each lexer, alone and interleaved']),
P('C07','Line-break information survives every call history and fault',
 'A token\'s newline flag is true exactly when a line terminator (including one inside a block comment) lies between it and the preceding token, and a --> comment is recognised exactly when only whitespace and comments precede it on its line. Both hold whichever calls scanned, skipped, buffered or put back the tokens around the break, and the flag a token was first delivered with never changes.',
 ['histories','inputs','fault_sequences'],'every layout of line terminators, comments and tokens, every look-ahead history around them, every corruption or truncation of the layout',
 TEST+'the newline flag is never compared, and no snippet has a token on an earlier line.',
 [J+'lexer.rs',J+'token.rs'],[('newline flag set once per scanned token',J+'lexer.rs read_next_token'),('line-start state',J+'lexer.rs Lexer::empty_line')],
 state=[('empty_line','no token yet on this line',J+'lexer.rs')],observe=['Token::newline','HTML-like comments taken or not']),
P('C08','A cut-off source yields a prefix of the tokens, never a torn token',
 'If a source ends early, at any character, every token that the missing text could not have extended is delivered exactly as from the complete source, and what remains is lexed exactly as the text that did arrive. A string, regular expression, block comment, escape, exponent or radix prefix cut before it is complete is an error, never a shortened token or a clean end of input.',
 ['crash_points','inputs'],'every source text and every truncation point, under either goal',
 TEST+'a handful of hand-written unterminated snippets stand in for all cut points.',
 LEX,[('unterminated-construct errors',J+'lexer.rs read_string, read_regexp, skip_block_comment, read_exp_part, read_digit_into')],
 observe=['tokens and errors from the cut source against the full one']),
P('C09','Lexical errors and source failures are contained',
 'When scanning fails, the failing call alone reports it, as an error value for bad text or as the source\'s own unwinding payload if the source failed: tokens already buffered or put back are still delivered intact, and a peek that fails buffers nothing. Later calls carry on from the position then reported, which never moves backwards, with the tokens of the text from there on; a failure never crashes, hangs or corrupts the lexer.',
 ['fault_sequences','histories','crash_points'],'every place a lexical error or a one-off source failure can strike, inside or between tokens, with any buffered tokens, followed by any calls',
 TEST+'each lexer is abandoned at its first error and no source ever fails.',
 LEX+[J+'error.rs'],[('buffer updated only after a successful scan',J+'lexer.rs peek_token'),('position advanced only by consumed characters',J+'reader.rs')],
 observe=['errors, unwinding payloads, tokens and positions after a failure']),
P('C10','Parsing any character stream is total',
 'Each parser entry point (script, strict, module, program), given any stream of characters, cut off, corrupted, stalled or failing at any point, returns a program or an error; a failure of the source itself surfaces as that failure. It never panics of its own accord, overflows, loops, or asks the source for more after it has ended, for nesting within what the stack the caller provides can hold; how long a program is, as opposed to how deeply it nests, costs no stack and memory only in proportion.',
 ['inputs','fault_sequences','crash_points'],'every character stream of bounded nesting, every fault point, every entry point',
 'The parser tests are fixtures over intact strings and cannot even be built here; none cuts or damages a stream.',
 ['src/parser.rs','src/state.rs','src/track.rs','src/stack.rs'],[('token-driven recursive descent with error returns','src/parser.rs'),('assertion that re-read tokens were peeked','src/state.rs reread')],
 observe=['return value or unwinding of each entry point'],hook=HOOK),
P('C11','An accepted program is the whole stream, with no token lost',
 'If a parse succeeds, the source was read to its end and every identifier, keyword, literal, operator, bracket and explicit semicolon in the stream is accounted for by the resulting tree, exactly as often as in the stream and in source order (only parentheses and a comma before a closing bracket leave no trace). Hence a program cut inside an open bracket, statement or token, or with a bracket lost, duplicated or misplaced, or followed by stray text, is rejected; and a well-formed program delivered intact is accepted.',
 ['inputs','crash_points','fault_sequences'],'every program of the supported grammar, every cut, loss, duplication and reordering of its tokens, every entry point',
 'Fixtures compare a fixed set of intact programs; none checks that a damaged or cut one is refused or that nothing was dropped.',
 ['src/parser.rs','src/tokens.rs','src/state.rs','src/stack.rs'],[('end-of-input expected after the last statement','src/parser.rs script, program_items, more_module_items'),('closing brackets expected','src/parser.rs expect')],
 observe=['parse result, tree contents, characters pulled'],hook=HOOK),
P('C12','Parses are isolated, repeatable and independent of how characters arrive',
 'The result of a parse, its tree with all locations or its error, depends only on the text delivered and the entry point. It is the same from a string as from any stream delivering that text, however several parses are interleaved (nested in each other\'s sources or on several threads), whatever failed before, and whatever the hash seeds.',
 ['schedules','fault_sequences','inputs'],'every interleaving of several parses, every nesting of sources, every hash seed, neighbours that fail midway',
 'Each fixture parses one string at a time from start to end.',
 ['src/lib.rs','src/parser.rs','src/context.rs'],[('all parser state owned by the Parser value','src/parser.rs Parser'),('label and loop context replaced and restored','src/context.rs')],
 observe=['parse results alone and interleaved'],hook=HOOK),
P('C13','A rejected stream is blamed on something really in it',
 'When a parse fails on a token, the reported token is one the delivered text contains: its extent lies in the text, its line, column and offset agree with the text, and its value is what that extent spells (end of input is blamed only at the end of the delivered text). A label, identifier or keyword that an error names by its extent is spelled there. Every error can be shown and says something, which no error of another kind says, and gives the lexical or target error it rests on as its cause. The source has been read at most two tokens beyond the blamed token.',
 ['inputs','crash_points','fault_sequences'],'every damaged or cut program, every entry point',
 'Fixtures check only that an error occurred.',
 ['src/error.rs','src/parser.rs','src/state.rs','src/track.rs'],[('errors carry the offending token','src/error.rs'),('token look-ahead of at most two','crates/joker/src/lexer.rs')],
 observe=['the token in the error, the characters pulled'],hook=HOOK),
P('C14','An ESTree document loads whole or not at all, through any faulty reader',
 'A syntax tree read as ESTree JSON from a byte stream is independent of how the bytes arrive (any read sizes, interrupted reads), and equals, apart from locations, the tree the parser builds for the same program. If the stream fails, is cut, or loses or garbles a part of a node that the tree is built from, loading reports an error: never a panic, and never a partial or invented tree.',
 ['fault_sequences','crash_points','inputs'],'every ESTree document of the supported node types, every read chunking, interruption, I/O error, cut and node-level damage',
 'Fixtures load whole, well-formed files from memory.',
 ['crates/estree/src/node.rs','crates/estree/src/stmt.rs','crates/estree/src/expr.rs','crates/estree/src/obj.rs','crates/estree/src/lib.rs','crates/unjson/src/unjson.rs'],
 [('every field extraction returns a result','crates/estree/src/node.rs'),('node types checked by tag','crates/estree/src/tag.rs')],
 observe=['tree or error from the loader'],hook=HOOK),
P('C15','JSON fields are taken exactly once and nothing else is disturbed',
 'Extracting a field from a JSON object hands over exactly the stored value once and leaves every other field as it was; a missing field, or one of the wrong type, is reported as precisely that (naming the field, or the type found), and an optional accessor maps null, and only null, to nothing. Reading a field without extracting it changes nothing, whatever sequence of consumers shares the object and whichever of their steps fail.',
 ['histories','fault_sequences'],'every sequence of reads and extractions of every type by several consumers over every object, with fields missing, null or of the wrong type at any step',
 'unjson has no tests.',
 ['crates/unjson/src/unjson.rs','crates/unjson/src/error.rs','crates/unjson/src/ty.rs'],[('field removed by extraction','crates/unjson/src/unjson.rs ExtractField'),('field borrowed by reading','crates/unjson/src/unjson.rs GetField')],
 observe=['every result, and the object after every step']),
P('C16','Places recorded in a tree are where the stream really has those tokens',
 'Wherever the tree of an accepted parse places a name, keyword, literal, operator, bracket or explicit semicolon, the delivered text has exactly that token at exactly that place: offset, line and column, of its start and its end. No extent anywhere in the tree reaches outside the delivered text. This holds whatever damage the stream suffered, whatever line-terminator conventions it mixes, and however far the parser had to look ahead or put tokens back.',
 ['inputs','fault_sequences','histories'],'every accepted program, every layout, every damage that leaves it acceptable, every entry point',
 'Fixtures strip all locations before they compare.',
 ['src/parser.rs','src/track.rs','src/state.rs','src/stack.rs','crates/joker/src/reader.rs'],[('token locations carried into leaves','src/parser.rs'),('operators with locations','src/stack.rs, crates/easter/src/punc.rs'),('semicolon location','src/track.rs end_with_auto_semi')],
 observe=['every location in the resulting tree'],hook=HOOK),
P('C17','A goal chosen late gives what that goal gives from the start',
 'A program parsed without a goal from any stream, and later taken as a script, a strict script or a module, gives exactly what parsing the same text with that goal from the start gives: the same tree with the same locations, or the same error. It does so whichever goals are demanded of its copies, in whatever order and on whatever thread, and whatever other parses ran or failed before, between and during. Text that has no goal-independent reading is rejected as the plain script goal rejects it.',
 ['histories','schedules','fault_sequences','inputs'],'every program, every order of demanding goals, every interleaving with other parses',
 'No test converts an ambiguous program.',
 ['src/parser.rs','src/error.rs','src/context.rs'],[('deferred checks recorded and replayed','src/parser.rs strict_check, Program'),('checks collected across functions','src/parser.rs')],
 observe=['the tree or error each goal gives, early and late'],hook=HOOK),
P('C18','An intact program is put together as written, whatever its layout and delivery',
 'The tree of a well-formed program that arrives intact arranges it as its grammar prescribes: which operands belong to which operator, which arguments, members, elements and properties to which expression, which statements to which branch, loop, case, function or label, what is a directive, a pattern or an elision, in order and with each literal\'s value. White space, line breaks, comments, redundant parentheses, the way the characters arrive and other parses running or failing before or meanwhile change nothing but locations: trees of the same program are equal once their locations are removed, and removing them removes all of them and nothing else.',
 ['inputs','schedules','histories','fault_sequences'],'every program of the supported grammar, every layout, every delivery and interleaving',
 'Fixtures are a few dozen single-line programs, they cannot be built here, and each is parsed alone.',
 ['src/parser.rs','src/stack.rs','src/expr.rs','src/atom.rs','src/context.rs','crates/easter/src/cover.rs','crates/joker/src/track.rs'],
 [('operator stack','src/stack.rs'),('prefix, postfix and suffix chains','src/expr.rs, src/parser.rs'),('cover grammar for patterns','crates/easter/src/cover.rs'),('Untrack','crates/joker/src/track.rs, crates/easter/src/punc.rs')],
 observe=['the tree each entry point returns'],hook=HOOK),
P('C19','A lost semicolon is supplied exactly where the standard allows it',
 'When a program loses semicolons or gains line breaks on its way, each lost semicolon is supplied exactly if the token after it is on another line and cannot go on the statement, or closes the block or input, or the semicolon ended a do-while loop; the tree is then the same and records which semicolons were written. A semicolon that separates tokens on one line, belongs to a for header or is itself a statement is never supplied: the program is rejected. Where the next line can go on the expression it does. A line break after return, break, continue or throw, or before a postfix ++ or --, ends the statement; any other line break changes nothing.',
 ['inputs','fault_sequences'],'every program, every set of lost semicolons and broken lines, every kind of line terminator and comment in their place',
 'Fixtures only, none with look-ahead over other line terminators or comments.',
 ['src/track.rs','src/state.rs','src/parser.rs','crates/joker/src/lexer.rs'],
 [('end_with_auto_semi','src/track.rs'),('restricted productions','src/parser.rs has_arg_same_line, throw, postfix'),('newline flag of a token','crates/joker/src/lexer.rs')],
 observe=['tree or error of each entry point','explicit or inserted semicolons in the tree'],hook=HOOK),
P('C21','A construct is rejected exactly where its context forbids it, and for that',
 'A syntactically well-formed program is rejected exactly when something in it stands where it may not: a break outside every loop and switch of its function, a continue outside every loop, a jump to a label that is not around it in the same function, a continue to a label of no loop, a return outside functions, a second default in a switch, an assignment, update or for-in/of whose target is neither a reference nor (where allowed) a pattern of them; in strict code a with statement, a word reserved there (implements, interface, let, package, private, protected, public, static, yield) as a name or label, or eval or arguments as a bound name; in a module await as a name. Code is strict from the goal, or from an unescaped "use strict" in the directive prologue to the end of that program or function, functions inside included, and nothing after. Property names are free. The error names one of the offences really present, and the name it concerns. It makes no difference how deeply things are nested, which functions come before, how a name is spelled (escapes), how characters arrive, or what other parses ran or failed.',
 ['inputs','schedules','histories','fault_sequences'],'every program, every placement of jumps, labels, loops, functions, directives, reserved words and assignment targets in it, every goal, every delivery and interleaving',
 'Fixtures hold single misplaced constructs at most; what leaks between nested functions, loops, switches, labels and strict regions takes combinations.',
 ['src/parser.rs','src/context.rs','src/atom.rs','crates/easter/src/cover.rs','crates/easter/src/stmt.rs'],
 [('context replaced for functions, loops and switches','src/context.rs, src/parser.rs'),('label scopes','src/context.rs with_labels'),('strictness from directives','src/parser.rs body_directives'),('reserved words','src/atom.rs'),('targets','crates/easter/src/cover.rs')],
 observe=['tree or error of each entry point'],hook=HOOK),
P('C22','Comparing trees tells programs apart, and only those that differ',
 'When a program arrives damaged or merely laid out anew and is still accepted, its tree without locations equals (==, either way round) the tree of the program as sent exactly when the two are put together alike: the same statements, expressions, operators, names, literal values, patterns, functions and directives in the same order (`new X` and `new X()` count as one, regular expression flags as a set). What trees show of themselves (Debug) agrees with that. With locations, trees that are equal also have everything in the same place. A copy of a tree equals it, and stays so when both lose their locations.',
 ['inputs','fault_sequences','schedules'],'every pair of an accepted program and what became of it in transit: tokens lost, repeated, moved or garbled, characters damaged, layout changed; every goal and interleaving',
 'The test suite compares trees with ==, so an equality that is too weak hides failures from it rather than making a test fail.',
 ['crates/easter/src/expr.rs','crates/easter/src/stmt.rs','crates/easter/src/punc.rs','crates/joker/src/token.rs','crates/joker/src/track.rs','crates/derive/src/lib.rs'],
 [('equality written out by hand','crates/easter/src/expr.rs impl PartialEq'),('literals compared by value','crates/joker/src/token.rs'),('locations removed','crates/derive/src/lib.rs, crates/joker/src/track.rs')],
 observe=['trees, ==, Debug, clone, untrack'],hook=HOOK),
P('C23','Everything a parse or load takes is given back',
 'Once what a parse or an ESTree load returned (a tree, an error, or the failure of its source passing through) has been dropped, none of the memory it took is still held: however many programs are parsed and documents loaded one after another, nested in each other or on several threads, whatever names and texts they hold and however they end, memory held does not keep growing.',
 ['histories','fault_sequences','schedules'],'every history of parses and loads, every source fault (end, stall, failure at any poll), every interleaving',
 'A leak changes no result; tests parse each fixture once and never measure the heap.',
 ['src/lib.rs','src/parser.rs','src/stack.rs','src/error.rs','crates/joker/src/lexer.rs','crates/joker/src/reader.rs','crates/joker/src/word.rs','crates/estree/src/lib.rs','crates/unjson/src/lib.rs'],
 [('lexer and its tables','crates/joker/src/lexer.rs'),('parser state released on unwinding','src/parser.rs'),('words and names','crates/joker/src/word.rs'),('error payloads','src/error.rs')],
 observe=['heap held by the process after results are dropped'],hook=HOOK),
P('C25','What the grammar derives is accepted, as derived, and nothing else',
 'Whatever text arrives, it is accepted exactly when the supported grammar derives it (statement and expression syntax, restricted productions, semicolon insertion, the context rules of C21); then the tree has the arrangement of that derivation and tells which semicolons were written. If it is rejected, the error blames what is out of place, or the first token that cannot follow what comes before it (or a reserved word for what does not follow it): a missing semicolon, catch or thrown value as such, a bound pattern and a module\'s import or export as not supported, no token there as a lexical error.',
 ['inputs','fault_sequences','schedules'],'every text that tokens and characters lost, repeated, moved, replaced and garbled make of a program; every goal, delivery and interleaving',
 'Fixtures hold some programs and few rejections; the texts next to a program, which must be rejected at the right token or mean something else, are beyond enumeration.',
 ['src/parser.rs','src/stack.rs','src/track.rs','src/context.rs','src/tokens.rs','src/state.rs','crates/easter/src/cover.rs','crates/easter/src/punc.rs'],
 [('statements and expressions','src/parser.rs'),('operator precedence','src/stack.rs, crates/easter/src/punc.rs'),('semicolon insertion','src/track.rs'),('assignment targets','crates/easter/src/cover.rs'),('expected tokens','src/state.rs')],
 observe=['tree or error of each entry point'],hook=HOOK),
P('C26','A lexical error says what is wrong, and with which character',
 'When a text makes no sense to the lexer, the error names the rule that is broken (a comment, string or regular expression without end; a digit missing for its radix; an exponent without digits; a broken escape, an impossible code point, an escaped reserved word; a number running on; an illegal character) and carries the very character, code point or word at fault, or says that the text ended; the lexer then stands at that character (in an unterminated comment, somewhere within). Errors of different kinds say different things of themselves.',
 ['inputs','fault_sequences','histories'],'every text that damage, early ends and stalls make; every first scan by read, peek or skip, with either slash reading, after any history of calls and earlier errors',
 'Unit tests sample a few bad snippets and mostly check that there is an error, not what it carries or where the lexer stands.',
 [J+'error.rs',J+'lexer.rs',J+'reader.rs',J+'char.rs',J+'word.rs'],[('errors raised',J+'lexer.rs read_next_token'),('digits and escapes',J+'lexer.rs read_digit_into'),('reserved words',J+'word.rs')],
 observe=['error of every call and the position after it']),
P('C20','Tokens conform to the ECMAScript lexical grammar in every detail',
 'Every source text is split into the tokens ECMAScript prescribes, with the prescribed literal values, and text outside the grammar is rejected.',
 ['inputs'],'every source text','unit.json samples one-token snippets.',
 [J+'lexer.rs',J+'char.rs',J+'token.rs',J+'word.rs'],[('scanner dispatch',J+'lexer.rs read_next_token')]),
P('C24','Tree locations nest',
 'Each node\'s location covers its children and its source text.',
 ['programs'],'every program','Fixtures strip locations before comparing.',['crates/easter/src','crates/derive/src/lib.rs','src/track.rs'],[('span','src/track.rs')]),
]
p=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(p,'w') as f:
    for x in props:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
