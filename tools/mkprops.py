#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the long texts stay readable).
import json
P=[]
def p(id,title,statement,over,q,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d['anchors']['observe_at']=[observe] if isinstance(observe,str) else observe
    P.append(d)
PA='src/parser.rs'; LX='src/lexer.rs'; TK='src/token.rs'; LB='src/lib.rs'
API='the value returned (or error thrown) by the exported parse / tokenize functions'
p('C01','The tree of an accepted script contains every token exactly once',
 'For every script that parse accepts, the tokens found in the returned tree (comments and semicolons included), taken in source order, are exactly the script: every character of the script that is not white space belongs to exactly one node, spelled as in the script and at the line and column the node reports. Nothing is lost, invented, altered or reported twice, so the script can be printed back from its tree.',
 ['inputs'],'every text that parse accepts: valid scripts in any layout, and scripts damaged in any way that is still let through',
 'The tests compare the trees of about 370 fixed scripts; each of the ~150 grammar rules builds its own nodes and can drop a token in a combination (optional clause, trailing comma, comment) no test contains.',
 [PA,'src/cst.rs'],[('node construction from the current token','parser.rs construct_node / next_token'),('children attached to nodes','cst.rs push_node, push_node_vec')],API)
p('C02','Tokens tile the source: positions and spelling are exact',
 'For every text that tokenize accepts, the returned tokens are non-empty, in source order, do not overlap, are each found in the text at exactly the line and column reported (lines and columns counted from 1, columns in characters), and only white space lies between them.',
 ['inputs'],'every text, including line breaks of all kinds, tabs, multi-line strings and comments, and characters outside ASCII and outside the BMP',
 'Lexer tests cover 20-odd short inputs; positions after multi-line tokens, wide characters or unusual white space are a product of the whole prefix of the text.',
 [LX],[('position bookkeeping','lexer.rs next_char'),('token emission','lexer.rs construct_token, next_token')],API)
p('C03','Token boundaries follow the lexical grammar',
 'For every text, tokenize splits it into exactly the tokens the lexical grammar gives (identifiers, quoted identifiers, numbers, strings with their quotes and escapes, comments, parameters, templates, operators), and rejects exactly the texts in which a quoted token or block comment is not closed. In particular `>>` is one operator except where two type brackets close, and `<` and `>` after a type name are brackets.',
 ['inputs'],'every text over the lexical alphabet: all short combinations of lexically interesting fragments, and random longer ones',
 'Token boundaries depend on neighbouring characters (maximal munch, escapes, bracket context); tests sample a few combinations.',
 [LX],[('dispatch on the first characters','lexer.rs next_token'),('readers of each token class','lexer.rs read_*'),('type bracket context','lexer.rs type_declaration_depth handling in next_token')],API)
p('C04','Every call returns: no crash, hang or undefined arithmetic on any input',
 'For every text whatsoever, parse and tokenize return a result or throw a well-formed error within work bounded by the size of the text; they never trap, panic, overflow, run out of memory or loop forever, and the module stays usable afterwards. (Nesting hundreds of levels deep exhausts the stack and is a recorded finding.)',
 ['inputs','histories'],'every text: valid, damaged, truncated at every token, random token and character sequences, in a build with overflow and debug checks and in the release build',
 'Tests contain a handful of rejected scripts; crashes hide in look-ahead at the end of input, empty lists and unexpected characters after any of hundreds of grammar positions.',
 [PA,LX,TK,LB],[('look-ahead past the end','parser.rs get_token / get_offset_index'),('character access','lexer.rs get_char'),('error conversion','lib.rs parse, tokenize')],API)
p('C05','Errors are well formed and point into the script',
 'Whenever parse or tokenize rejects a text, it throws an object with exactly line, column and message; line and column are integers from 1, the message is not empty and any position it quotes is the one reported. For a syntax error the position is that of a token of the script that is not a comment, or the fixed end-of-input marker when the script ended too early; for an unclosed quoted token or comment it is the end of the text, for a parameter without a name the place after its @. A text that tokenize rejects is rejected by parse with the same error.',
 ['inputs'],'every rejected text',
 'Tests check the text of four errors.',
 ['src/error.rs',PA,LX,LB],[('error from token','error.rs from_token'),('error conversion','lib.rs')],API)
p('C06','Every comment is kept and belongs to its neighbouring token',
 'In the tree of every accepted script each comment appears exactly once: as a trailing comment of the token before it when it starts on the line where that token starts and only such comments lie between them, otherwise as a leading comment of the token after it (or of the end-of-file node after the last token). Comments of one token are listed in source order.',
 ['inputs'],'every accepted script with comments of every kind in every gap between tokens',
 'Comments may stand in any gap of any construct; tests place them in a few gaps of a few constructs, and each construct decides by its own order of construction which node receives them.',
 [PA],[('comment bookkeeping','parser.rs next_token leading_comment_indices / trailing_comment_indices'),('attachment','parser.rs construct_node')],API)
p('C07','White space and comments never change the structure',
 'Re-laying a script out - other white space, line breaks, comments added or removed between tokens - changes neither whether it is accepted nor its tree apart from positions and comments; a rejected script stays rejected with the same error at the same token.',
 ['inputs'],'every script (accepted or rejected) and every re-layout that leaves its tokens intact; gaps inside dashed and templated table names, where adjacency is part of the syntax, keep their adjacency',
 'Tests are written in one layout each.',
 [PA,LX],[('look-ahead that skips comments','parser.rs get_offset_index'),('white space','lexer.rs skip_whitespace'),('adjacency in table names','parser.rs parse_identifier')],API)
p('C08','Letter case of words never changes the structure',
 'Changing the letter case of the unquoted words of a script (keywords, names, types, literal prefixes) changes nothing but the spelling of those tokens in the result: the same texts are accepted, with the same node types, children and positions.',
 ['inputs'],'every script (accepted or rejected) and every re-casing of its unquoted words',
 'Tests are written in upper case with few exceptions; each keyword comparison in the code handles case by itself.',
 [PA,TK,LX],[('keyword comparison','token.rs is, in_, is_identifier, is_reserved_keyword'),('direct comparisons','parser.rs literal.to_uppercase() matches')],API)
p('C09','Statements are independent of their neighbours',
 'Parsing a terminated script followed by a second script on a new line gives the trees of the first followed by the trees of the second with its lines moved down; if the second is rejected alone the whole is rejected with that error moved likewise, and if the first is rejected the whole is rejected with that same error, whatever follows. The semicolon after the last statement is optional: with it the tree differs only by the semicolon node on the last statement.',
 ['inputs','programs'],'every pair of scripts of which the first is accepted and ends in a semicolon',
 'Almost all tests parse one statement; state carried from one statement to the next (bracket context, comments, remembered positions) needs specific pairs.',
 [PA,LX],[('statement loop','parser.rs parse_code'),('state carried over','lexer.rs type brackets; parser.rs comment indices, quoted_table_positions')],API)
p('C10','Operators bind by precedence and associate to the left',
 'In every expression, wherever it stands, operators are grouped by the precedence of the BigQuery reference (field and element access and calls; unary + - ~; * / ||; + -; << >>; &; ^; |; comparisons, LIKE, IN, BETWEEN, IS; NOT; AND; OR; and => last), operators of equal precedence group from left to right, and parentheses override both. The clauses that use = as an assignment (SET, OPTIONS) are outside this property.',
 ['inputs'],'all pairs and triples of operators in every expression position, and random larger expressions',
 'There are 28 operators and over 70 places an expression may stand; tests contain about a dozen pairs in one place.',
 [PA],[('precedence table','parser.rs get_precedence'),('prefix operators','parser.rs parse_expr unary arms'),('infix loop','parser.rs parse_expr, parse_binary_operator, parse_between_operator, parse_in_operator')],API)
p('C11','Every subtree is one unbroken stretch of source, lists in source order',
 'In the tree of every accepted script, the tokens of each subtree are consecutive tokens of the script, the elements of every list of children stand in source order, and the statements follow one another in source order.',
 ['inputs'],'every accepted text',
 'Formatters print subtrees; whether a token is attached to the wrong ancestor shows only for combinations tests do not contain.',
 [PA],[('attachment of suffix clauses','parser.rs parse_table, parse_select_statement, parse_set_operator, parse_pipe_statement')],API)
p('C12','Trees conform to the published TypeScript types',
 'Every node of the tree of every valid script is of a node type declared in the shipped type declarations, has every child declared as required, has no undeclared child, and each child is a single node or a list, with a token or without, of the node types, as declared. For other accepted texts the node types are still declared ones (or the unknown marker) and declared children have the declared single-or-list shape.',
 ['inputs','programs'],'every accepted text; every child of every node type',
 'The declarations are a text constant that nothing in the test suite compares with the trees.',
 ['src/types.rs',PA,'src/cst.rs'],[('declarations','types.rs'),('node types','cst.rs NodeType'),('trees','parser.rs')],'the generated .d.ts of the package and '+API)
p('C13','Every script of the supported grammar is accepted with the right tree',
 'Every script built from the supported statements, queries, pipe operators, expressions, types and table forms - in any combination, nesting, order of optional clauses the reference allows, and any layout - is accepted, and its tree has exactly the node types, children, tokens and order that the grammar and the published types prescribe.',
 ['programs','inputs'],'all scripts generated by a reference grammar that covers every statement kind and clause the parser knows',
 'The grammar is combinatorial; the tests show each clause in one or two combinations.',
 [PA,TK,'src/constants.rs'],[('statement dispatch','parser.rs parse_statement'),('one function per construct','parser.rs parse_*'),('keyword tables','constants.rs')],API)
p('C14','A phrase gets the same subtree wherever it stands',
 'An expression, query, list of statements, data type or table reference that is valid in one place is accepted in every other place the grammar admits it, and gets the same subtree there: in parentheses, subqueries, common table expressions, set operations, DML, DDL, pipe operators, function arguments, procedural blocks and routine bodies.',
 ['programs','inputs'],'phrases generated by the grammar or cut from the sample scripts, in about 90 expression, 60 query, 25 statement-list, 25 type and 25 table contexts',
 'Tests show each phrase in one context; the parser has many separate entry points for the same phrase.',
 [PA],[('entry points with differing flags','parser.rs parse_expr, parse_select_statement, parse_from_statement, parse_type, parse_table, parse_keyword_with_statements')],API)
p('C15','Calls are pure: no dependence on earlier calls, nothing left behind',
 'The result of a call depends only on its argument: the same text gives the same result on a fresh module, after any history of other calls (accepted or rejected), and after a caller modified earlier results. Memory held by the module does not grow with the number of calls repeated.',
 ['histories','inputs'],'all histories of parse and tokenize calls',
 'Each test makes one call.',
 [LB,PA,LX],[('per-call state','lib.rs parse, tokenize'),('parser and lexer state','parser.rs Parser, lexer.rs Lexer')],API+'; the linear memory of the module')
p('C16','Results and errors cross to JavaScript as plain data of one fixed shape',
 'Every result is plain data - arrays, plain objects, strings, integers, null - with exactly the documented keys: a token is line, column, literal; a node is token (or null), node_type and children, each child being one node or one list of nodes; a tree list ends in exactly one end-of-file node without token; every string in it is well formed whatever the input, and the result survives a JSON round trip. The tokens of the tree are those tokenize returns, and parse accepts only what tokenize accepts.',
 ['inputs'],'every text, including ones with lone surrogates and control characters',
 'Rust tests never cross the WebAssembly boundary.',
 [LB,'src/cst.rs',TK],[('serialisation','lib.rs parse, tokenize (serde)'),('node shape','cst.rs Node, ContentType'),('token shape','token.rs Token')],API)
p('C17','Work grows moderately with the size of the script',
 'The work done by parse and tokenize grows at most about quadratically when a script is made longer or more deeply nested by repeating any construct, whether the script is valid or damaged; no construct makes it exponential.',
 ['inputs','programs'],'every construct that can be repeated or nested, and cycles of several, doubled in size step by step, intact or damaged',
 'Tests use small scripts; blow-ups need nesting of particular constructs.',
 [PA,LX],[('backtracking','parser.rs parse_table retry'),('look-ahead loops','parser.rs get_offset_index')],'executed control-flow steps of the instrumented module')
p('C18','A script cut off in the middle of something open is rejected',
 'Cutting a valid script anywhere inside an open bracket, a CASE expression, a procedural block or a quoted token or block comment gives a script that parse rejects.',
 ['inputs'],'every valid script and every such cut',
 'Tests contain no truncated scripts.',
 [PA,LX],[('closing tokens','parser.rs construct_rparen, expect, parse_*'),('unterminated tokens','lexer.rs read_*')],API)
p('C19','Mismatched closers and unknown statements are rejected',
 'A script in which one closing bracket is replaced by a bracket of another kind, or one END of a procedural block names another kind of block, or one statement begins with a word that begins no statement (and is not a label), is rejected.',
 ['inputs'],'every valid script and every such replacement',
 'Tests contain four rejected scripts.',
 [PA],[('closing tokens','parser.rs construct_rparen, expect'),('statement dispatch','parser.rs parse_statement, parse_labeled_statement')],API)
p('C20','Reserved words are never taken for aliases; only what can be named is',
 'In every tree that parse returns, an alias written without AS is never a reserved keyword of GoogleSQL (in any letter case) nor a symbol, so a clause is never swallowed as the name of what precedes it; and an alias is only attached to what can be named: never to an operand of an operator, a condition (WHERE, HAVING, QUALIFY, ON, IF, WHEN, WHILE, UNTIL, CASE), a value after LIMIT or OFFSET, an item of ORDER BY or PARTITION BY, an element of an array, an argument of a function, an assignment, an inserted value, an option, a default value, or a sort key, condition, assignment or dropped column of a pipe operator.',
 ['inputs'],'every accepted text: every reserved word in every place where an alias may stand, and scripts with reserved words, names and AS clauses inserted anywhere',
 'Whether a word may be an alias is one list of about 100 words used from every expression and table of the grammar; tests use a dozen of them.',
 [PA,TK,'src/constants.rs'],[('the reserved words','constants.rs KEYWORDS, token.rs is_reserved_keyword, is_identifier'),('aliases','parser.rs push_trailing_alias, parse_expr (alias flag), parse_table')],API)
p('C21','Accepted scripts have balanced brackets, and a semicolon ends its statement',
 'In every script that parse accepts, round and square brackets balance, every closing bracket in the tree closes the opening bracket of its own node (round, square or angle), and every `;` outside quoted tokens and comments is the end of a statement of the script or of a block: parse never reads a bracket or a `;` as a keyword, a name or a value, and never reads on across a `;` into the next statement.',
 ['inputs'],'every accepted text: valid scripts with one bracket or semicolon added, removed, moved or put in place of another token, and arbitrarily damaged ones',
 'Tests contain four rejected scripts; each of the ~150 grammar rules decides for itself which token it expects next.',
 [PA],[('which token may become which node','parser.rs construct_node'),('closing tokens','parser.rs construct_rparen, expect'),('end of a statement','parser.rs parse_*_statement (semicolon)')],API)
p('C22','No construct is limited in length or nesting',
 'A construct that parse accepts is accepted at every size and read the same way: repeating an element of a list (items, arguments, columns, statements, operators, clauses, comments, characters of a token, white space) any number of times, or nesting a phrase in itself (queries, parentheses, function calls, CASE, types, joins, blocks) to any depth the stack can hold, is accepted whenever the small sizes are, and each repetition adds the same nodes at the same places as the one before.',
 ['inputs'],'every accepted script, every list or self-nesting phrase in it, and every number of repetitions up to 400 (65537 for characters, 10001 for flat lists) or of levels up to 300',
 'No test script has more than a few elements in a list or three levels of nesting; limits, counters that wrap and rules that change after the n-th element show only at sizes tests do not have.',
 [PA,LX],[('list and nesting loops','parser.rs parse_exprs, parse_select_statement, parse_expr, parse_type'),('counters','lexer.rs line, column, type_declaration_depth; parser.rs get_offset_index')],API)
p('C23','An error is never reported before the place where the script goes wrong',
 'If a rejected script shares its first k tokens (and which of them touch) with a script that parse accepts, the error is reported at the token after those or later, or at the end of the input - never at an earlier token, since nothing is wrong with the shared beginning. Only a word that is read by looking at the tokens directly after it (CREATE and ALTER: up to five; FULL, LEFT and INNER: two; OUTER, NULLS, NOT, EXCEPT and the prefix of a string: one) may be reported itself when those are wrong.',
 ['inputs'],'every pair of an accepted and a rejected script with a common beginning: accepted scripts with one or several tokens dropped, inserted, replaced, swapped, cut off or followed by another script',
 'Tests contain four rejected scripts; whether an error points at the right token depends on which rule was active and on attempts that were abandoned before.',
 [PA,'src/error.rs'],[('error from token','error.rs from_token'),('reading a parenthesis in two ways','parser.rs parse_table'),('look-ahead','parser.rs parse_statement (CREATE, ALTER), parse_expr')],API)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d,ensure_ascii=False)+'\n' for d in P))
# ---- MANIFEST
tech={
'C01':'runtime monitor: lossless-reconstruction oracle over every accepted text','C02':'runtime monitor: tiling oracle over token streams','C03':'differential runtime monitor against an independent reference lexer (exhaustive short inputs + random)',
'C04':'sanitizer build (overflow checks, debug assertions, wasm traps) + release build with step-limit watchdog under hostile workloads','C05':'runtime monitor: error-shape and position oracle over every rejected text','C06':'runtime monitor: comment-ownership oracle computed from the source',
'C07':'metamorphic runtime monitor (re-layout)','C08':'metamorphic runtime monitor (re-casing)','C09':'metamorphic runtime monitor (concatenation, final semicolon)','C10':'runtime monitor against an independent precedence oracle (all operator pairs/triples x places + random)',
'C11':'runtime monitor: span oracle over every subtree','C12':'runtime monitor: conformance of observed trees to the shipped .d.ts read by the TypeScript compiler','C13':'model-based runtime monitor: generative reference grammar with expected trees','C14':'metamorphic runtime monitor (transplanted phrases)',
'C15':'history monitor: replay on fresh instances, aliasing probes and linear-memory growth','C16':'boundary monitor: shape, plainness and JSON round trip of every value crossing','C17':'runtime monitor of executed control-flow steps (instrumented wasm) under size doubling','C18':'runtime monitor: truncation workload with rejection oracle','C19':'runtime monitor: replacement workload with rejection oracle','C20':'runtime monitor: alias invariant over every tree (every reserved word x every alias place + random insertions)','C21':'runtime monitor: bracket-balance and statement-end invariants over every accepted text','C22':'metamorphic runtime monitor: node-count law over families of scripts of growing size','C23':'metamorphic runtime monitor: position of the error against the first difference from an accepted script'}
M=dict(version=1,setup_cmd='node /verif/tools/setup.js',checks=[dict(property=d['id'],quick_cmd=f"node /verif/check.js {d['id']} --tier quick",thorough_cmd=f"node /verif/check.js {d['id']} --tier thorough",
  evidence_file=f"/verif/evidence/{d['id']}.json",technique=tech[d['id']],level='exploration',
  level_note='Every verdict is an oracle over executions of the real WebAssembly package built from /repo; held on everything observed, counts in the evidence file.') for d in P],not_applicable=[],
  notes='All checks observe the exported parse/tokenize functions of the package built from the working tree; no hooks in /repo.')
open('/verif/MANIFEST.json','w').write(json.dumps(M,indent=1)+'\n')
