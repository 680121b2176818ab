#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below (python3 props.py)."""
import json, os
from specs import SPECS
V = os.path.dirname(os.path.abspath(__file__))
P = []
def p(id, title, statement, over, text, why, files, mech, obs, note, state=()):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=obs, hook_needed=None)), note))
BY = 'byacc/'
p('C01', 'byacc tables are exactly the LALR(1) parser of the grammar',
  'For every context-free grammar, the parser byacc emits takes in every reachable state and on every token exactly the action the LALR(1) construction prescribes (shift, reduce, accept or error, after the usual conflict resolution), and every goto leads to the state it prescribes. A state may reduce by default only if that reduction is all it ever does, and generating the tables never fails or touches memory outside its buffers.',
  ['programs', 'inputs'], 'every grammar within the stated number of nonterminals, alternatives and symbols; both builds (plain and backtracking)',
  'The reference outputs fix some fifty grammars; a construction or packing error shows only for particular grammar shapes (nullable chains, merged lookaheads, several rules with one goto, overlapping table rows).',
  [BY+'lr0.c', BY+'closure.c', BY+'lalr.c', BY+'mkpar.c', BY+'output.c', BY+'warshall.c'],
  [('LR(0) sets', 'lr0.c'), ('closures from a transitive closure', 'closure.c, warshall.c'), ('lookaheads by includes/digraph', 'lalr.c'), ('action choice and default reductions', 'mkpar.c'), ('row packing', 'output.c pack_table')],
  ['tables in y.tab.c'], 'All grammars within the bounds, against an independent LALR(1) construction (closure with propagated lookaheads, canonical LR(0) cores).')
p('C02', 'byacc resolves conflicts by precedence and reports the rest truthfully',
  'For every assignment of precedence lines, associativities and %prec marks, a shift/reduce conflict is resolved by comparing rule and token precedence (left: reduce, right: shift, nonassoc: error), reduce/reduce conflicts take the earlier rule, -u and -z change this as documented, and what remains is counted exactly in the diagnostics. %expect and %expect-rr decide the exit status from these exact counts.',
  ['programs', 'configurations'], 'every declaration of three operators over two precedence lines of any kind, %prec on the rules, expectations, options -u/-z, both builds',
  'Only a handful of fixed precedence declarations occur in the test grammars, and none with -u, -z or wrong expectations for most of them.',
  [BY+'mkpar.c', BY+'reader.c', BY+'verbose.c', BY+'error.c'],
  [('resolution', 'mkpar.c remove_conflicts'), ('counts and expectation', 'mkpar.c total_conflicts'), ('rule precedence', 'reader.c mark_symbol, end_rule')],
  ['tables in y.tab.c', 'stderr', 'exit status'], 'All declarations within the bounds; one known finding (nonassoc error covered by a default reduction).')
p('C03', 'byacc parsers run the grammar: actions, values, order and result',
  'For every token sequence the generated parser accepts exactly the sentences of its grammar, performs the reductions in order, each action seeing the values (and locations) of exactly its own right-hand side, reads no token beyond what it needs, and returns 0, 1 or the overflow result accordingly. This holds while the stacks grow, for mid-rule actions, pure parsers and the control macros.',
  ['inputs', 'histories'], 'every token sequence up to the stated length, unknown tokens included, for each grammar; initial stack sizes and depth limits small enough to be crossed',
  'No test runs a generated parser; they compare generated text only.',
  [BY+'yaccpar.c', BY+'btyaccpar.c', BY+'output.c', BY+'reader.c'],
  [('driver', 'yaccpar.c/btyaccpar.c yyparse'), ('stack growth', 'yygrowstack'), ('default location', 'YYLLOC_DEFAULT'), ('value references', 'reader.c copy_action')],
  ['the calls the generated parser makes to the lexer, the actions and yyerror', 'its result'], 'All token sequences up to the length, against a reference LR driver computed from the grammar; the parser is generated at check time and is itself the code executed symbolically.')
p('C04', 'byacc parsers recover from errors and destroy discarded values',
  'After a syntax error the generated parser reports it unless fewer than three tokens were shifted since the last one, pops to the nearest state that shifts the error token, discards tokens until one can be used, and gives up exactly when no state or no input remains. Every discarded value with a declared destructor is destroyed exactly once, and never one an action consumed.',
  ['inputs', 'histories'], 'every token sequence up to the stated length over grammars with error rules, both skeletons',
  'No test runs a generated parser, and recovery depends on the whole history of the stack.',
  [BY+'yaccpar.c', BY+'btyaccpar.c'], [('error recovery', 'yaccpar.c yyinrecovery'), ('discarding', 'btyaccpar.c yydestruct_*')], ['calls of lexer, actions, yyerror, destructors'],
  'All token sequences up to the length, against a reference driver.')
p('C05', 'Backtracking byacc parsers explore conflicts and commit to the first success',
  'A parser generated with backtracking accepts a sequence exactly if some choice at its unresolved conflicts leads to acceptance, tries them in the documented order, and performs only the actions of the successful parse, once each and in order. On failure it reports one error and leaves no trace of the trial parses.',
  ['inputs', 'histories'], 'every token sequence up to the stated length for grammars with unresolved conflicts',
  'The btyacc tests only compare the generated text; no parse is ever run.',
  [BY+'btyaccpar.c', BY+'mkpar.c', BY+'output.c'], [('conflict table', 'output.c output_ctable'), ('trial parsing', 'btyaccpar.c yyparse: yytrial, yyvalid')], ['calls of actions and yyerror', 'result'],
  'All token sequences up to the length, against a reference backtracking parser.')
p('C06', 'byacc survives any input: no memory error, no hang, no silent failure',
  'Whatever bytes the grammar file contains, byacc terminates, never reads or writes outside its own objects, and either exits with 0 after writing a complete parser or prints a diagnostic and exits with a failure status. This holds for every option that adds an output (-d -v -g -i -r -n -N -E -e -S -c -C) and for names, literals, tags and code of any length.',
  ['inputs', 'configurations'], 'every value of the free bytes in each position, every option set, both builds; lengths around the sizes of the buffers in the code',
  'The error tests are some thirty fixed malformed grammars; a missing bound or end-of-file check needs the particular byte or length.',
  [BY+'reader.c', BY+'symtab.c', BY+'mstring.c', BY+'output.c', BY+'graph.c', BY+'verbose.c', BY+'error.c'],
  [('lexing', 'reader.c nextc, get_literal, get_name, get_tag, skip_comment'), ('code copying', 'reader.c copy_action, copy_text, copy_union, process_destructor_XX'), ('buffers', 'reader.c cachec, mstring.c')],
  ['exit status', 'stderr', 'y.tab.c', 'memory (ASan shadow memory)'], 'All byte values in the holes of the templates; two bytes in the thorough tier.')
p('C07', 'byacc copies actions and code verbatim, with exactly its references replaced',
  'Every action and code section of the grammar reaches the generated parser character for character, except that $$, $i, $<tag>i, @$, @i, named attributes and the %{ %}/braces become exactly the documented expression for that position, type and rule. Text inside strings, character constants and comments is never changed, and references out of range or without a type are diagnosed.',
  ['programs', 'inputs'], 'every value of the free bytes in each position of the action and section templates; both builds, with and without -B',
  'The reference grammars contain a few fixed references; the scanner has to tell apart strings, comments, character constants, tags and references in every combination.',
  [BY+'reader.c', BY+'output.c', BY+'mstring.c'], [('references', 'reader.c copy_action'), ('destructors', 'reader.c process_destructor_XX'), ('sections', 'reader.c copy_text, copy_union, copy_code'), ('emission', 'output.c output_semantic_actions, output_code_lines')],
  ['y.tab.c'], 'All byte values in the holes, against an independent translator.')
p('C10', 'byacc #line directives attribute every line to its origin',
  'In every generated file, code copied from the grammar is attributed by #line to the line of the grammar it comes from, a directive that names the generated file itself carries the number of the line after it, and the parser\'s own code is never attributed to the grammar. With -l there are no directives.',
  ['programs', 'configurations'], 'every value of a free byte, newline included, in each position; ten option sets, both builds',
  'Reference outputs fix the numbers for one layout of each grammar; a missed line count shows only when a line break stands in a particular place.',
  [BY+'reader.c', BY+'output.c'], [('line counting', 'reader.c get_line, lineno; output.c outline, putc_code, write_code_lineno'), ('directives', 'output.c write_input_lineno, line_directive')],
  ['y.tab.c', 'y.tab.h', 'y.code.c', 'y.tab.i'], 'All positions and byte values within the templates; one known finding (-i without -r).')
p('C11', 'byacc exports (-n, -N, -e, -S) keep the grammar',
  'The grammar written by -n is accepted by byacc and yields the parser of the original grammar without its actions: the same rules in the same order, the same precedence of every rule and token, the same token codes of character literals and the same start symbol, whatever the spelling of names, literals and escape sequences. -N writes the same text with its tokens in angle brackets, -e the same rules, and the SQL script of -S holds each symbol once, the precedences, each rule with its left-hand side and %prec token, every right-hand side symbol at its position, and the start symbol.',
  ['programs', 'configurations'], 'every grammar within the stated number of nonterminals and symbols, with mid-rule actions anywhere; precedence lines and %prec marks; every spelling of a one-byte token (two bytes in the thorough tier)',
  'No test reads these outputs back; a lost symbol, mark or escape shows only for particular grammars and spellings.',
  [BY+'reader.c'], [('naked grammar', 'print_grammar_naked, print_grammar_nakedQ'), ('ebnf', 'print_grammar_ebnf'), ('SQL', 'print_grammar_sql'), ('spelling', 'get_literal')], ['y.yn', 'y.ebnf', 'y.sql'],
  'All grammars and spellings within the bounds: the output is fed back to byacc and its tables compared with an independent LALR(1) construction, or parsed and compared with the grammar.')
p('C12', "byacc's report and graph describe the parser that was emitted",
  'The report (-v) lists every rule of the grammar, with its %prec, and every state with its kernel, the empty rules it reduces, its action on every token, its gotos and acceptance, exactly as the emitted tables have them; each conflict is named once, with the action that lost against the one it conflicts with; and the summary of conflicts, the list of rules that are never reduced and the totals are right. The graph (-g) has exactly the states, their items with their exact lookaheads, and the transitions of the automaton.',
  ['programs', 'configurations'], 'every grammar within the stated number of nonterminals, alternatives and symbols; every declaration of three operators; -u, -z; both builds',
  'The reference reports fix some fifty grammars; an item, lookahead or conflict that is missing or attributed to another action shows only for particular grammars and precedences.',
  [BY+'verbose.c', BY+'graph.c', BY+'mkpar.c', BY+'output.c'], [('report', 'verbose.c print_state, print_conflicts, log_unused'), ('rules', 'reader.c print_grammar'), ('graph', 'graph.c graph_state, graph_LA')], ['y.output', 'y.dot', 'tables in y.tab.c'],
  'All grammars and declarations within the bounds: the report is parsed and compared with the emitted tables and an independent LALR(1) construction.')
p('C20', 'lemon tables are exactly the LALR(1) parser of the grammar',
  'For every grammar, lemon\'s uncompressed action tables give in every reachable state and on every symbol exactly the LALR(1) action and goto. Conflicts are counted exactly, rules that no state reduces are reported, and the exit status says whether there were any.',
  ['programs'], 'every grammar within the stated shape', 'lemon has no tests in the repository at all.',
  ['lemon/lemon.c'], [('FIRST sets', 'FindFirstSets'), ('states', 'FindStates, getstate, buildshifts'), ('lookaheads', 'FindLinks, FindFollowSets'), ('actions', 'FindActions')], ['tables in the generated C file', 'stderr', 'exit status'],
  'All grammars within the bounds against an independent LALR(1) construction.')
p('C21', 'lemon resolves precedence and counts conflicts as documented',
  'For every assignment of precedence declarations, [mark]s and %expect, lemon resolves each conflict from rule and token precedence (left, right, nonassoc and equal precedence as documented), a nonassociative clash is an error in the generated parser, and the number of remaining conflicts is reported exactly and decides the exit status. The options that disable precedence or choose the last terminal do exactly that.',
  ['programs', 'configurations'], 'three operators over two declarations of any of the four kinds, marks on the rules, %expect, -u, -z, %yacc_prec',
  'lemon has no tests in the repository.', ['lemon/lemon.c'], [('rule precedence', 'FindRulePrecedences'), ('resolution', 'resolve_conflict'), ('expectation', 'main')], ['tables', 'stderr', 'exit status'],
  'All declarations within the bounds.')
p('C22', 'lemon table compression and state renumbering lose nothing',
  'Compressing tables with default actions, renumbering states, folding shift-reduce and unit reductions and packing the rows into one array never changes which symbol sequences the parser accepts or which reductions with actions it performs. Table lookups stay inside the emitted arrays.',
  ['programs', 'configurations'], 'every grammar within the stated shape, with default compression and with -r, and with precedence errors in the tables', 'lemon has no tests in the repository.',
  ['lemon/lemon.c'], [('default actions', 'CompressTables'), ('renumbering', 'ResortStates'), ('packing', 'acttab_insert'), ('emission', 'ReportTable')], ['tables in the generated C file'],
  'All grammars within the bounds against an independent construction.')
p('C23', 'lemon parsers run the grammar, recover, and free every value once',
  'For every token sequence a lemon parser performs exactly the reductions of the grammar with the right values, reports errors, recovers, fails, accepts and overflows as documented, and destroys each token or nonterminal value that no action consumed exactly once. All memory is released when the parser is freed, also after allocation failures.',
  ['inputs', 'histories', 'fault_sequences'], 'every token sequence up to the stated length for each grammar; stack limits and growth; allocation failures', 'lemon has no tests; nothing ever runs a generated parser.',
  ['lemon/lempar.c', 'lemon/lemon.c'], [('driver', 'lempar.c Parse'), ('stack growth', 'yyGrowStack'), ('destructors', 'yy_destructor'), ('fallback/wildcard', 'yy_find_shift_action')], ['calls of actions, destructors and hooks', 'ParseFallback'],
  'All token sequences up to the length against a reference driver.')
p('C24', 'lemon copies code verbatim, with exactly its labels replaced',
  'The code of every rule reaches the generated parser character for character, except that each label becomes the stack slot and union member of its symbol, @label the token code, and the label of the left-hand side the place of the result. Every value without a label that has a destructor is destroyed by the rule, and a label that is unused, or used after it was overwritten, is an error. Sections of code and destructors are copied likewise, $$ in a destructor being the value in the member of the symbol\'s own type.',
  ['programs', 'inputs'], 'every value of the free byte in each position of the texts, for rules of each shape', 'lemon has no tests in the repository.',
  ['lemon/lemon.c'], [('labels', 'translate_code'), ('emission', 'emit_code, ReportTable'), ('destructors', 'emit_destructor_code'), ('sections', 'tplt_print')], ['the generated C file'],
  'All byte values in the holes, against an independent translator.')
p('C25', 'lemon %if sections are skipped exactly when their condition is false',
  'The condition of %if, %ifdef and %ifndef is evaluated with !, &&, || and parentheses binding as in C, a name being true when it was defined with -D; a malformed condition is an error with a message. Exactly the text of the branches not taken, nested conditionals included, is removed, line for line, so that everything else keeps its line number; a skipped section without %endif is an error. The parser generated is that of the remaining text.',
  ['inputs', 'configurations'], 'every condition up to the stated number of bytes, every sequence of the nine lines, sets of -D options', 'lemon has no tests in the repository; wrong precedence or nesting shows only for particular conditions and definitions.',
  ['lemon/lemon.c'], [('conditions', 'eval_preprocessor_boolean'), ('sections', 'preprocess_input'), ('definitions', 'handle_D_option')], ['stdout of -E', 'exit status', 'the generated C file'],
  'All conditions and line sequences within the bounds against an independent parser of conditions.')
p('C26', 'the grammar lemon -g prints is the grammar',
  'The grammar printed by -g is accepted by lemon and yields the very same parser as the original grammar without its actions, with the same exit status: tokens, precedences, fallbacks, the wildcard, %start_symbol, %stack_size, %expect, %yacc_prec, token classes, A|B and precedence marks survive.',
  ['programs', 'configurations'], 'every grammar within the stated number of nonterminals and symbols; every declaration of the operators', 'lemon has no tests in the repository.',
  ['lemon/lemon.c'], [('printing', 'Reprint, Reprint_tokens, rule_print')], ['stdout', 'the generated C file'],
  'All grammars within the bounds: lemon is run twice and the two parsers are compared byte for byte (with code on rules: the tables against an independent LALR(1) construction).')
p('C28', 'lemon survives any input: no memory error, no hang, no silent failure',
  'Whatever bytes the grammar file contains, lemon terminates, never reads or writes outside its own objects, and either exits with 0 after writing a complete parser or prints a diagnostic and exits with a failure status. This holds for every reporting option and for names, labels, code and lists of any length.',
  ['inputs', 'configurations'], 'every value of the free bytes in each position, every option set; lengths around the sizes of the buffers in the code',
  'lemon has no tests in the repository; a missing bound or end-of-file check needs the particular byte or length.',
  ['lemon/lemon.c'], [('scanner', 'Parse, preprocess_input'), ('declarations', 'parseonetoken'), ('code translation', 'translate_code, append_str'), ('output', 'ReportTable, ReportOutput, Reprint')],
  ['exit status', 'stderr', 'generated C file', 'memory (ASan shadow memory)'], 'All byte values in the holes of the templates; two bytes in the thorough tier.')
p('C29', 'lemon #line directives attribute every line to its origin',
  'In the generated parser, code copied from the grammar is attributed by #line to the line of the grammar it comes from, also when %if sections were skipped before it; a directive that names the generated file carries the number of the line after it; and the parser\'s own code is never attributed to the grammar. With -l there are no directives.',
  ['programs', 'configurations'], 'every value of a free byte, newline included, in each position; five option sets', 'lemon has no tests in the repository.',
  ['lemon/lemon.c'], [('line counting', 'Parse, ReportTable lineno'), ('directives', 'tplt_linedir, parseonetoken')], ['the generated C file'], 'All positions and byte values within the templates.')
p('C30', "lemon's report, header and SQL describe the parser that was emitted",
  'The report lists every state of the parser under its number with all of its items, its action on every symbol and its default exactly as the emitted tables have them, every conflict and, with -p, every action dropped by precedence; then every symbol with its first set and precedence and every rule with its number and precedence. The header gives each token the number the parser uses, ending with LEMON_LAST_TOKEN. The SQL file (-S) holds the same symbols, precedences, rules and right-hand sides.',
  ['programs', 'configurations'], 'every grammar within the stated number of nonterminals and symbols, every declaration of three operators, -c, -p, -u, -z', 'lemon has no tests in the repository.',
  ['lemon/lemon.c'], [('report', 'ReportOutput, PrintAction'), ('header', 'ReportHeader'), ('SQL', 'ReportSQL'), ('numbering', 'ResortStates, main')], ['g.out', 'g.h', 'g.sql', 'the tables in g.c'],
  'All grammars and declarations within the bounds: the files are parsed and compared with the emitted tables and an independent LALR(1) construction.')
p('C31', 'grammars converted between lemon and byacc keep their parser',
  'What lemon prints with -Y (all precedences explicit) or -y is a grammar from which byacc -z builds exactly the LALR(1) tables of the original, alternatives A|B and token classes written out; what byacc writes with -E is a grammar from which lemon builds exactly the tables of the original without its actions, each rule with the precedence byacc gave it, no two symbols sharing a name, with the same start symbol. Reduce/reduce conflicts are decided lemon\'s way, by precedence first.',
  ['programs', 'configurations'], 'every grammar within the stated number of nonterminals and symbols; every declaration of the operators; every spelling of a one-byte token', 'No test reads the exports back, and lemon has no tests in the repository.',
  ['lemon/lemon.c', BY+'reader.c'], [('lemon to yacc', 'lemon.c Reprint_yacc, rule_print_yacc'), ('yacc to lemon', 'reader.c print_grammar_lemon, get_lemon_names, get_lemon_token_name')], ['stdout of lemon -y/-Y', 'y.yl', 'y.tab.c', 'the generated C file'],
  'All grammars within the bounds: the output of one tool is fed to the other and the resulting tables are compared with an independent LALR(1) construction.')
NA = [('C40', 'Parsers generated by the bundled bison grammar conversions equal bison\'s', '')]
def main():
    done = [(a, n) for a, n in P if a['id'] in SPECS]
    with open(V + '/properties.jsonl', 'w') as f:
        for a, n in done: f.write(json.dumps(a) + '\n')
    tech = 'dynamic symbolic execution of the instrumented LLVM IR of the real code; Z3 decides every branch; exhaustive over all paths within the bounds; counterexamples replayed natively'
    checks = [dict(property=a['id'], quick_cmd='python3 check.py %s quick' % a['id'], thorough_cmd='python3 check.py %s thorough' % a['id'], technique=tech, level='model_checking',
        level_note=n + ' Bounds per job are in the evidence file. Trusts the engine (engine/), clang -O1, Z3 and the in-memory libc model; every alarm is confirmed by replaying it on a gcc/ASan build of the same sources.') for a, n in done]
    m = dict(version=1, setup_cmd='python3 engine/build.py', checks=checks, not_applicable=[])
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
    assert all(len(a['title']) <= 80 for a, n in done), [a['title'] for a, n in done if len(a['title']) > 80]
    assert all(a['id'] in [x['id'] for x, _ in P] for a in [{'id': i} for i in SPECS]), set(SPECS) - {x['id'] for x, _ in P}
main()
