prop('C01', 'Comparison operators obey the laws of an order',
 'For every type of the library that can be compared, "less than" is irreflexive, asymmetric and transitive (also as regards incomparability), equality is reflexive and symmetric, equal values are never ordered, and the remaining operators and pointer comparisons (null first) agree with those two. Values that differ in an attribute that identifies them (a symbol, a rule, a lookahead set, a position...) are told apart. Tables are searched with an order that agrees with the one they were sorted with.',
 ['inputs'], 'all pairs and triples of values of each comparable type',
 'The tests compare a handful of fixed values; a broken law needs a particular combination of attributes and then corrupts a set or map far away.',
 ['TameParse/Util/container.h', 'TameParse/Dfa/position.h', 'TameParse/Dfa/transition.cpp', 'TameParse/ContextFree/item_set.h', 'TameParse/Lr/lr_item.h', 'TameParse/Lr/lr_action.h', 'TameParse/Lr/parser_tables.cpp', 'TameParse/Util/astnode.cpp'],
 [('operator<, operator==, compare', 'every ordered class'), ('compare_actions / compare_symbols', 'TameParse/Lr/parser_tables.cpp, parser_tables.h')],
 'abstract interpretation of the comparison functions in the ordering domain (attributes known only by relative order), laws checked on the resulting relations',
 'Exhaustive over a finite abstract universe per class: three ordinals per attribute, sequences of at most two elements; attributes of other classes are assumed to compare lawfully (they are checked themselves).')
prop('C05', 'Source positions count every symbol and every kind of line ending',
 'Advancing a source position over a symbol always increases the offset by one; a line ending (LF, CR, CR LF counted once, VT, FF, NEL, LS, PS) increases the line by one and sets the column to zero, the LF of a CR LF changes neither line nor column, and any other symbol increases the column by one. Advancing over a sequence advances over each of its symbols once, in order.',
 ['inputs', 'histories'], 'all symbols after all histories of symbols',
 'The tests feed a few texts; the offset after CR, VT, FF, NEL, LS or PS is not looked at by any of them.',
 ['TameParse/Dfa/position.h', 'TameParse/Dfa/lexeme.cpp'],
 [('position_tracker::update_position', 'TameParse/Dfa/position.h')],
 'abstract interpretation of the tracker as a transition system: fixpoint over its hidden state for a partition of the symbols, position symbolic',
 'Holds for every symbol and every history (fixpoint reached); sequences are checked for lengths 0 to 3.')
prop('C17', 'Tokens are the longest match, best ranked, and lose no input',
 'Whatever automaton a lexer runs, each token it delivers consists of the longest prefix of the remaining input the automaton accepted (a single symbol, marked as unrecognised, if none), carries the symbol of the highest ranked action of that match and the position of its first symbol, and the tokens together are the input. No token is delivered once the input has ended, and a failed read is the end of the input.',
 ['inputs', 'programs', 'histories'], 'all automata, inputs and sequences of reads',
 'The tests run a few hand-written lexers over a few strings; backtracking over more than one rejected symbol and the labelling of unmatched input are only touched by accident.',
 ['TameParse/Dfa/basic_lexer.h', 'TameParse/Dfa/character_lexer.cpp', 'TameParse/Dfa/lexeme.h'],
 [('dfa_stream::operator>>', 'TameParse/Dfa/basic_lexer.h'), ('fill_accept', 'TameParse/Dfa/basic_lexer.h'), ('stream_stream::operator>>', 'TameParse/Dfa/basic_lexer.h')],
 'abstract interpretation of the token stream against an automaton abstracted to the outcome of each step',
 'Every automaton behaviour over inputs of at most 3 unknown symbols (4 in the thorough run) and up to three successive tokens; longer inputs are not enumerated.')
prop('C02', 'Copies are complete and independent',
 'Copying an object of the library, by copy constructor, assignment or clone(), gives an object that has every attribute of the original (identifiers, types, modifiers, positions, children, tables...; links into a list, caches and flags that say who owns something excepted). Original and copy never both own the same object, assignment leaves no reference to anything it released, assigning an object to itself changes nothing, and a clone is of the class of its original.',
 ['inputs', 'programs'], 'all objects of all classes with a hand-written copy operation',
 'Tests copy few classes and look at few attributes; a lost attribute shows up only where the copy is used, far from the copy.',
 ['TameParse/Language/*.cpp', 'TameParse/ContextFree/*.cpp', 'TameParse/Lr/*.cpp', 'TameParse/Dfa/*.cpp', 'TameParse/Compiler/*.cpp', 'parsetool/boost_console.cpp'],
 [('copy constructors, operator=, clone()', 'every class that defines one')],
 'abstract interpretation of every copy operation over an object with unknown attributes; the attributes of source and copy are compared as value numbers and the sets of objects the two destructors release are intersected',
 'Collections of 0, 1 and 2 elements; objects behind pointers are followed through their own copy operation, which is checked separately. Four attributes whose copies are made by code the analysis does not follow are listed in the evidence as not decided.')
prop('C16', 'The parser does what its tables say',
 'Whatever tables a parser runs, each step takes the first action listed for the current state and the next token (or the end of input) that can be taken: a weak reduction only if a trial shows that it leads to that symbol being shifted or accepted, a guard only if the tokens ahead match it and its symbol can be used. A shift passes on exactly the token (with its strong symbol if the action says so) and moves to the next one; a reduction takes exactly the items of the rule, newest first, passes on nonterminal, rule and the position of the next token, and goes to the state listed for the state it uncovered. Trials and guards change nothing. All states of one session see every token once, in order, and nothing is read outside the tables.',
 ['inputs', 'programs', 'histories'], 'all tables, stacks, token sequences and orders in which states of one session advance',
 'The tests run the parsers of a few grammars; guards inside guards, weak reductions that need further weak reductions and sessions with several states are hardly touched.',
 ['TameParse/Lr/parser.h', 'TameParse/Lr/parser_state.h'],
 [('parser::state::process', 'TameParse/Lr/parser.h'), ('process_generic, process_guard, check_guard, can_reduce, fake_reduce, perform_generic', 'TameParse/Lr/parser_state.h'), ('look, next, trim_lookahead', 'TameParse/Lr/parser_state.h')],
 'abstract interpretation of one parser step from an unknown stack with the tables abstracted to the outcome of each lookup, compared on each path with the LR machine; fixpoint over the configurations of the shared lookahead',
 'One step from an arbitrary stack (hence any history); at most 5 free table lookups per step (7 in the thorough run), rules of at most 2 items, three tokens of lookahead, three states per session. Divert actions, which nothing creates, are left out.')
prop('C10', 'Parser states and stacks that share storage do not disturb each other',
 'Copies of a parser stack share a pool of entries, and copies of a parser state share a session. However copies are made, pushed, popped, assigned and destroyed, each stack shows exactly the states and items pushed through it (or through the one it was copied from), also after entries have been collected, reused or the pool has grown. The pool, and the session with the user\'s actions, are released exactly once, with the last stack or state that uses them, whatever the order, and nothing is used after it has been released.',
 ['histories'], 'all histories of copying, pushing, popping, assigning and destroying',
 'The tests never destroy states or stacks out of order, and 64 entries are rarely used up, so collecting and reusing entries is hardly exercised.',
 ['TameParse/Lr/parser_stack.h', 'TameParse/Lr/parser_state.h', 'TameParse/Lr/parser.h'],
 [('parser_stack: push, pop, copy, collect, get_new, destructor', 'TameParse/Lr/parser_stack.h'), ('parser::state: copy constructor, destructor', 'TameParse/Lr/parser_state.h')],
 'abstract interpretation of each operation from every configuration reachable with a few handles (fixpoint up to renaming of items and objects), with heap objects and vector elements tracked through their lifetime',
 'At most three stacks (of at most four entries, pool starting with two entries) and three states (four in the thorough run); the first 900 (6000) configurations in order of distance are explored.')
prop('C03', 'Nothing is used before it has a value',
 'Every constructor, copy constructors included, gives a value to every number, flag and pointer of the new object that any of its operations reads (its destructor included), on every path through the constructor. No local variable is read on a path on which nothing was assigned to it, and a function that has a result returns one on every path.',
 ['inputs', 'histories'], 'all paths of all functions and constructors',
 'Memory that was never written often happens to hold zero in a small test; what it holds in a long-running program is arbitrary.',
 ['TameParse/**', 'parsetool/**'],
 [('constructors', 'every class'), ('local variables', 'every function')],
 'abstract interpretation tracking which locations have a value on each path; attributes left unset by a constructor are looked for in every operation started from the object it leaves',
 'Loops are followed for up to two iterations, paths are joined where the same locations have a value; elements of arrays are not followed; a call that is not followed is assumed to set its reference arguments.')
prop('C14', 'Symbol sets obey set theory, and deduplication keeps every set',
 'Union, exclusion, intersection and inversion of sets and ranges of symbols give sets with exactly the symbols set theory says, whatever ranges they consist of and in whatever order they were added; two sets are equal exactly if they have the same symbols. In a map of symbol sets each set has one identifier, found again for an equal set, and an identifier gives back its set. Deduplicating a map gives sets that do not overlap, such that every original set is exactly the union of the sets it is mapped to, and the empty set is mapped to itself.',
 ['inputs'], 'all sets of ranges of symbols and all maps of them',
 'The tests try some dozens of pairs of ranges; deduplication went wrong for two sets that share ranges with a gap between them, which no test has.',
 ['TameParse/Dfa/symbol_set.cpp', 'TameParse/Dfa/symbol_set.h', 'TameParse/Dfa/range.h', 'TameParse/Dfa/symbol_map.cpp', 'TameParse/Dfa/remapped_symbol_map.cpp'],
 [('operator|=, exclude, invert', 'TameParse/Dfa/symbol_set.cpp'), ('identifier_for_symbols', 'TameParse/Dfa/symbol_map.cpp'), ('deduplicate', 'TameParse/Dfa/remapped_symbol_map.cpp')],
 'abstract interpretation in the ordering domain: symbols are cut into cells by the bounds of ranges, operations are evaluated for all unions of cells and compared with the operation on cells',
 'Sets over five cells (four where two sets are combined), maps of at most three (four) sets; symbols from 0 on, ranges that are not empty.')
prop('C13', 'Item sets behave as sets of items',
 'Inserting, erasing and merging items of a grammar gives item sets with exactly the items that set theory says, and the result of each operation says truthfully whether the set changed. Membership, size, emptiness and iteration (each item once) agree with each other after every history of operations. Two item sets are equal exactly if they have the same items, whatever items they held before; copies and assigned sets have the same items and are independent of the original; merging a set with itself or assigning it to itself leaves it as it is. No operation touches memory outside a set\'s own.',
 ['inputs', 'histories'], 'all item sets, all histories that lead to them, all pairs of them',
 'The test grammars have few items, nearly all of them below 64, and sets are rarely compared after items have been removed.',
 ['TameParse/ContextFree/item_set.cpp', 'TameParse/ContextFree/item_set.h'],
 [('insert, erase, merge, contains, next_item_id', 'TameParse/ContextFree/item_set.cpp'), ('operator==, iterators', 'TameParse/ContextFree/item_set.h')],
 'abstract interpretation in an exact domain of arrays of machine words with their lengths, over representatives of the bits (first, inner, last) of each word, compared with the operations on sets',
 'Three words; every number of words a set can have for the same items; items have identifiers from 0 on.')
prop('C12', 'Tables of symbols and states give back what was put in',
 'Whatever disjoint ranges of symbols are put into a symbol table, under whatever numbers and in whatever order, looking up any symbol of the table gives the number of the range it is in and "no set" for all others; copies of a table do the same, also when the original is gone. The hard coded form of a table, which generated parsers use, has exactly the size it says, every entry of it has a value, and looking up a symbol in it gives the same as in the original. A row of a state machine (flat or compact) gives exactly the transitions of the state it was filled from and "no state" for all other symbol sets. A state machine made from a deterministic automaton, or running over the tables of a generated parser, goes from each state on each symbol to the state the transitions say, and rejects all other symbols and states that do not exist. Nothing is read or written outside the tables.',
 ['inputs'], 'all sets of ranges, numbers and orders; all rows and deterministic automata',
 'The tests use few ranges, mostly of ASCII symbols; symbols looked up only in the tables of generated parsers had gone wrong above 255 without a test noticing.',
 ['TameParse/Dfa/symbol_table.h', 'TameParse/Dfa/hard_coded_symbol_table.h', 'TameParse/Dfa/symbol_translator.h', 'TameParse/Dfa/state_machine.h'],
 [('symbol_level::add_range, lookup, to_hard_coded_table', 'TameParse/Dfa/symbol_table.h'), ('hcst_lookup_sym', 'TameParse/Dfa/hard_coded_symbol_table.h'), ('fill, operator[], run', 'TameParse/Dfa/state_machine.h')],
 'abstract interpretation in an exact domain of arrays with their lengths and machine arithmetic: filling and looking up are evaluated for representatives of all ranges around the boundaries of levels and compared with the map put in',
 'Levels of two bits for the exhaustive part (up to three ranges), the levels of the real tables (8, 16 and 31 bits) with ranges around their boundaries; ranges lie within the table. Rows of at most five symbol sets, automata of two states and two symbol sets.')
prop('C20', 'Asking changes nothing, and users of the library do not share hidden state',
 'A public const operation changes neither its object nor anything reached from it, and no public function changes what it takes by reference or pointer to const; attributes declared mutable, reference counts, streams, and what is filled in only while it is empty excepted. No function changes a variable of static storage duration or hands one out to be changed (streams, and filling one on first use with something that depends on nothing the caller gave, excepted), and no static variable of a function keeps what its first call computed from its arguments or its object: two parsers, grammars or sessions in one program cannot influence each other through the library, in whatever order they are used.',
 ['histories', 'programs'], 'all calls of all public operations and functions, in whatever order',
 'Tests use an object once and then throw it away; an object changed by a question, or a value kept from an earlier call, shows only when something else is asked afterwards.',
 ['TameParse/**', 'parsetool/**'],
 [('const operations and parameters', 'every class'), ('static variables', 'every file')],
 'interprocedural effect analysis: for each function the objects (its own, its parameters, static variables) it may change through references, pointers, iterators and calls, as a fixpoint over the call graph',
 'Access paths in the source: an object that is stored somewhere and found again there by a different path is not followed.')
prop('C25', 'Parser tables say exactly what the builder decided',
 'Tables made from a builder list for each state exactly the builder\'s actions for terminals and for all other symbols: ordered by symbol, and for one symbol guards first, then weak reductions, shifts and reductions. Every reduction names a rule entry with the identifiers of its nonterminal and of its rule and the number of its items, and looking up a symbol in a state finds the first of its actions. A state counts as one that can end a guard exactly if it has an action for the end of a guard, and each weak symbol is mapped to its strong symbol, all others to themselves. Copies and assigned tables say the same, whatever they were before and also when the original is gone; assigning tables to themselves changes nothing. Tables made of arrays (as generated parsers do) say what the arrays say and leave them alone; all other tables release what they allocated exactly once.',
 ['inputs', 'programs'], 'all lists of actions of all states, all maps of weak symbols',
 'The tests look at the tables of a few grammars, hardly any with guards or weak symbols, and never copy or assign tables.',
 ['TameParse/Lr/parser_tables.cpp', 'TameParse/Lr/parser_tables.h'],
 [('parser_tables (constructors, operator=, destructor)', 'TameParse/Lr/parser_tables.cpp'), ('find_terminal, find_nonterminal, has_end_of_guard, strong_for_weak', 'TameParse/Lr/parser_tables.h')],
 'abstract interpretation in an exact domain of arrays with their lengths and lifetimes: the tables are made from a builder known only by the actions it lists, and read back through every public operation',
 'Up to three states with up to four (once fifteen) actions out of fifteen, which cover every type of action and every kind of symbol; every pair of actions occurs. What the builder decides is not part of this property.')
prop('C04', 'Transformed automata accept the same texts with the same actions',
 'Making the symbol sets of an automaton unique, making it deterministic (for one initial state or several), compacting it and merging its symbol sets gives automata that accept exactly the texts the original accepts, each with exactly the same actions (nothing is looked at after an eager action; when compacting for the first action only, the most important action stays the same). Symbol sets of the results do not overlap, deterministic results have one transition at most for each symbol and none without a symbol, each initial state becomes the state of its index, and compacting does not add states. The original is left as it was; the results, copies and assigned automata stay valid when it is deleted.',
 ['inputs'], 'all automata, all families of overlapping symbol sets, all texts',
 'The tests transform a few automata made from short expressions, and most look only at the number of states or a few texts.',
 ['TameParse/Dfa/ndfa_transformations.cpp', 'TameParse/Dfa/remapped_symbol_map.cpp', 'TameParse/Dfa/ndfa.cpp'],
 [('to_ndfa_with_unique_symbols, to_dfa, to_compact_dfa, to_ndfa_with_merged_symbols', 'TameParse/Dfa/ndfa_transformations.cpp'), ('deduplicate', 'TameParse/Dfa/remapped_symbol_map.cpp'), ('closure, operator=, copy constructor, destructor', 'TameParse/Dfa/ndfa.cpp')],
 'abstract interpretation in an exact domain of collections and objects: the transformations are evaluated on representatives of all automata, and the automaton that comes out is compared with the one put in by walking both at once over the partition of the symbols, which decides equality for all texts',
 'Automata of at most seven states over at most five symbol sets: all deterministic ones of up to three states over one set, families with layers of transitions without symbol, long chains, states that differ by their actions only, and drawn ones (a fixed sequence).')
prop('C06', 'Regular expressions accept exactly the texts they describe',
 'A regular expression added to an automaton makes it accept exactly the texts the expression describes, with the action given: literals, escapes (by letter, hexadecimal, octal, \\u), ".", sets of symbols with ranges and negation, groups, alternatives, "*", "+", "?" in all combinations, and expressions and literals used by name. Expressions added to the same automaton, at the same or at different initial states, do not influence each other. Symbols beyond U+FFFF become exactly their UTF-16 pairs where these are asked for; a case insensitive expression accepts the upper and lower case forms of its symbols, and nothing else; the Unicode categories, scripts and cases are those the tables list.',
 ['inputs'], 'all regular expressions, all texts',
 'The tests try some expressions each on a few texts which mostly should match; what should not match is hardly tried.',
 ['TameParse/Dfa/ndfa_regex.cpp', 'TameParse/Dfa/ndfa.cpp', 'TameParse/Util/unicode.cpp', 'TameParse/Unicode/unicode_data.h'],
 [('add_regex, compile, symbol_for_sequence, compile_expression', 'TameParse/Dfa/ndfa_regex.cpp'), ('builder, add_surrogate_transition', 'TameParse/Dfa/ndfa.cpp'), ('to_lower, to_upper', 'TameParse/Util/unicode.cpp')],
 'abstract interpretation in an exact domain of collections and objects: the automaton the code makes for an expression is compared with the one its meaning defines by walking both at once over the partition of the symbols, which decides equality for all texts',
 'Every way to combine two repeated parts in sequences, alternatives and groups, every escape, sets of up to three parts, ranges around all the boundaries of UTF-16 pairs and of case ranges, and drawn expressions of depth three (a fixed sequence); only well-formed expressions.')
prop('C07', 'The parser built for a grammar is its LALR(1) parser',
 'For a grammar of terminals, nonterminals, optional, repeated and alternative parts and guards, FIRST of an item has exactly the terminals and guards that a text derived from the item can begin with, and the empty item exactly if nothing can be derived from it, in whatever order the sets are asked for. The states the parser builder makes for the start symbols of a grammar form its LALR(1) automaton: after each sequence of symbols the actions listed are exactly the shifts of terminals and guards and the gotos that lead on, the reductions of every rule for exactly its LALR(1) lookahead, acceptance of a start symbol at the end of the input and of a guard at its end, and the check of each guard that can come next for every terminal it can begin with, starting in the state of that guard\'s rule. (An alternative that consists of alternatives only counts as those alternatives.) All conflicting actions are listed; resolving them is not part of this.',
 ['inputs'], 'all grammars and start symbols, all sequences of symbols',
 'The tests build parsers for a handful of grammars; FIRST sets of nonterminals that refer to each other were incomplete without a test noticing.',
 ['TameParse/Lr/lalr_builder.cpp', 'TameParse/Lr/lalr_machine.cpp', 'TameParse/Lr/lalr_state.cpp', 'TameParse/Lr/lr1_item_set.cpp', 'TameParse/ContextFree/grammar.cpp', 'TameParse/ContextFree/item.cpp', 'TameParse/ContextFree/ebnf_items.cpp', 'TameParse/ContextFree/standard_items.cpp', 'TameParse/ContextFree/guard.cpp'],
 [('first, first_for_rule', 'TameParse/ContextFree/grammar.cpp'), ('closure, cache_closure, fill_follow', 'TameParse/ContextFree/item.cpp, ebnf_items.cpp'), ('complete_parser, complete_lookaheads, actions_for_state, add_guard', 'TameParse/Lr/lalr_builder.cpp')],
 'abstract interpretation in an exact domain of collections and objects: the builder is evaluated on representative grammars and the automaton it makes is compared with the textbook LALR(1) construction by walking both side by side, which decides equality for all sequences of symbols',
 'About 110 grammars of up to three nonterminals and ten rules (360 in the thorough run): hand-picked ones for nullable, left and right recursive, mutually recursive nonterminals, nested EBNF items, guards, and drawn ones (a fixed sequence). Rules that contain the empty item are left out.')
prop('C08', 'Conflicts are resolved as declared, and all others are reported',
 'The actions a parser has for a state are those of its LALR(1) parser (C07), changed by each declaration exactly as documented. Ignored symbols: reductions on them become weak, and a symbol that is neither shifted nor ignored in the state is ignored. Weak symbols: in a state with an action for a strong symbol that has weak ones, reductions on weak symbols become weak, and every weak symbol without another action (weak reductions and guards aside) gets the actions of its strong symbol as well, shifts as shifts of the strong symbol. Precedence blocks: of exactly one shift and one reduction for a symbol, the reduction wins if the operator of its rule (the only terminal in it with a precedence) has a higher level than the symbol, the shift if it is lower; at equal levels the associativity of the operator decides (left reduces, right shifts, nonassoc leaves both). [conflict=...] on a symbol that is shifted: keeps only the shift, only the reductions, or makes the reduction weak (several reductions can only be kept together). The LR(1) rewriter makes all but one of the reductions for a terminal weak exactly if the states they can uncover with that terminal following are different for each of them. A conflict is reported once for each state and symbol for which two or more shifts and (not weak) reductions remain, and for no other (one that a weak symbol has from its strong symbol only is not repeated for it).',
 ['inputs'], 'all grammars, declarations and states',
 'The tests resolve a few conflicts of a few grammars; ambiguous grammars were taken for LR(1) ones, and weak symbols lost their second meaning, without a test noticing.',
 ['TameParse/Lr/ignored_symbols.cpp', 'TameParse/Lr/weak_symbols.cpp', 'TameParse/Lr/precedence_rewriter.cpp', 'TameParse/Lr/lr1_rewriter.cpp', 'TameParse/Lr/conflict.cpp', 'TameParse/Compiler/precedence_block_rewriter.cpp', 'TameParse/Compiler/conflict_attribute_rewriter.cpp', 'TameParse/Compiler/Data/rule_item_data.cpp'],
 [('rewrite_actions', 'each rewriter'), ('find_conflicts', 'TameParse/Lr/conflict.cpp'), ('precedence_block_rewriter', 'TameParse/Compiler/precedence_block_rewriter.cpp')],
 'abstract interpretation in an exact domain of collections and objects: each rewriter is evaluated on the states of representative ambiguous grammars and the actions it leaves are compared with what the declaration makes of the textbook LALR(1) actions; the conflicts reported likewise',
 '33 grammars with about 580 declarations (2500 in the thorough run); at most four symbols declared at once, not both weak and precedence. Declarations the documentation leaves open (two different attributes for one conflict, two operators in one rule) are left out.')
prop('C09', 'Shared objects are released exactly once, with their last user',
 'However containers (util::container) and shared syntax pointers (util::syntax_ptr) are made, copied, assigned, cast and destroyed, each shows the object it was given until it is assigned or destroyed; an object they own is deleted exactly once, when the last of them that refers to it goes (also when that is because the object which holds it is deleted, and when a handle is assigned from one that its own object holds); an object that was only lent to a container is never deleted by it; constructing from a constant object or pointer shows a clone; the references they share are released too; nothing is used after it has been released. The same holds for lexers: whichever way a lexer is made (empty, from an automaton it takes over, from a deterministic automaton, around another lexer that it owns or not, over tables that it owns or not), compiled and used, the automata, tables and lexers it owns, the streams it gives out, and their symbol streams are released exactly once, and what it does not own is left alone.',
 ['histories'], 'all histories of making, copying, assigning, casting and destroying',
 'The tests use containers in a few straight sequences. Assigning one from inside its own object read freed memory, which goes unnoticed as long as that memory is not reused.',
 ['TameParse/Util/container.h', 'TameParse/Util/syntax_ptr.h', 'TameParse/Dfa/lexer.cpp', 'TameParse/Dfa/basic_lexer.h', 'TameParse/Dfa/state_machine.h', 'TameParse/Dfa/symbol_table.h'],
 [('container: constructors, operator=, destructor, reference::release', 'TameParse/Util/container.h'), ('syntax_ptr: constructors, operator=, cast_to, destructor', 'TameParse/Util/syntax_ptr.h'), ('lexer: constructors, compile, create_stream, destructor', 'TameParse/Dfa/lexer.cpp'), ('dfa_lexer_base, dfa_stream: destructors', 'TameParse/Dfa/basic_lexer.h')],
 'abstract interpretation of each operation from every configuration reachable with a few handles (fixpoint up to renaming of objects), with heap objects tracked through their lifetime',
 'At most three handles and six groups of shared objects, each object holding one more handle; the first 1500 (4000) configurations in order of distance are explored. Circles of objects that hold each other are left out. Lexers: nine ways a lexer can come, be used and go, evaluated to the end.')
na('C30', 'A definition compiles to a parser for the language it describes',
 'For every valid language definition the tool produces a parser that accepts exactly the texts of the language the definition describes (imports, inheritance, replaced and appended rules, ignored and weak symbols, precedence and conflict attributes included), and every invalid definition is reported with its place.',
 ['inputs'], 'all definition files and all texts',
 'The tests compile a few definitions and try a few texts with each.',
 ['TameParse/Compiler/*.cpp', 'TameParse/Language/*.cpp'],
 [('compile() of each stage', 'TameParse/Compiler/*_stage.cpp')],
 'The stages communicate through the syntax tree the bootstrapped parser makes of a text, whose tables (hundreds of states) are data computed when the tool is built: deciding this for all definitions needs the language of a program that the analysed program computes, which no static argument in reach bounds. The steps it is composed of are decided separately (C04, C06, C07, C08, C12, C16, C17, C25).')
na('C31', 'Generated source code behaves like the parser it was generated from',
 'The C++ code the tool writes compiles, and the parser in it accepts the same texts with the same actions as the parser interpreted by the tool.',
 ['inputs', 'programs'], 'all definitions and all texts',
 'The tests compile one generated parser, the bootstrapped one.',
 ['TameParse/Compiler/OutputStages/*.cpp'],
 [('output_cplusplus', 'TameParse/Compiler/OutputStages/output_cplusplus.cpp')],
 'The subject is the text the tool writes when it runs, and what a C++ compiler makes of it; neither is in the source that a static analysis of this repository reads. The tables written out are decided by C12 and C25.')
na('C32', 'Building a parser takes reasonable time and memory',
 'Building and running a parser terminates, in time and memory proportional to the size of the input where the algorithm is linear.',
 ['inputs'], 'all grammars and texts',
 'Tests use small grammars and texts.',
 ['TameParse/Lr/lalr_builder.cpp', 'TameParse/Dfa/ndfa_transformations.cpp', 'TameParse/Lr/parser.h'],
 [('complete_parser', 'TameParse/Lr/lalr_builder.cpp')],
 'Bounds depend on the sizes of sets computed at run time (states, lookaheads, weak trials); the fixpoints terminate because their domains are finite, but no static argument in reach bounds their cost.')
