import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=obs or [],hook_needed=hook)))
m=lambda n,w:dict(name=n,where=w)
s=lambda n,me,w:dict(name=n,meaning=me,where=w)
p("C01","A regex's automaton accepts exactly the strings the regex matches",
 "For every regular expression built from literals, character classes, groups, concatenation, alternation and the ?, * and + operators, the nondeterministic automaton compiled from it accepts a string if and only if the regular expression matches that whole string. Compiling a regular expression of this kind never fails, and simulating it never fails on any input, whatever Unicode characters the input contains.",
 ["inputs","programs"],"every supported regular expression and every Unicode string",
 "The tests simulate seven fixed patterns on a handful of ASCII words; both the set of patterns and the set of strings are infinite and class boundaries are never probed.",
 ["src/lex/nfa.rs"],[m("Thompson construction","NFA::compile / NFA::from_regex"),m("simulation","NFA::simulate, move_state, epsilon_closure"),m("range membership","Match::matches")],
 [s("edges","edges of one state are stored contiguously starting at its first edge","NFA.edges / State.first_edge")],["NFA::simulate"])
p("C02","Determinisation preserves the language and yields a deterministic automaton",
 "The deterministic automaton derived from a regular expression accepts a string if and only if the expression matches the whole string, including the empty string and strings with non-ASCII characters. In every state at most one outgoing transition applies to any character, and a state is marked accepting exactly when the string that reaches it is matched.",
 ["inputs","programs"],"every supported regular expression and every Unicode string",
 "Tests check six patterns with a few ASCII words each and never check determinism or the accepting marks of intermediate states.",
 ["src/lex/dfa.rs","src/lex/nfa.rs"],[m("subset construction","DFABuilder::build"),m("alphabet partition","remove_overlap"),m("simulation","DFA::simulate / DFA::test")],
 [s("dfa_to_nfa","set of source states each deterministic state stands for","DFA.dfa_to_nfa")],["DFA::test","DFA::simulate","DFA::edge_iter","DFA::accepting_states"])
p("C03","Alphabet partition: disjoint, lossless and a refinement of every input range",
 "Splitting a set of character ranges yields non-empty, pairwise disjoint ranges that together cover exactly the characters the input ranges cover. Every output range lies entirely inside or entirely outside each input range. Membership, overlap and disjointness of two ranges agree with the character sets they denote, for all bounds up to the maximum.",
 ["inputs"],"all sets of ranges and all bounds, including empty, adjacent, nested and maximal ranges",
 "No test calls this function directly; the patterns in the tests produce few overlap shapes and no extreme bounds.",
 ["src/lex/dfa.rs","src/lex/nfa.rs"],[m("recursive split","remove_overlap / add_range"),m("range predicates","Match::intersects, is_disjoint, contains_u32")],None,["dfa::remove_overlap"])
p("C04","Lexing is longest-match, and ties go to the token declared first",
 "At every position the lexer emits the token whose definition matches the longest prefix of the remaining input; if several definitions match that same prefix, the one declared first wins. After a token the lexer resumes right behind it, also when it had read further in search of a longer match and also at the end of the input. Where no definition matches, a space or newline that begins no token is skipped, and anything else ends the token stream there.",
 ["inputs","configurations"],"every list of token definitions and every input string",
 "Tests use nine fixed token lists with one input each; back-tracking over several characters, ties inside overlapping classes and ends of input are sampled at most once.",
 ["src/lex/lex.rs","src/lex/dfa.rs","src/lex/nfa.rs"],[m("maximal munch loop with last accepting state","Lex::lex"),m("priority by lowest source state","DFA::accepting_states / Lex::from_tokens")],
 [s("last_accepting_state","end and state of the longest match seen so far","Lex::lex")],["Lex::lex"])
p("C05","Token values are the exact text of the token, in input order",
 "For every input, the value of each emitted token that carries a value is exactly the piece of input it was recognised from, and tokens declared without a value carry none. The pieces appear in input order without overlap, and only spaces and newlines lie between them. This holds for any Unicode input, and lexing never crashes.",
 ["inputs"],"every input string, including multi-byte characters at every position",
 "All lexer tests use ASCII input, where character positions and byte positions coincide.",
 ["src/lex/lex.rs"],[m("token text extraction","Lex::make_tok"),m("token start and end indices","Lex::lex")],None,["Lex::lex","Token"])
p("C06","Quoted tokens match themselves literally and take precedence over patterns",
 "In a lexer built from a grammar, a quoted terminal matches exactly its own text, whatever characters it contains, and a regex terminal matches what its pattern says. If a quoted terminal and a regex terminal match the same longest text, the quoted terminal wins. Each emitted token is attributed to the grammar's own terminal it came from, and the token sequence handed to the parser ends with exactly one end-of-input marker.",
 ["inputs","programs"],"every grammar's set of terminals and every input",
 "Only parentheses and operators appear as quoted terminals in tests, each in one grammar and with one input.",
 ["src/lex/lex.rs","src/parser/mod.rs"],[m("literal escaping","Symbol::to_token_def_with_regex"),m("token table order","Grammar::grammar_from_ast_productions / Symbol::compare"),m("token to terminal mapping","Lex::convert_tokens, Lex::from_grammar")],None,["Lex::from_grammar","Lex::lex","Lex::convert_tokens"])
p("C07","Reading a grammar file preserves everything that was written in it",
 "Parsing grammar text yields, in source order, exactly the written productions with their names, start markers and type code, each with its alternatives, and each alternative with its symbols (kind, text and binding name) and its action code. The text of quoted terminals, patterns, identifiers and code is preserved unchanged for any characters allowed there, whatever the layout between tokens. (Code lies on one line and reaches to the last parenthesis of that line; r, export and start are reserved words.)",
 ["inputs","programs"],"every well-formed grammar text within the stated size",
 "Tests parse about a dozen fixed grammars and never compare the resulting tree with the source.",
 ["src/parser/grammar.lalrpop","src/parser/support.rs","src/parser/ast.rs","src/lib.rs"],[m("grammar of the input language","grammar.lalrpop"),m("delimiter stripping","ParserSupport::alloc_quoted_str, alloc_regex, alloc_ts_code")],None,["parse_grammar"])
p("C08","Grammar lowering numbers every rule and symbol exactly once, in order",
 "A lowered grammar consists of one synthetic rule deriving the declared start symbol, followed by one rule per written alternative in source order with its symbols, action and type code unchanged. Its symbol table starts with end-of-input and contains each distinct symbol used in the grammar exactly once, and looking a symbol up by index and by value are inverse to each other. Listing the rules of a nonterminal gives exactly its alternatives in source order.",
 ["programs"],"every grammar accepted by the front end",
 "No test inspects the numbering; they only run later phases on a few small grammars.",
 ["src/parser/mod.rs","src/parser/ast.rs"],[m("augmentation and numbering","Grammar::grammar_from_ast_productions"),m("lookup","Grammar::get_token, get_token_idx, production_iter")],
 [s("tokens","dense symbol table, end-of-input first","Grammar.tokens"),s("production_name_map","rules per nonterminal","Grammar.production_name_map")],["Grammar"])
p("C09","FIRST sets are exact for every grammar, recursive ones included",
 "The FIRST set computed for a symbol sequence contains a terminal if and only if some string derivable from that sequence begins with it. The computation terminates for every grammar, including directly and mutually left-recursive ones.",
 ["programs"],"every grammar without empty alternatives and every non-empty symbol sequence over it",
 "One test prints one FIRST set without asserting; no grammar in the tests is left-recursive.",
 ["src/lalr/first.rs"],[m("recursive FIRST computation","first / first_of_symbol")],None,["lalr::first::first"])
p("C10","The LR(1) item sets are exactly the canonical collection",
 "The parser states built for a grammar are exactly the sets of items with lookaheads of the canonical LR(1) collection: starting from the synthetic start item, closed under prediction with exact lookaheads, and containing every state reachable over some symbol and no other. No state appears twice.",
 ["programs"],"every grammar accepted by the front end",
 "One test prints the collection of one grammar and one test checks a single closure.",
 ["src/lalr/item.rs","src/lalr/first.rs"],[m("closure","ItemSet::closure"),m("transition","ItemSet::goto"),m("worklist","ItemSet::items")],
 [s("ItemSet","items with their lookahead sets","ItemSet")],["ItemSet::items","ItemSet::iter","ItemSet::goto"])
p("C11","Merging unites exactly the states with equal cores and loses no lookahead",
 "After merging there is exactly one state per distinct core, its lookaheads for each item are the union of the lookaheads of all merged states, and every original state is mapped to the state that has its core. Merging reads each original state exactly once and performs no invalid memory access.",
 ["programs"],"every grammar, hence every collection of states with any pattern of shared cores",
 "One test prints the merged sets of one grammar; the unsafe moves are exercised with at most two states per core.",
 ["src/lalr/table.rs","src/lalr/item.rs"],[m("grouping by core","merge_cores"),m("unsafe move-out guarded by a presence vector","merge_sets_with_same_core"),m("lookahead union","ItemSet::union")],
 [s("presence_vec","which states have not been moved out yet","merge_cores")],["table::merge_cores"])
p("C12","The generated tables accept exactly the language of the grammar",
 "For every grammar the generator accepts, running the generated action and goto tables over a sequence of terminals accepts it if and only if the sequence is derivable from the start symbol. The rules reduced along the way, read backwards, are a rightmost derivation of that sequence.",
 ["programs","inputs"],"every accepted grammar and every terminal sequence",
 "Tests run six grammars on one sentence each and never on a sentence outside the language.",
 ["src/lalr/table.rs","src/lalr/item.rs","src/lalr.rs"],[m("table construction","make_tables / make_lalr_tables"),m("shift target through merged states","compute_goto")],
 [s("action","what to do in a state on a terminal","ActionTable"),s("goto","successor state after a reduction","GotoTable")],["table::make_tables","Table::try_index"])
p("C13","A grammar is refused exactly when it is not LALR(1)",
 "Table generation reports a conflict if and only if the grammar has a shift-reduce or reduce-reduce conflict in its LALR(1) automaton; for every other grammar it completes. No action required by the automaton is dropped and none is added: the tables equal those of the LALR(1) automaton up to renumbering of states.",
 ["programs"],"every grammar accepted by the front end",
 "No test contains a conflicting grammar, a left-recursive grammar or two alternatives that begin with the same terminal.",
 ["src/lalr/table.rs"],[m("conflict detection","make_lalr_tables"),m("goto lookup across merged states","compute_goto")],None,["table::make_tables"])
p("C14","The built-in parser always stops with acceptance or an invalid-token report",
 "For every accepted grammar and every input text, parsing terminates. It either completes normally or reports an invalid token, naming the token at the first position where no sentence of the language continues, together with exactly the terminals valid in that state; no other failure is possible.",
 ["inputs","programs"],"every accepted grammar and every input text",
 "Tests only parse six valid sentences; the failure path is never executed.",
 ["src/lalr.rs"],[m("shift-reduce driver","Lalr::parse_impl"),m("error report","Lalr::parse_impl, Table::valid")],None,["Lalr::parse"])
p("C15","Parsing text succeeds exactly for texts whose tokens form a sentence",
 "Parsing a text with the built-in parser succeeds if and only if the whole text splits, by longest match and skipping blanks, into tokens that form a sentence of the grammar. In particular a text with a part no token can be recognised in is never accepted.",
 ["inputs","programs"],"every accepted grammar and every input text",
 "Tests parse six valid texts; none contains an unrecognisable character.",
 ["src/lalr.rs","src/lex/lex.rs"],[m("lexing followed by table-driven parsing","Lalr::parse")],None,["Lalr::parse"])
p("C16","The generated lexer module describes exactly the lexer it was generated from",
 "Read as TypeScript, the generated lexer types contain for every automaton state the same transitions with the same character bounds and targets and the same accepting mark, and for every accepting state the token that the lexer would emit there, with its exact name and whether it carries a value. This holds for any token names, including ones with quotes, backslashes or line breaks.",
 ["programs","configurations"],"every list of token definitions, with any names",
 "Tests write the generated text to a file and never look at it.",
 ["src/codegen/lex_gen.rs"],[m("lexer type generation","lex_gen::generate / ts::Ctx::to_string")],None,["codegen::lex_gen::generate"])
p("C17","The generated parser module describes exactly the parser's grammar and tables",
 "Read as TypeScript, the generated parser types list the same symbols with the same indices and kinds, the same rules with the same left and right sides, the same action and goto entries, and map each terminal's lexer name to its index. This holds for any texts of terminals, including ones with quotes or backslashes.",
 ["programs"],"every accepted grammar, with any terminal texts",
 "Tests write the generated text to a file and never look at it.",
 ["src/codegen/parse_gen.rs"],[m("table generation","Ctx::generate_* in parse_gen")],None,["codegen::parse_gen::generate"])
p("C18","Generated semantic actions bind the right symbols and build the right node",
 "For every rule the generated TypeScript is well formed and defines an action that removes exactly as many stack symbols as the rule's right side has, binds each named symbol to the value at its own position, and pushes a node tagged with the rule's nonterminal whose value is the action code written in the grammar. The dispatcher selects that action for that rule's number and no other.",
 ["programs"],"every accepted grammar, with any mix of named, unnamed, terminal and nonterminal symbols",
 "Tests generate code for four grammars and never look at the output.",
 ["src/codegen/parse_gen.rs"],[m("action generation","Action::write, popped_values, validate_params, call_impl"),m("dispatcher","generate_actions_module")],None,["codegen::parse_gen::generate"])
p("C19","The generated arithmetic tables agree with arithmetic",
 "For every requested size, the generated successor and predecessor tables map exactly the numbers in range to their successor and predecessor and are inverse to each other.",
 ["inputs"],"every table size",
 "The only test prints a table of one size.",
 ["src/codegen/lex_gen.rs"],[m("arithmetic table generation","gen_arithmetic")],None,["codegen::lex_gen::gen_arithmetic"])
p("C20","The type-level lexer produces the same tokens as the built-in lexer",
 "For every generated lexer and every input over the supported characters (those ts/chars.ts lists), evaluating the type-level lexer yields the tokens of the built-in lexer, in order and with the same kinds and values, followed by one end-of-input token. Where the built-in lexer stops early because nothing matches, the type-level lexer yields an error naming an offending character and its position. An input with an unsupported character is reported with that character.",
 ["inputs","configurations"],"every generated lexer and every input string over the character table",
 "There are no tests of the TypeScript sources at all.",
 ["ts/lex.ts","ts/util.ts","ts/chars.ts"],[m("type-level maximal munch","LexImpl, NextState, TokenDefToToken")],None,["Lex<...>"])
p("C21","The type-level parser accepts the same inputs and builds the actions' tree",
 "For every generated parser and token list, the type-level parser accepts exactly when the generated tables do, and its result is the tree obtained by applying each rule's action code to the values of its symbols, bottom-up and left to right. On other inputs it yields an error naming the first invalid token. (A parse of more steps than the parser's own limit yields an error.)",
 ["inputs","programs"],"every generated parser and every token list",
 "There are no tests of the TypeScript sources at all.",
 ["ts/parse.ts","ts/util.ts","src/codegen/parse_gen.rs"],[m("type-level shift-reduce driver","ParseImpl, ParseImplShift, ParseImplReduce")],None,["ParseImpl<...>"])
p("C22","The type-level arithmetic, list and string helpers compute what their names say",
 "For all naturals in the range of the arithmetic tables the comparison, successor, predecessor, addition and subtraction helpers agree with arithmetic; for all lists and strings the helpers for reversal, popping and substrings agree with the corresponding list and string operations.",
 ["inputs"],"all naturals, lists and strings in the stated range",
 "There are no tests of the TypeScript sources at all.",
 ["ts/util.ts"],[m("type-level helpers","ts/util.ts")],None,["ts/util.ts exports"])
p("C23","Grammar symbols and ranges are totally ordered, consistently with equality",
 "Comparing two grammar symbols, or two character ranges, is reflexive, antisymmetric, transitive and total, and says equal exactly when the two are equal; ordered collections of them therefore keep each distinct element exactly once and find it again. Quoted terminals sort before nonterminals and these before patterns, and within a kind the order is that of the text.",
 ["inputs"],"all triples of symbols of all kinds and all texts, and all ranges",
 "No test compares symbols; the symbol table depends on it for every grammar.",
 ["src/parser/mod.rs","src/parser/ast.rs","src/lex/nfa.rs"],[m("hand-written order","Symbol::compare, InputSymbol::compare, Match::compare")],None,["Ord/PartialOrd/PartialEq of Symbol, InputSymbol, Match"])
p("C24","Optional indices and table cells return exactly what was stored",
 "An optional index built from a value reports present and gives back that value for every value except the reserved maximum, and an empty one reports absent and falls back to the given default. A table returns for each cell the value last stored there and nothing for cells never stored, storing reports the previous value, and the valid columns of a row are exactly those stored in it.",
 ["inputs","histories"],"all values, and all sequences of table insertions",
 "Neither type has a test of its own.",
 ["src/option_usize.rs","src/lalr/table.rs"],[m("sentinel encoding","OptionUsize"),m("two-level map","Table::entry, insert, try_index, valid")],None,["OptionUsize","Table"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
