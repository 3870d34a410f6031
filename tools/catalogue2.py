prop("C07", "The built-in predicates mean what they are documented to mean",
     "For every model and every list of atoms in which values are bound before they are needed, comparisons, arithmetic, aggregates (count, sum, average, extremes, percentage), quantifiers, negation, disjunction and the collecting predicates give exactly the solutions that follow from the solutions of their bodies. This holds at any depth of nesting, and none of them leaks bindings of its body or changes its arguments.",
     ["inputs", "programs"], "all tables (empty, with ties and duplicates), all nestings of built-in predicates, all initial bindings",
     "The tests call quantifiers and aggregates on one table each, not nested, not on empty sets or ties.",
     ["module/CoreModule.py", "core/Solver.py", "entity/ResultIterator.py", "core/atoms.py"],
     [("query functions of the core predicates", "module/CoreModule.py"), ("lazy results with a cardinality", "entity/ResultIterator.py")],
     "monitor with a reference model: set-based evaluator of nested formulas judges every solution set",
     EXPLORES + "Trusts a reference evaluator. The value that the summed variable has after a sum is not specified.")

prop("C08", "Inference rules give exactly the consequences of facts and rules",
     "For every program of facts and rules, a query has exactly the solutions that follow from the facts and the rules, whatever variable names occur in the query and the rules, and whichever arguments are bound. A rule that is learned at run time takes part from then on, and rules never change by being used.",
     ["programs", "inputs", "histories"], "all non-left-recursive programs over acyclic data, all queries and binding patterns, all moments of learning a rule",
     "The tests query three small programs with one binding pattern each; name clashes, deep recursion and learned rules in combination are not touched.",
     ["module/InferenceModule.py", "core/Solver.py", "type/InferenceRule.py", "entity/ReifiedVariable.py"],
     [("rule application with renaming of variables", "module/InferenceModule.py"), ("learning rules", "module/InferenceModule.py")],
     "monitor with a reference model: independent resolution over plain facts and rules judges every answer set",
     EXPLORES + "A disjunction commits to its first alternative with a solution, as the library does.")

prop("C09", "Inference rules in text mean what is written",
     "For every program text, the rules that are read are the rules that are written: strings with both kinds of quotes and escapes, numbers of any sign, variables, nested atoms, disjunctions, in any layout and with comments anywhere. A text that breaks off inside a rule, or lacks a parenthesis, is refused with a message instead of being read in part.",
     ["inputs", "programs"], "all rule texts, and all places at which they break off",
     "The tests read three files; literals, layout, comments and malformed text vary without bound.",
     ["module/helper/SimpleInferenceRuleParser.py", "module/InferenceModule.py"],
     [("tokenizer and rule parser", "module/helper/SimpleInferenceRuleParser.py"), ("import of rule files", "module/InferenceModule.py")],
     "monitor with a round-trip oracle: rules rendered as text in random layout are read back and compared; truncated text must be refused",
     EXPLORES + "A trailing comma and unknown characters between tokens are accepted by the library and are not part of the workload.")

prop("C10", "Optimizing a query does not change its answers",
     "For every query and every choice of root variables, the optimized query has the same answers for the root variables as the query itself. This holds whether the sizes that the model gives for its relations are right, wrong or absent.",
     ["inputs", "programs", "configurations"], "all queries with resolvable names, quantifiers, aggregates and negation; all relation sizes",
     "The tests compare the form of a few optimized queries, not their answers.",
     ["processor/semantic_composer/optimizer/BasicQueryOptimizer.py", "processor/semantic_composer/optimizer/SortByCost.py", "processor/semantic_composer/optimizer/FrontResolveName.py", "processor/semantic_composer/optimizer/IsolateIndependentParts.py"],
     [("ordering by cost", "processor/semantic_composer/optimizer/SortByCost.py"), ("isolation of independent parts", "processor/semantic_composer/optimizer/IsolateIndependentParts.py")],
     "differential monitor: answers of the real solver before and after optimization, cross-checked with the reference evaluator",
     EXPLORES + "A variable of a nested body that also occurs outside of it is bound before it in the workload.")

prop("C11", "The optimizer rearranges a query and does not rewrite it",
     "For every query, the optimized query has exactly the same atoms with the same arguments, apart from the grouping of independent parts, each as often as it was written; names are resolved first, and the cheapest goal that can be evaluated comes first. The query that was given is not changed.",
     ["inputs", "programs", "configurations"], "all queries, including repeated atoms and disconnected parts; all relation sizes and root variables",
     "The tests fix the optimized form of a few queries without repetition.",
     ["processor/semantic_composer/optimizer/SortByCost.py", "processor/semantic_composer/optimizer/FrontResolveName.py", "processor/semantic_composer/optimizer/IsolateIndependentParts.py"],
     [("goal ordering", "processor/semantic_composer/optimizer/SortByCost.py"), ("grouping by shared variables", "processor/semantic_composer/optimizer/IsolateIndependentParts.py")],
     "monitor with a conservation oracle: the multiset of atoms before and after, and the documented strategy recomputed per query",
     EXPLORES + "The strategy is the one the optimizer refers to (Warren 1981).")

prop("C12", "The blocks of a pipeline try the right alternatives, in order",
     "For every pipeline and every behaviour of its processors: find-one blocks try alternatives until the first that succeeds in all later blocks, try-first blocks try only the first, find-all blocks try and collect all, and every processor sees exactly the active products of its predecessors. A request succeeds when an alternative succeeds and gives the output of the last processor for it; otherwise it fails with the first error, which is stored once as output.",
     ["inputs", "configurations", "fault_sequences"], "all sequences of block kinds, all patterns of products and errors per combination of predecessor products",
     "The tests have pipelines in which nothing fails after the first alternative.",
     ["block/FindOne.py", "block/FindAll.py", "block/TryFirst.py", "block/Succeed.py", "core/System.py", "entity/SentenceRequest.py", "entity/ControlBlock.py"],
     [("backtracking per block", "block/FindOne.py"), ("storing the error of a request", "core/System.py"), ("active product per processor", "entity/SentenceRequest.py")],
     "online trace monitor: scripted processors log every call with the active products; the log is judged by a reference run",
     EXPLORES + "A processor that gives no error is taken to give at least one product.")

prop("C13", "Every input gets its own response",
     "In every dialogue, the response to an input is the response that this input gets by itself in the state of the world at that moment: it contains nothing of earlier inputs, whether these succeeded, were not understood, produced output that could not be worded, or failed halfway. Empty or misunderstood input gets its own message, and once a response has been read no output is left.",
     ["histories", "fault_sequences"], "all dialogues that mix sound input with every kind of failing input, and all calls at which a data source can fail",
     "The tests are dialogues in which every input succeeds.",
     ["core/System.py", "core/BasicGenerator.py", "module/BasicOutputBuffer.py", "grammar/en_us_write.py", "processor/semantic_executor/AtomExecutor.py"],
     [("output buffer is cleared when it is read", "core/BasicGenerator.py"), ("errors as output", "core/System.py")],
     "fault-injecting dialogue monitor: each response is compared with the independently computed one, and the buffer is inspected after each turn",
     EXPLORES + "An exception inside semantics after output was stored is outside the workload: semantics store their output last.")

prop("C14", "The response is the text that the write grammar derives",
     "For every write grammar and every output, the response is the text derived by the first applicable rule for each part, preferring rules that were not yet used, with the parts in order, values and formatted values of the variables that the condition binds, and post-processing applied. Optional parts are left out exactly when no rule applies to them; when no rule applies to a required part generation fails instead of giving an incomplete text.",
     ["programs", "inputs"], "all write grammars with conditions, recursion, optional parts, formats and post-processing, over all models and outputs",
     "The generator test words four outputs with nine rules.",
     ["core/BasicGenerator.py", "processor/parser/helper/SimpleGrammarRulesParser.py", "entity/GrammarRules.py", "entity/GrammarRule.py"],
     [("choice of rule and binding", "core/BasicGenerator.py"), ("write grammar parser", "processor/parser/helper/SimpleGrammarRulesParser.py")],
     "monitor with a reference model: independent derivation of the text judges every response and every refusal",
     EXPLORES + "White space around an optional part that is left out is not compared; the rules of a grammar have different syntax.")

prop("C25", "The answers of an application are true in its world",
     "In every application that is built of the library's parts, a question gets the answer that holds in the world as it is at that moment: quantifiers, relative clauses, negation, counts, totals and extremes included, and facts and rules taught earlier in the dialogue taken into account. The choice of data store, optimizer, relation sizes and pipeline blocks makes no difference.",
     ["inputs", "histories", "configurations"], "all worlds, all dialogues of questions and taught facts and rules, all combinations of interchangeable parts",
     "The integration tests are fixed dialogues with fixed data and one configuration each.",
     ["core/System.py", "processor/parser/BasicParser.py", "processor/semantic_composer/SemanticComposer.py", "processor/semantic_executor/AtomExecutor.py", "module/CoreModule.py", "module/InferenceModule.py", "data_source/Sqlite3DataSource.py", "data_source/SimpleDataSource.py", "core/BasicGenerator.py"],
     [("the pipeline from sentence to response", "core/System.py")],
     "end-to-end monitor with a reference model: set-theoretic evaluation of the sentence's abstract form judges every answer",
     EXPLORES + "Quantifiers take surface scope, as the grammar of the application has it.")

prop("C15", "All data sources answer select, insert and delete in the same way",
     "For every data source and every history of inserts and deletes, a select returns exactly the stored records that agree with the given values, as often as they were stored, with the requested columns in the requested order. Values are only data: quotes, placeholders, comments, wildcards and control characters in them never change which records are returned, stored or deleted.",
     ["inputs", "histories", "configurations"], "all histories of operations, all values, all selections of columns, over every data source of the library",
     "The tests insert a few plain words in one or two data sources.",
     ["data_source/Sqlite3DataSource.py", "data_source/SimpleDataSource.py", "data_source/MySqlDataSource.py", "data_source/PsycoPg2DataSource.py", "data_source/PsycoPg3DataSource.py"],
     [("query with placeholders", "data_source/Sqlite3DataSource.py"), ("records in memory", "data_source/SimpleDataSource.py")],
     "history monitor with a reference model: every result is compared with a multiset of records; MySQL and PostgreSQL through a stand-in of their driver",
     EXPLORES + "The stand-in driver is backed by SQLite; the real servers are not here.")

prop("C16", "What is stored is stored exactly as often as it is said, where it can be stored",
     "For every query and sentence, a store action writes each of its atoms exactly once per solution of the goals before it, with the values of that solution, into every module that can write the relation, and fails when there is none. Of a sentence, the dialog atoms are stored first, then its executable atoms are executed once, and then its semantics, once; a rejected alternative stores nothing of another one.",
     ["inputs", "histories", "configurations"], "all conjunctions with store actions, all sentences with dialog and executable atoms, through all kinds of pipelines",
     "The tests store single facts with one solution.",
     ["module/CoreModule.py", "core/Solver.py", "processor/semantic_executor/AtomExecutor.py", "processor/semantic_composer/SemanticComposer.py"],
     [("store", "module/CoreModule.py"), ("writing to modules", "core/Solver.py"), ("order of dialog atoms and semantics", "processor/semantic_executor/AtomExecutor.py")],
     "effect monitor: all writes are logged by modules and counted against a reference join and the expected order",
     EXPLORES + "A rule has executable atoms of its own or takes those of its constituents.")

prop("C17", "A SPARQL data source asks for what is selected, and returns what is found",
     "For every graph and every select, the rows are exactly the triples that match: bound columns match only their own value and free columns return the values, in the requested order; texts only in the language of the data source. Quotes, backslashes and query syntax in a text are data. A request that fails, or a malformed response, raises an exception and never looks like an empty result.",
     ["inputs", "fault_sequences"], "all graphs, all selects over kinds of columns and values, all texts, all failures of the endpoint",
     "The tests need the Wikidata endpoint and are switched off.",
     ["data_source/SparqlDataSource.py", "data_source/WikidataDataSource.py"],
     [("query construction and result conversion", "data_source/SparqlDataSource.py")],
     "monitor with a stand-in endpoint that parses and evaluates the query: the rows are compared with the matching triples",
     EXPLORES + "The stand-in endpoint implements one triple pattern with language filters; the real service is not here.")

prop("C18", "The result cache of a SPARQL data source saves requests and changes no result",
     "For every sequence of selects and every interruption (death of the process at any point, failing or partial writes, damaged cache files, a missing directory, failing requests, threads and processes that select at once), every select gives the rows that the endpoint gives, or the error of the endpoint; what failed is not cached. A select that was answered undisturbed is answered from the cache from then on.",
     ["crash_points", "fault_sequences", "schedules", "histories"], "all selects, all lines and all written bytes at which a process can die, all faults of files and endpoint, concurrent selects",
     "No test uses the cache; what an interrupted write leaves behind depends on the byte.",
     ["data_source/SparqlDataSource.py"],
     [("cache files", "data_source/SparqlDataSource.py")],
     "fault enumeration: processes are killed at each executed line and each written byte, and every later select is judged by the graph",
     "Lines and bytes are enumerated for the selects of a case; the cases are random with a recorded seed. A cache directory serves one url and language (known finding sparql-cache-key).",
     level="fault_enumeration")

prop("C19", "Importing a CSV file stores exactly its records",
     "For every CSV file the import adds to the table exactly one record per record of the file, with the field values unchanged (quotes, separators and line ends inside quoted fields included) under the columns of the header. What was in the data source already stays as it was.",
     ["inputs"], "all tables and all ways in which CSV can write them, into every kind of data source",
     "The test imports one file of plain words.",
     ["data_source/CsvImporter.py", "data_source/SimpleDataSource.py", "data_source/Sqlite3DataSource.py"],
     [("reading records", "data_source/CsvImporter.py")],
     "round-trip monitor: tables written by an independent CSV writer are imported and read back",
     EXPLORES + "All records have as many fields as the header.")

prop("C20", "The same input gives the same result, in every process, with or without logging",
     "For every grammar, model and dialogue, the responses, the alternative products and their order, the optimized queries and the solutions are the same each time the program runs: in the same process, in other processes with other hash seeds, and with logging and statistics switched on.",
     ["inputs", "schedules", "configurations"], "all dialogues, ambiguous parses, queries, programs and generated responses; all hash seeds; all log settings",
     "A test runs under one hash seed and compares with what it was seen to give.",
     ["processor/parser/earley/EarleyParser.py", "processor/parser/earley/entity/Chart.py", "type/OrderedSet.py", "core/Logger.py", "core/Solver.py", "core/System.py", "processor/semantic_composer/optimizer/IsolateIndependentParts.py"],
     [("order of chart states", "processor/parser/earley/entity/Chart.py"), ("grouping of variables", "processor/semantic_composer/optimizer/IsolateIndependentParts.py"), ("logging", "core/Logger.py")],
     "differential monitor: transcripts of the same job from several processes with other hash seeds, repeated and logged, are compared literally",
     EXPLORES + "Hash seeds stand for all that differs between two processes that run the same program.")

prop("C21", "Applications that live in one process do not influence each other",
     "For any number of applications in one process, whatever the interleaving of their inputs and outputs, queries of one in the middle of another, or a thread per application, every response, stored fact and failure is the one that the same dialogue gives by itself. This holds too when they are made of the same lists of rules, the same grammar or the same parser.",
     ["schedules", "histories", "configurations"], "all sets of dialogues, all interleavings of their actions, all ways to share what can be shared",
     "The tests run one system at a time.",
     ["core/System.py", "core/Solver.py", "core/BasicGenerator.py", "entity/SentenceRequest.py", "processor/parser/BasicParser.py", "processor/semantic_composer/SemanticComposer.py", "module/BasicOutputBuffer.py", "module/BasicDialogContext.py"],
     [("products per request", "entity/SentenceRequest.py"), ("state per module", "module/SimpleMemoryModule.py")],
     "interleaving monitor: transcripts of dialogues that are interleaved, nested in each other's queries, or run in threads with injected switches, against transcripts of each alone",
     EXPLORES + "Schedules of threads are those that the interpreter gave, with a tiny switch interval and a yield at every query.")

prop("C22", "Parsing has no memory, and learned grammar rules are rules like others",
     "For every sequence of sentences and learned grammar rules, a parser gives for a sentence exactly what a new parser gives whose grammar consists of the rules known at that moment. A learned rule takes effect from the next sentence on, in every parser with that grammar, and in no other grammar; a word that was taught means what it was said to mean.",
     ["histories", "programs"], "all grammars, all orders of sentences and learned rules, all taught words",
     "The tests learn no grammar rules, and parse one sentence per grammar.",
     ["entity/GrammarRules.py", "module/GrammarModule.py", "processor/parser/earley/EarleyParser.py", "processor/parser/BasicParser.py", "processor/parser/helper/SimpleGrammarRulesParser.py"],
     [("learn_grammar_rule", "module/GrammarModule.py"), ("adding a rule", "entity/GrammarRules.py")],
     "history monitor: each parse is compared with that of a new parser and with the reference derivations of the known rules",
     EXPLORES + "Learned rules differ in syntax from the rules that are known.")

prop("C23", "A dialog context is active exactly while the dialogue is in it",
     "For every program, a context is active inside the body of with_context and, unless it was active already, not after it, whether the body succeeds, fails or raises an exception; start_context makes it active until end_context or clear. Every goal and every inference rule that asks for a context finds exactly the active ones, and one dialogue's contexts are not those of another.",
     ["programs", "histories", "fault_sequences"], "all nestings and sequences of contexts, with bodies that fail or raise exceptions, in negations, disjunctions and rules",
     "One integration test uses one context around one question.",
     ["module/BasicDialogContext.py", "module/SimpleMemoryModule.py", "core/Solver.py"],
     [("with_context", "module/BasicDialogContext.py")],
     "online monitor: probes inside the programs log the active contexts, and the log is compared with an independent interpreter",
     EXPLORES + "The body of with_context does not itself start or end the context of that name.")

prop("C24", "A multilingual system uses the first language in which the text makes sense",
     "For every list of languages and every text, the text is read in the first language of the list in which the whole pipeline accepts it, with exactly the readings that the parser of that language gives; if there is none, the error is that of the first language. A language without a processor is reported by name when it is tried.",
     ["inputs", "configurations", "histories"], "all lists of languages, all grammars, all texts, all blocks and later processors that refuse readings",
     "The test has two languages without overlap and two sentences.",
     ["processor/language_selector/LanguageSelector.py", "processor/language_selector/Multilingual.py", "block/FindOne.py", "core/System.py"],
     [("choice of the locale", "processor/language_selector/LanguageSelector.py"), ("delegation", "processor/language_selector/Multilingual.py")],
     "monitor with a reference run over the results of a separate parser per language; end-to-end dialogues in two languages against the world",
     EXPLORES + "A locale occurs once in the list.")

prop("C26", "The log shows what happened, and the tester judges every answer",
     "For every dialogue and every setting of the logger, the log holds the question, the answer, the error and the products of exactly the chosen tests and processors, complete, in the order in which they came about, and with their content; statistics count the queries. The tester fails at the first wrong answer, and only then.",
     ["inputs", "configurations", "fault_sequences"], "all dialogues, all settings of the logger, all processors, wrong expectations and failing data sources",
     "The tests print logs, and look at none of them.",
     ["core/Logger.py", "core/DialogTester.py", "processor/parser/BasicParserProduct.py", "processor/semantic_composer/SemanticComposerProduct.py", "processor/semantic_executor/AtomExecutorProduct.py", "processor/language_selector/LanguageSelectorProduct.py", "entity/ParseTreeNode.py"],
     [("sections of the log", "core/Logger.py"), ("choice of the tests that are logged", "core/DialogTester.py"), ("tree of a parse", "entity/ParseTreeNode.py")],
     "log monitor: every process result is recorded at the processors, and the log is parsed back and compared with the record",
     EXPLORES + "The layout of the log is read loosely: white space and colours do not matter.")

prop("C27", "What an input costs does not grow with the inputs before it",
     "For every dialogue, the same questions about the same facts take the same work, the same number of queries and no more memory, however many inputs came before; whether these were answered, not understood or failed halfway. An application that is dropped leaves nothing behind that makes the next one slower or the process larger.",
     ["histories", "fault_sequences", "configurations"], "all dialogues of questions, all numbers of repetitions, all failures, one application or many",
     "A test asks each question once.",
     ["core/System.py", "core/BasicGenerator.py", "core/Solver.py", "processor/parser/BasicParser.py", "processor/semantic_composer/SemanticComposer.py", "module/BasicOutputBuffer.py", "module/InferenceModule.py", "entity/SentenceRequest.py"],
     [("products of a request", "entity/SentenceRequest.py"), ("output that is cleared when it is read", "core/BasicGenerator.py")],
     "resource monitor: executed lines (sys.monitoring), queries and allocated blocks of a late round of questions against those of an early one",
     EXPLORES + "Rounds 4 and 16 are compared; growth that shows only later is not seen. The dialog context keeps what is said about the types of entities: that store is not measured.")

prop("C28", "The work for an input grows gently with its size",
     "For every grammar, a sentence of which no more than one reading exists is read or refused with an effort that is polynomial in its length, however ambiguous its parts are, and linear in the number of rules that do not apply. Composition, execution, inference chains, records, rule texts and output also take an effort that is a small power of their size, and never double with each word, rule or record.",
     ["inputs", "programs"], "all recursive and ambiguous grammars, all lengths of sentences, chains, texts and outputs",
     "The tests hold sentences of a fixed, small length.",
     ["processor/parser/earley/EarleyParser.py", "processor/parser/earley/entity/Chart.py", "processor/parser/earley/tree_extract.py", "processor/semantic_composer/SemanticComposer.py", "core/Solver.py", "module/InferenceModule.py", "core/BasicGenerator.py", "module/helper/SimpleInferenceRuleParser.py"],
     [("states of the chart are shared", "processor/parser/earley/entity/Chart.py"), ("trees are extracted after recognition", "processor/parser/earley/tree_extract.py")],
     "growth monitor: executed lines (sys.monitoring) are counted while the size of a job doubles, and the factor is bounded",
     EXPLORES + "Sizes reach 48 words, 64 rules and 256 records; what is slow inside sqlite or the regular expression engine does not count.")

prop("C29", "A mistake is reported where it is made, and does no harm",
     "For every query, a relation that does not exist, a query function whose result has the wrong form, a needed value that is not bound, or a body that is no list of atoms is reported by an exception that names the mistake as soon as it is reached, at any depth and inside rules, and only then. So are mistakes in declarations. Afterwards, correct queries and sentences give their own solutions.",
     ["inputs", "programs"], "all queries with a mistake at any place, all malformed declarations that the library checks for",
     "The tests hold correct programs, apart from a few malformed grammar rules.",
     ["core/Solver.py", "module/CoreModule.py", "module/InferenceModule.py", "entity/Relation.py", "processor/parser/helper/SimpleGrammarRulesParser.py", "processor/semantic_composer/SemanticComposer.py", "processor/semantic_composer/optimizer/SortByCost.py", "core/BasicGenerator.py"],
     [("checks of the results of query functions", "core/Solver.py"), ("checks for unbound arguments", "module/CoreModule.py"), ("checks of the form of rules", "processor/parser/helper/SimpleGrammarRulesParser.py")],
     "fault-placement monitor: one mistake is put at a random place of a valid query; a reference evaluation tells whether it is reached, and the exception, the solutions and later queries are judged",
     EXPLORES + "Mistakes that the library has no check for are outside of the property.")
