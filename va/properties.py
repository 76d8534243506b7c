"""The properties, and the groups of obligations that decide each."""
from rules_more import *
from rules_values import *
from rules_lib import *
from rules_names import g_lib_names, g_lib_thunks
from rules_macros import g_macros
from rules_misuse import g_misuse, g_lib_failures, g_lib_recursion
from rules_reflect import g_trace_counts
from rules_debug import g_debug_checks
from rules_bits import g_bits
from rules_effects import g_effects, g_state, g_state_engine, g_state_library
from rules_reader import g_reader
from rules_once import g_once
from rules_print import g_printer, g_count_text


class Prop:
    def __init__(self, id, title, statement, over, qtext, why, files, mechanism, groups, note, technique=None):
        self.id, self.title, self.statement, self.over, self.qtext = id, title, statement, over, qtext
        self.why, self.files, self.mechanism, self.groups, self.note = why, files, mechanism, groups, note
        self.technique = technique or 'path-sensitive dataflow analysis (abstract interpretation) of the compiler\'s MIR'

    def run(self, ctx, rep):
        for g in self.groups:
            g(ctx, rep)


ENGINE = ['src/engine.rs']
TESTS = 'The tests sample a few dozen programs and edits; '

PROPS = []


def prop(*a, **k):
    PROPS.append(Prop(*a, **k))


prop('P01', 'Incremental results equal from-scratch results',
     'After any sequence of allocations, demands and outer-layer edits of a deterministic, acyclic program, demanding an '
     'articulation gives the value that evaluating the program from scratch on the current cell contents would give.',
     ['programs', 'histories'], 'every program over cells, thunks and (mapped) demands, every sequence of edits and demands',
     TESTS + 'a stale result appears only for particular sharing patterns and orders of edits and demands.',
     ENGINE, 'the composition of dirtying, recording, validation, re-evaluation and mapped observation in the engine',
     [g_dirty, g_edit, g_edit_stores, g_keep_preds, g_forget, g_clear_only_validate, g_record_force, g_record_alloc, g_demand_value, g_eval,
      g_validate, g_deps, g_map, g_memo, g_identity, g_naive, g_scoping],
     'Decided as the conjunction of local invariants (complete dependency records, complete dirtying, validation before reuse) whose '
     'composition is argued in DESIGN.md; the argument that they imply the theorem is on paper, the invariants are decided on every path.')

prop('P02', 'An edit reaches every dependent',
     'When the content of a cell or the argument of a named thunk changes, then before the operation returns every computation whose '
     'last evaluation observed or allocated it, directly or through other computations, is marked so that its cached result is '
     'revalidated before it is used again; no other operation removes such a mark.',
     ['programs', 'histories'], 'every dependency graph, every edit or re-allocation in it',
     TESTS + 'a missed dependent shows only in graphs with the particular sharing that the omitted case needs.',
     ENGINE, 'the dirtying phase: marks on dependency edges, followed through the recorded dependents of each location',
     [g_dirty, g_edit, g_keep_preds, g_forget, g_clear_only_validate],
     'On every abstract path of every public operation that can change the content of a location, a complete pass over its dependents '
     'is required; cycles in the graph are excluded.')

prop('P03', 'Every demand and allocation is recorded as a dependency',
     'While a computation runs, each demand that it makes of a cell or thunk and each name that it allocates is recorded as a '
     'dependency of that computation together with the value observed; the only exceptions are repeated observations of the same kind '
     'and locations whose content can never change.',
     ['programs'], 'every program; every combination of demands and allocations made by one computation',
     TESTS + 'dropping one record changes nothing until the unrecorded location changes and nothing else does.',
     ENGINE, 'recording of successor edges in the frame on top of the stack of running computations',
     [g_record_force, g_record_alloc, g_map],
     'Decided on every path of the demanding and allocating operations.')

prop('P04', 'A cached result is used only after it was validated',
     'A demand returns the current content of a cell, the result of an evaluation that it just ran, or a cached result all of whose '
     'recorded dependencies were checked, in order, and found unchanged in the course of this demand; once a dependency reports a '
     'change the computation is evaluated again.',
     ['programs', 'histories'], 'every dependency graph and every pattern of out-of-date marks',
     TESTS + 'a stale cached result is returned only for the pattern of marks that the faulty case needs.',
     ENGINE, 'the cleaning phase (validation) and the answers of each kind of dependency',
     [g_demand_value, g_validate, g_deps, g_clear_only_validate, g_edit_stores],
     'Decided on every path of the demanding operations, of the validation loop, and of every dependency kind.')

prop('P05', 'Re-evaluation replaces the dependency record',
     'Evaluating a computation runs its own function on its own argument exactly once, forgets the dependencies of its previous '
     'evaluation, registers exactly those of the new one in both directions, and caches the value that it returns.',
     ['programs', 'histories'], 'every computation, every set of old and new dependencies',
     TESTS + 'an edge that is kept or lost matters only if that particular target changes later.',
     ENGINE, 'the evaluation of a thunk: frame push and pop, revocation and registration of edges, caching',
     [g_eval, g_stack_balanced, g_naive],
     'Decided on every path of the evaluating function.')

prop('P06', 'Mapped observations never hide a relevant change',
     'A computation that demands a cell through a mapping is affected by a change of the cell exactly as far as the mapped value '
     'changes: the dependency remembers the mapping and the mapped value, and the computation is exempt from revalidation only if the '
     'mapping of the current content equals it; demanding a thunk through a mapping depends on its whole value.',
     ['programs', 'inputs', 'histories'], 'every mapping, every cell or thunk content, every mix of mapped and plain demands',
     TESTS + 'only single mapped observations of one cell are sampled.',
     ENGINE, 'mapped and abstract observation: their dependency records and their answers on dirtying and cleaning',
     [g_map, g_deps, g_dirty, g_record_force],
     'Decided on every path of the mapped demands and of their dependency kinds.')

prop('P07', 'Nothing runs before it is demanded',
     'Creating names, cells and (lazy) thunks, editing cells and marking dependents run no computation; computations run only in the '
     'course of a demand, or at once for a thunk created as eager.',
     ['programs', 'histories'], 'every program and every sequence of edits',
     TESTS + 'eager work is invisible in results; no test counts evaluations for every operation.',
     ENGINE, 'the split between the dirtying phase (on edits) and the cleaning phase (on demands)',
     [g_lazy], 'Effect analysis: no path of the operations reaches a computation.')

prop('P08', 'Unchanged content invalidates nothing',
     'Setting a cell to an equal value, re-allocating a cell with an equal value or a thunk with an equal function and argument, '
     'allocating afresh, and re-evaluating a computation mark no dependent as out of date; a computation with a cached result is '
     'evaluated again only if a dependency that is marked as out of date reports a change, and a re-evaluation with an equal result '
     'is reported as no change.',
     ['programs', 'histories'], 'every cell and thunk content, every dependency graph',
     TESTS + 'superfluous invalidation does not change any result.',
     ENGINE, 'comparison of old and new content before dirtying, and of results in validation',
     [g_no_change_no_effect, g_validate, g_deps],
     'Decided on the paths whose conditions say that the content is equal.')

prop('P09', 'A memoised thunk is reused only for the same function and argument',
     'Allocating a thunk at a name that exists keeps its cached result only if its function identity and its argument are equal to the '
     'given ones; with another argument the cached result is dropped, the new argument stored and the dependents marked; with '
     'another function or result type the allocation panics rather than reuse the old thunk; a cell at the name is overwritten.',
     ['programs', 'inputs', 'histories'], 'every pair of old and new function, argument and result types at one name',
     TESTS + 'reuse under a changed function or type is sampled in a few combinations.',
     ENGINE, 'matching of nominal thunks in the allocation of thunks', [g_memo, g_edit_stores, g_casts, g_edit],
     'Decided on every path of thunk allocation.')

prop('P10', 'Re-allocation keeps the dependents and stores the new content',
     'After a cell or thunk is allocated at a name that is already in use, by a cell or by a thunk, the location has the new content, '
     'every computation that depended on the old content still counts as dependent, and a stale result is never visible through it; '
     'a computation that is overwritten by a cell no longer counts as dependent of anything.',
     ['programs', 'histories'], 'every old and new kind and content of a named location',
     TESTS + 'changing the kind of a location between runs is hardly sampled.',
     ENGINE, 'insertion and overwriting of nodes in the table of locations', [g_edit_stores, g_keep_preds, g_forget, g_edit],
     'Decided on every path of the allocating operations.')

prop('P11', 'Names are determined by how they were built',
     'Building a name twice in the same way gives equal names; names built by different constructors, from different parts or from '
     'parts in different order have different symbols; the names given by forking are pairwise different, and none is an ancestor of '
     'another. Equality and hashing of names, locations and namespaces agree with each other.',
     ['inputs', 'programs'], 'every way to build a name',
     TESTS + 'a few literal names are used.', ENGINE, 'the constructors of names, and equality and hashing of names and locations',
     [g_names, g_eq_names, g_hash_names],
     'Decided on the symbolic value that each constructor returns; distinctness is that of symbols (hash collisions are not excluded).')

prop('P12', 'A location is identified by namespace and name, or by content',
     'A named allocation is placed at the location given by the current namespace and its name; under structural identity it is placed '
     'at the location given by a hash of its content (for a thunk: function and argument). Two allocations that agree in these denote '
     'the same location, whatever was allocated in between.',
     ['programs', 'configurations'], 'every namespace, name, content, engine and identity mode',
     TESTS + 'they use few nested namespaces and modes.', ENGINE, 'computation of locations on allocation',
     [g_identity, g_scoping, g_eval_context],
     'Decided on the symbolic location that each allocation returns; hash collisions are not excluded.')

prop('P13', 'Namespaces and structural mode are scoped',
     'The body of a namespace or structural scope runs exactly once, in the child namespace or in structural mode; when it returns, '
     'the naming context is as before, and its result is returned. A computation always runs in the namespace in which it was '
     'allocated, and demanding it leaves the naming context of the demander as it was.',
     ['programs'], 'every nesting of scopes, allocations and demands',
     TESTS + 'they nest scopes in few ways.', ENGINE, 'saving and restoring of the current namespace and of the identity mode',
     [g_scoping, g_eval_context], 'Decided on every returning path; a body that panics is outside the statement.')

prop('P14', 'Only the outer layer changes cells by assignment',
     'Assigning a cell has an effect only while no computation is running; called from a computation it panics before it changes '
     'anything, and otherwise it changes nothing but the value of that cell and the marks of its dependents.',
     ['programs'], 'every program that assigns cells, at any depth of computation',
     TESTS + 'no test assigns from an inner computation.', ENGINE, 'the assertion on the stack of running computations',
     [g_outer_only, g_edit_stores], 'Decided on every path of assignment, including those that panic.')

prop('P15', 'Stored values are used only at their own type',
     'Whatever types the program uses at one name, a stored value, function or thunk is accessed at a type only after the type was '
     'compared with that of what is stored; a mismatch is an orderly panic or a re-allocation, never a reinterpretation of memory.',
     ['programs', 'inputs'], 'every assignment of types to names, every articulation compared with another',
     TESTS + 'type confusion is undefined behaviour that need not show in a test.', ENGINE,
     'unchecked casts of nodes, producers and naive thunks',
     [g_casts], 'Each unchecked cast of a trait object to a concrete type is dominated by a type comparison on every path.')

prop('P16', 'A cyclic demand is detected',
     'Demanding a computation that is itself running is detected before anything is evaluated: it panics, or gives the value that the '
     'caller passed for this case; a computation that is not running is never taken for a cyclic one.',
     ['programs'], 'every stack of running computations',
     TESTS + 'they contain one cycle of length one or two.', ENGINE, 'search of the stack of running computations on demand',
     [g_cycle, g_demand_value, g_eval], 'Decided on every path of the demanding operations.')

prop('P17', 'User code can always call the engine',
     'Whenever the engine runs the code of a computation or of a scope, no part of the engine\'s state is borrowed, so that the code '
     'can use every operation; on return the stack of running computations is as before.',
     ['programs'], 'every nesting of engine operations in user code',
     TESTS + 'a borrow held too long panics only for the nesting that needs the state.', ENGINE, 'borrows of the engine state',
     [g_borrow, g_stack_balanced, g_eval],
     'Borrow tracking on every path; the pure mappings of mapped observations and the replacement of the engine inside a scope are '
     'excluded.')

prop('P18', 'Recorded traces are well nested and tell what happened',
     'While a trace is recorded, every effect that begins ends, in order, on every path of every operation; each demand is recorded '
     'once, as a read of a cell, a reuse or an evaluation, whichever happened, and each named allocation once, as fresh, unchanged or changed, '
     'each from the running computation to its own location, a full demand as a repetition exactly if the computation made it before; '
     'each dependency that is marked, found unchanged or removed, and each re-evaluation in the course of validation, is recorded as '
     'that, with its own source and target. What a demand, an allocation, a marked dependency or a validation brings about (further '
     'marks, removals, evaluations) is recorded within its record, not beside it. A recording starts empty, only when none is under way, and its end returns what was '
     'recorded; a debugging extent begins and ends where the program says, with its name and message.',
     ['programs', 'histories'], 'every operation and every path through it',
     TESTS + 'they look at few traces and compare none with what happened.', ENGINE, 'marks of effects in the engine',
     [g_traces, g_trace_events, g_trace_edges, g_trace_graph, g_trace_within, g_trace_sessions], 'Decided on every path; paths that panic are outside the statement.')

prop('P19', 'Engines can be switched without loss',
     'Installing an engine returns exactly the engine that was in use and changes nothing else; a newly initialised graph engine is '
     'empty, and the query of the kind of engine in use is right.',
     ['histories', 'configurations'], 'every sequence of engine switches', TESTS + 'few switches are sampled.', ENGINE,
     'the management of the engine in use', [g_manage], 'Decided on every path of the management operations.')

prop('P20', 'Articulations outside the graph mean their value or their function',
     'Without a graph, or when asked for, a cell or `put` is its value and an eager thunk the value of its function; a naive thunk '
     'applies its own function to its own argument once per demand. Demanding them has no effect on the graph.',
     ['programs', 'configurations'], 'every engine and every kind of articulation', TESTS + 'the mixed cases are not sampled.', ENGINE,
     'naive thunks and eager articulations', [g_naive, g_mapped_thunk, g_state_engine, g_identity], 'Decided on every path of the operations.')

prop('P21', 'A reflected graph mirrors the graph',
     'Reflecting the graph gives, at any time, one reflected node for each location, of the same kind, with its content or cached '
     'result, its dependents, and its dependencies in order with their marks, effects and targets, and likewise the stack of running '
     'computations and the current namespace; reflecting changes nothing and never fails.',
     ['programs', 'histories'], 'every graph that programs can build',
     TESTS + 'they print a few reflected graphs without comparing them with the graph.', ENGINE + ['src/reflect.rs'],
     'the implementations of Reflect for each part of the graph', [g_reflect],
     'Decided on every path of each implementation; how values are read from their debug text is not covered (see DESIGN.md).')

prop('P22', 'Values of the library compare, hash and copy as their parts',
     'Two articulations, names, lists, trees, tries or other values of the library are equal exactly if they have the same constructor '
     'and equal parts (two naive thunks: the same function and equal arguments); equal values have equal hashes; a copy of a value, '
     'and of a suspended computation, equals the original.',
     ['inputs'], 'every pair of values of each public type',
     TESTS + 'they compare a few lists; the engine relies on these comparisons in every decision to reuse.',
     ENGINE + ['src/catalog/collections.rs', 'src/catalog/trie.rs', 'src/catalog/bitstring.rs', 'src/reflect.rs', 'src/macros.rs'],
     'the implementations of PartialEq, Hash and Clone, derived or written out', [g_eq, g_hash_eq, g_clone],
     'Decided on every path of every implementation, given that the comparisons of the parts are right.')

LIB = ['src/catalog/collections.rs']
LIBNOTE = ('Decided by induction over the recursion, in a domain of element sequences in which names, cells and memo thunks are erased; '
           'a result whose shape the domain does not cover is left undecided and said so in the evidence.')

prop('P23', 'List and tree operations yield the elements they mean',
     'Mapping, filtering, reversing, appending, merging, sorting, pruning, listing a tree, building a tree from a list, aggregating a tree, '
     'and converting from and to vectors yield exactly the elements that the operation means, in the order it means, for every input '
     'and wherever the input has names and articulations: no element is lost, repeated or moved, and names, cells and memoised '
     'calls make no difference to the elements.',
     ['inputs'], 'every list and tree, every function, predicate and monoid',
     TESTS + 'the collection tests compare a few outputs of long lists of numbers, often between engines only.', LIB,
     'the recursive operations of the collection library', [g_lib_sequences, g_lib_trees, g_lib_vectors, g_lib_build, g_lib_recursion], LIBNOTE,
     'abstract interpretation of the compiler\'s MIR in a domain of element sequences, by induction over recursive calls')

prop('P24', 'Pattern matching and folds of the collections follow the constructors',
     'Eliminating a list, tree or trie applies exactly the handler of its constructor, once, to its components in order, after forcing '
     'any articulations around it; introduction forms build their constructor; every fold, search and emptiness test satisfies its '
     'defining equation in each constructor case, in the direction and with the accumulator asked for, memoised or not.',
     ['inputs'], 'every list, tree and trie, every handler and callback',
     TESTS + 'they fold a few structures, mostly with commutative functions.', LIB + ['src/catalog/trie.rs'],
     'the eliminators, introduction forms and folds', [g_lib_match, g_lib_intro, g_lib_equations, g_state_library, g_lib_recursion], LIBNOTE,
     'abstract interpretation of the compiler\'s MIR with equational rewriting, by induction over recursive calls')

prop('P25', 'Maps, sets and tries hold what was put in',
     'A map as a list answers the latest binding of a key, or none; updating adds a binding; folding visits every binding once; a set over a '
     'map or a trie holds an element exactly if it was added: membership is a successful search, the intersection holds the elements '
     'of both sets, a fold visits every element, a search in a trie follows the bits of the hash down to an equal element, and the '
     'empty and split tries hold the elements they should.',
     ['inputs'], 'every map, set and trie, every key and element',
     TESTS + 'there is hardly a test of maps, sets and tries.', LIB + ['src/catalog/trie.rs'],
     'MapIntro, MapElim, SetIntro, SetElim, TrieIntro, TrieElim', [g_lib_maps, g_lib_equations, g_lib_recursion], LIBNOTE,
     'abstract interpretation of the compiler\'s MIR with equational rewriting, by induction over recursive calls')

prop('P26', 'Library operations name and memoise what they allocate soundly',
     'Within one run of a library operation, with the folds, callbacks, memoised calls and namespaces it uses, no name is used for two '
     'different allocations, given distinct names in the input; what a memo thunk computes depends on its program point and the arguments that '
     'the engine compares only: input data, accumulators and directions are compared, only functions are not, and thunks of one program point '
     'compute the same function of their arguments; and where the input has a name, recursion goes through a thunk named after it.',
     ['inputs', 'histories'], 'every input and every sequence of changes to it',
     TESTS + 'they run operations mostly once on unchanging input, where neither clash nor stale reuse shows.', LIB + ['src/catalog/trie.rs', 'src/macros.rs'],
     'the allocations of the collection library', [g_lib_names, g_lib_thunks],
     'Calls are unrolled to a bounded depth: clashes that need deeper recursion between different names of the input are excluded by the assumption that those are distinct.',
     'abstract interpretation of the compiler\'s MIR: allocation effects with namespaces, composed over callbacks and thunk bodies')

prop('P27', 'Macro forms allocate, demand and fork what they say',
     'Each form of cell!, thunk!, memo!, eager!, get!, fork!, forko!, cell_call!, let_cell!, let_thunk! and let_memo! evaluates its arguments once, '
     'allocates exactly one articulation, under the given name, the identifier, a fresh counter name, structurally or eagerly as documented, whose '
     'function is the given one applied to the given arguments in order, demands it if the form says so, and lets the engine compare exactly the '
     'arguments before `;;`; different functions and bodies get different program points.',
     ['programs'], 'every use of a form: every function, every argument, every (optional) name',
     TESTS + 'a form that compares too little, or gives two functions one identity, is wrong only in later runs.', ['src/macros.rs'],
     'the macro definitions', [g_macros],
     'Decided on uses of each form with opaque functions and symbolic arguments (models/witness.rs), compiled against the tree and never run; '
     'forms with other numbers of arguments are assumed to expand alike.',
     'abstract interpretation of the compiler\'s MIR of macro expansions, with opaque functions and symbolic arguments')

prop('P28', 'Trees built from lists are ordered by level',
     'In a tree built from a list, the level of a node is that of its own element or name, whatever else the list holds, and at least that of '
     'every node below it, so that the shape of the tree depends on the list alone and a change of one element moves only its own node; levels '
     'are numbers between a least and a greatest one, compared as such, so that no part of the list is left over.',
     ['inputs'], 'every list, with any levels of its elements and names',
     TESTS + 'the shape of a tree is invisible in its elements.', LIB, 'tree_of_list_rec and the levels', [g_lib_levels], LIBNOTE,
     'abstract interpretation of the compiler\'s MIR, by induction over recursive calls, with the comparisons of levels on each path as facts')

prop('P29', 'Operations fail only on misuse',
     'No operation of the engine or of the collection library panics unless the program misused it (a dangling articulation, one of another '
     'type, function or engine, a demand that depends on itself, changing a cell inside a computation or something that is not a cell, reuse '
     'of one name for different things within one computation, a pop from an empty list) or the library says that it is not implemented: on a '
     'sound graph, every allocation, change, demand, re-evaluation, validation and marking comes to its end, whatever state '
     'the graph, its cached results and its marks are in.',
     ['programs', 'histories', 'inputs'], 'every operation and every path through it that ends in a panic, failed unwrap or failed assertion',
     TESTS + 'a panic that needs a certain state of the graph is met by few of them.', ENGINE + LIB + ['src/catalog/trie.rs', 'src/catalog/bitstring.rs'],
     'every explicit failure in the engine and the library', [g_misuse, g_lib_failures],
     'Explicit failures only: arithmetic overflow, running out of memory or stack, and borrows (decided by the re-entrancy property) are outside. '
     'A failing path is excused by a fact that contradicts an invariant of the graph which other properties establish, or by a change '
     'of the node by the computation that the operation itself ran.',
     'path-sensitive abstract interpretation of the compiler\'s MIR: every failing path must carry a fact that the contract or an established invariant excludes')

prop('P30', 'Trace counts count every effect once',
     'Counting the effects of a recorded trace starts from zero and counts every allocation, marking, clean-up and re-evaluation in it exactly '
     'once, at any depth and inside debugging extents too, as what it is (a fresh, unchanged or changed allocation, a marking, a cleaned '
     'dependency, a re-evaluation) and for the role in which it happened: the archivist\'s below a demand of a computation, the editor\'s otherwise. The printed summary '
     'shows every count under its own label and role.',
     ['inputs'], 'every trace',
     TESTS + 'no test compares a count with a trace.', ['src/reflect.rs'], 'reflect::trace::trace_count and the functions it calls', [g_trace_counts, g_count_text],
     'Which of the two counts of re-evaluations is taken is not decided; effects within a changed allocation of the editor other than markings are not counted by design.')

prop('P31', 'Runs depend on the program alone',
     'What the engine, the macros and the library compute, allocate, name, order and trace depends only on the program, its inputs and the '
     'documented mode variables that are read when an engine is made: never on clocks, randomness, addresses, reference counts, the order of a '
     'hash map, other threads or files; nothing is printed or written unless a debugging mode is on; and a new engine starts empty, with '
     'each mode set exactly as its ADAPTON_ variable says.',
     ['schedules', 'histories', 'inputs'], 'every run of every program, on every machine',
     TESTS + 'a dependence on the environment shows in other environments only, or in other runs.', ENGINE + LIB + ['src/catalog/trie.rs', 'src/macros.rs'],
     'every function of the crate; DCG::new', [g_effects, g_state],
     'Sources of dependence are recognised by the paths of the standard library\'s functions and by casts of pointers. The map of a mapped thunk '
     'is identified by its address, which is documented.',
     'effect analysis over all functions and the call graph of the compiler\'s MIR, with path-sensitive evaluation of the constructor')

prop('P32', 'Debugging modes observe and never disturb',
     'With checking on, every running computation and every marked dependency of the graph is inspected, a computation that runs must have only unmarked '
     'dependencies, transitively, a marked dependency must be seen by marked observers, transitively, and the check fails exactly when that is '
     'violated; with dumping on, every frame, location and dependency is shown, marked ones apart; when off, nothing is checked or written; and '
     'on or off, neither changes anything but the counters of the dumps.',
     ['histories'], 'every graph and every state of its marks',
     TESTS + 'none of them runs in a debugging mode.', ENGINE, 'the checker and the dumper of the graph (engine::wf)', [g_debug_checks],
     'The file names and the layout of a dump are not decided.')

prop('P33', 'Reading a printed value gives that value',
     'Reading the debug text of a value gives its reflection: strings, numbers, vectors, tuples, constructors, structs, names and articulations come back '
     'as what they were, with every part in its place and order and each name equal to the one that was printed; text that holds no value, ends early, '
     'or goes on after its value is refused rather than read as something else.',
     ['inputs'], 'every text of derived debug output',
     TESTS + 'the tests read a handful of texts.', ['src/parse_val.rs', 'src/engine.rs'], 'parse_val: the tokeniser, the readers of values, sequences and fields, and of names; the debug forms of names, locations and articulations', [g_reader, g_printer],
     'Strings with escapes or non-ASCII characters, numbers with fractions or beyond the machine\'s range, maps and sets, and pretty-printed text '
     'are outside. The tokeniser is compared with the grammar byte by byte.',
     'path-sensitive abstract interpretation of the compiler\'s MIR against the grammar; product of the tokeniser\'s extracted automaton with the grammar\'s')

prop('P34', 'Marking and validation do no work twice',
     'Marking goes on past a dependency only when it was not marked yet, and marks it before it goes on, so that it passes each dependency at most '
     'once and ends, on cyclic dependencies too; a demand asks only dependencies that are marked, and none of those that turn out unchanged is '
     'marked afterwards, so that repeating a demand with no edit in between validates and evaluates nothing; and a computation that '
     'demands a location again records it once.',
     ['programs', 'histories'], 'every dependency graph and every state of its marks',
     TESTS + 'repeated work gives the same results; it shows in shared or cyclic graphs as time, or as a program that does not end.',
     ENGINE, 'the dirtying phase, validation of cached results, and the recording of demands', [g_once],
     'The times that the engine takes to look up and scan lists of dependencies are not bounded; mapped demands may be recorded more than once.')

prop('P41', 'Bit strings hold the bits put in them',
     'Testing, toggling and prepending a bit of a bit string, at any position up to the greatest length, concern exactly that bit: the test tells '
     'whether it is set, toggling changes it and no other, and prepending a bit gives the string that is one longer, with that bit in front of '
     'unchanged ones, whatever was in its place; what is not a bit is refused. A power is the product of as many factors; shifting keeps the '
     'length and drops the bits that leave the string.',
     ['inputs'], 'every bit string up to the greatest length, every position', TESTS + 'they try a dozen numbers.', ['src/catalog/bitstring.rs'],
     'BitString for BS', [g_bits],
     'Every condition and result is evaluated in a domain that knows one bit of an arbitrary number, in both cases; arithmetic that the domain '
     'cannot follow is left undecided.',
     'abstract interpretation of the compiler\'s MIR; results and path conditions evaluated in an abstract domain of one bit and of exponents')

NOT_APPLICABLE = []


def not_applicable(reason, *a):
    NOT_APPLICABLE.append((Prop(*a, [], ''), reason))


not_applicable(
    'The work after an edit is a sum over run-time quantities (sizes of dependency lists, of values compared, and above all the work of user code), '
    'which no static bound in reach expresses; the qualitative part (unmarked dependencies are not asked, nothing is validated, marked or recorded '
    'twice, unchanged results stop the propagation) is decided by P02, P04, P08 and P34.',
    'P35', 'Updating costs work proportional to the change',
    'After an edit, a demand does work in proportion to the computations whose inputs changed, not to the size of the whole computation: '
    'editing one element of a list of length n and demanding a map, filter, fold or sort again costs expected O(log n) steps, not O(n).',
    ['programs', 'histories'], 'every program, every edit', TESTS + 'costs are measured in benchmarks only.', ENGINE + LIB,
    'change propagation and the shape of the library\'s traversals')
not_applicable(
    'The depth of a tree is a random quantity, determined by the hash function on run-time data: a claim about its expectation, for which there is no '
    'construct in the source to check beyond the order of levels (P28).',
    'P36', 'Trees built from lists are balanced in expectation',
    'A tree built from a list of n distinct elements or names has expected depth O(log n), so that recursion over it fits the stack.',
    ['inputs'], 'every list, over the randomness of the hash', TESTS + 'they print a few trees.', LIB, 'levels drawn from hashes of elements and names')
not_applicable(
    'Whether two names or contents collide depends on the values of a 64-bit hash at run time; every rule about names is decided on the terms that are '
    'hashed (P11, P12), on the assumption that equal hashes mean equal terms.',
    'P37', 'Different names have different hashes',
    'No two different names, or locations, or structural contents that occur in one run are taken for one because their hashes are equal.',
    ['inputs', 'histories'], 'every run', TESTS + 'collisions do not occur by chance.', ENGINE, 'my_hash and the 64-bit identities of names and locations')
not_applicable(
    'Termination of a demand depends on user code and on the ranking of its recursion over run-time data; a static argument would need a '
    'variant for each program. That marking ends, and that each dependency is asked once, is decided by P34; that a direct cycle is detected, by P16.',
    'P38', 'Demands of terminating programs end, within the stack',
    'If the from-scratch evaluation of a program terminates in a given stack space, so does every incremental one, in proportional space.',
    ['programs', 'histories'], 'every terminating program', TESTS + 'they run programs that end.', ENGINE, 'mutual recursion of demand, validation and evaluation')
not_applicable(
    'That the placement of an element by the bits of its hash finds it again after any number of insertions is a claim about bit arithmetic on run-time '
    'hashes; moreover extending a trie is not implemented in the library (known finding of P29), so there are no insertions to decide. The recursion of '
    'searches, folds and splits over tries is decided by P24 and P25.',
    'P39', 'A trie finds every element inserted by the bits of its hash',
    'After any sequence of insertions into a trie, of any minimal depth, an element is found exactly if it was inserted, also when hashes agree in all bits used.',
    ['inputs', 'histories'], 'every sequence of insertions', TESTS + 'there are none for tries.', ['src/catalog/trie.rs', 'src/catalog/bitstring.rs'],
    'Trie::extend, split_atomic, find and bit strings')
not_applicable(
    'The debug text of a value of a user\'s own type is written by code outside the tree; whether it is text of the derived form, free of escapes, '
    'fractions and ambiguous constructors, is a property of those programs. Reading derived text is decided by P33.',
    'P40', 'Every value reflects without loss',
    'For every type of values with a debug form, reflecting a value and comparing reflections is the same as comparing values.',
    ['programs', 'inputs'], 'every user type and every value of it', TESTS + 'they reflect numbers and lists.', ['src/parse_val.rs', 'src/reflect.rs'],
    'parse_val over the debug text of values')

BY_ID = {p.id: p for p in PROPS}
