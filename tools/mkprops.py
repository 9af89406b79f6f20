#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the file is committed; this is only its source)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=[],observe=[],hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
G="src/generic.rs"; EC="src/generic/equiv_classes.rs"; CS="src/cycle_safe.rs"; BA="src/basic.rs"; DS="src/deep_safe.rs"; WS="src/wide_safe.rs"; RO="src/robust.rs"; UT="src/utils.rs"; LI="src/lib.rs"; ST="src/like_anticipated.rs"; RN="src/cycle_safe/modes/interleave/random/"
p("S01","Cycle-safe comparison decides equality of the unfolded graphs",
  "For any two finite graphs - cyclic, shared, overlapping or the same graph - the cycle-safe and robust comparisons (with or without precheck, premade or assembled from the generic API with any recursion mode, any limit constants with a slow limit of at least one, and any random numbers) report equivalence exactly when no path of edge indexes leads from the two roots to nodes that differ in value or in number of edges. Shared or already-visited structure may only be skipped when that cannot change this verdict.",
  ["inputs","configurations"],"all finite rooted graph pairs x all limit constants x all random-number sequences x all recursion modes",
  "Tests compare only equal graphs of a few regular shapes (lists, vees, degenerate chains) under the default limits and one fixed random sequence; almost no inequivalent cyclic pair and no merging of previously separate classes is ever tried.",
  [CS,RO,G,EC],[("Interleave::do_edges phases","src/cycle_safe.rs"),("EquivClasses::same_class union-find","src/generic/equiv_classes.rs"),("Equiv::equiv / equiv_main","src/generic.rs")],
  [("equiv_classes","pairs assumed equivalent so far","src/cycle_safe.rs"),("ticker","phase counter","src/cycle_safe.rs")],["return value of *::equiv / *::precheck_equiv"])
p("S02","Acyclic comparison modes decide equality of the unfolded graphs",
  "For any two finite acyclic graphs (trees or DAGs, possibly overlapping) the basic, deep-safe and wide-safe comparisons, and their limited forms given a sufficient limit, report equivalence exactly when the two unfolded trees are equal in node values and numbers of edges. All variants therefore agree with each other on every acyclic input.",
  ["inputs"],"all pairs of finite acyclic graphs, all variants",
  "Tests use equal graphs with exactly two edges per branch; different degrees, differences at every position and sharing between the two inputs are not enumerated.",
  [BA,DS,WS,G,UT],[("CallStack / RecurQueue / RecurStack","src/basic.rs, src/deep_safe.rs, src/wide_safe.rs"),("LazyVecQueue, LazyVecStack","src/utils.rs"),("EdgesIter","src/generic.rs")],[],["return value"])
p("S03","The multi-way result is the first difference in traversal order",
  "When the graphs differ, the returned comparison value is exactly the value produced at the first differing position in the variant's documented traversal order (depth-first preorder for the call-stack and vector-stack variants, breadth-first for the queue variants; a smaller number of edges is Less and is noticed where the shorter edge list ends, a node without edges at the node itself), and otherwise it represents equivalence. For acyclic graphs under every variant, and for all graphs under the queue-based robust variants, the value does not depend on limits, precheck or random numbers; for cyclic graphs under depth-first interleaving it is the value of some real difference.",
  ["inputs","configurations"],"all graph pairs x comparison value types x limits x random sequences",
  "tests/ordering.rs checks a fixed table of small trees; which of several differences comes first, and any multi-way result of a cyclic or shared graph, is not checked.",
  [G,LI,BA,DS,WS,CS,RO],[("EdgesIter::get_next from_ord mapping","src/generic.rs"),("Equiv::equiv loop","src/generic.rs"),("Cmp for bool, Ordering","src/lib.rs")],[],["return value of type Node::Cmp"])
p("S04","Multi-way comparison is a total order consistent with equality",
  "Using an ordering whose node-value comparison is a total preorder, comparing any graphs is antisymmetric (swapping the arguments reverses the result), transitive, and Equal exactly when the boolean comparison says equivalent, so it can implement Ord. This holds for acyclic graphs under every variant and for all graphs under the robust variants.",
  ["inputs"],"all triples of graphs, possibly sharing structure",
  "The sorting test sorts a handful of hand-picked values; antisymmetry and transitivity are statements over all pairs and triples.",
  [G,LI,RO],[("first-difference traversal","src/generic.rs"),("Cmp::from_ord","src/lib.rs")],[],["return value (Ordering)"])
p("S05","Identical nodes are equivalent without being inspected",
  "Whenever the two counterpart nodes have equal identities they count as equivalent and neither their values, nor their edges, nor their descendants are inspected on account of that pair; nodes with different identities are never treated as identical. This holds at the root and at every depth, in every variant.",
  ["inputs"],"all overlapping graph pairs, including nodes whose value is not equal to itself",
  "No test compares overlapping graphs with different roots or values that are unequal to themselves.",
  [G,UT],[("id comparison in equiv_main","src/generic.rs"),("RefId","src/utils.rs")],[],["Node::equiv_modulo_edges and Node::get_edge calls"])
p("S06","The order of edges may vary with the position",
  "Nodes may give their edges in an order that depends on where in the traversal the node is reached, as long as both counterparts at a position use the same order: the verdict of every variant is then the one of the fixed order, and the multi-way result is the first difference in the orders actually used (cycle-safe depth-first comparisons of cyclic graphs excepted).",
  ["inputs","histories"],"all small graph pairs x all choices of the orders at the first positions reached x variants, limits and random numbers",
  "Test nodes give their edges in one fixed order, always; an algorithm that relies on a node's edges being the same when it is met again passes.",
  [G,EC,CS,LI],[("EdgesIter by position, equivalence classes by identity","src/generic.rs, src/generic/equiv_classes.rs"),("Node::get_edge documentation","src/lib.rs")],[],["return values; Node::get_edge calls"])
p("S07","Size alone never changes a verdict",
  "No internal counter, table, list or queue has a capacity of its own: graphs with more than 2^16 edges on a node, pairs awaiting comparison, levels, nodes seen, or members of one equivalence class are compared as exactly as small ones, by every variant meant for their shape, whatever type the edge index has; a difference in any place, however late, is found (and reported, in the acyclic modes).",
  ["inputs","configurations"],"all listed shapes x sizes around 2^16 and 2^17 x places of a difference x variants",
  "The tests of huge shapes compare equal graphs only, for which cutting the comparison short goes unnoticed.",
  [G,EC,CS,UT],[("EdgesIter","src/generic.rs"),("LazyVecQueue, LazyVecStack","src/utils.rs"),("Class weights","src/generic/equiv_classes.rs"),("premade table","src/generic/equiv_classes.rs")],[],["return values of the variants"])
p("L01","Limited comparison inspects at most the limit and aborts exactly then",
  "A limited comparison with limit n returns its normal result if the comparison finishes (with any result) after at most n visited counterpart pairs (identical pairs included), and otherwise reports that the limit was reached, having inspected exactly n pairs. This holds for every unsigned limit type and for cyclic inputs, for which it therefore always terminates.",
  ["inputs","configurations"],"all graph pairs (also cyclic) x all limits from 0 past the number of pairs x all limit types x three traversal modes",
  "One unit test checks a dozen limits on small trees for the call-stack form; other forms are only run with the maximum limit.",
  [BA,DS,WS],[("Limited::do_traverse","src/basic.rs"),("limited_equiv","src/basic.rs, src/deep_safe.rs, src/wide_safe.rs")],[("remaining limit","pairs that may still be visited","src/basic.rs")],["Result<_, LimitReached>"])
p("L02","The precheck never changes the result",
  "Comparing with a precheck gives the same verdict as without it for every precheck limit, every combination of precheck and main recursion modes, and every input, and the same multi-way result whenever both traverse in the same order (depth-first cyclic comparisons excepted). Nothing left over from an aborted precheck (pending nodes, partial results, argument order) influences the comparison that follows; likewise a comparison state that was used, in whatever way that ended, and is then converted to another kind of comparison by Equiv::from or into, compares as a new one. The precheck itself visits at most its limit of counterpart pairs, and when it completes within the limit no second comparison is begun and the equivalence table is never consulted.",
  ["inputs","configurations"],"all graph pairs x precheck limits 0.. beyond completion x recursion-mode combinations x random sequences",
  "Tests run the precheck with limits 321, 400 and 2000 on equal graphs, so an abort at every other point and any effect on a multi-way result are never exercised.",
  [G,CS,RO,DS,WS],[("precheck_interleave::equiv","src/generic.rs"),("Equiv::from / RecurMode::reset","src/generic.rs"),("From<CallStack>","src/deep_safe.rs, src/wide_safe.rs")],[],["return value; Node calls; Table calls"])
p("W01","Cycle-safe comparison terminates within a linear amount of work",
  "For all finite graphs the cycle-safe and robust comparisons terminate after at most 1 + D*(M + (F+1)*floor(M/S)) comparisons of node values (plus the precheck limit when prechecking), where N is the number of distinct nodes with edges, M = N-1, D the largest number of edges of a node, F the maximum fast limit and S the slow limit. This is so whatever the random numbers, and also when only the precheck limit is customized (to any value) and the other limits are derived from it.",
  ["inputs","configurations"],"all graph pairs (also heavily shared and cyclic) x limit constants with their documented derivation x random sequences",
  "Tests only observe that a few degenerate shapes finish quickly with default limits and one random sequence; constants below the tested ones and other shapes can loop forever or explode.",
  [CS,EC,RO,G],[("Interleave::do_edges ticker and class table","src/cycle_safe.rs"),("Params::SLOW_LIMIT derivation","src/cycle_safe.rs")],[("ticker","phase counter","src/cycle_safe.rs")],["number of Node calls"])
p("W02","Interleaving obeys its configured phase limits",
  "A cycle-safe comparison consults its equivalence table for every branch pair until exactly the slow limit of consecutive branch pairs were not already known, then lets pairs through without consulting it for at most the (randomly chosen, not above the fast maximum) number of pairs plus the one that switches phase, then consults it again; a pair found already known is never descended and restarts the slow count. The random source is asked exactly once per switch, for a number not above the fast maximum. Limits not given are derived as documented: precheck limit 400, fast maximum twice the precheck limit, slow limit a tenth of it but at least one.",
  ["histories","configurations"],"all sequences of branch pairs over a small set of identities x all random answers x limit constants",
  "No test observes the phases; a wrong switch point only changes speed or stack use on inputs the tests do not have.",
  [CS],[("Interleave::do_edges","src/cycle_safe.rs"),("FAST_LIMIT_MAX_RANGE_END, SLOW_LIMIT_NEG","src/cycle_safe.rs")],[("ticker","phase counter","src/cycle_safe.rs")],["DescendMode::do_edges result; Table::get; NumberGenerator::rand_upto"])
p("W03","Equivalence-class lookups stay logarithmic",
  "After any history of recorded equivalences over n node identities, finding the class of a node follows at most about log2(n) links, so neither lookups nor the final release of the table degrade to linear chains.",
  ["histories"],"all histories of recorded pairs over a bounded set of identities; long adversarial merge histories",
  "Unit tests build one fixed chain; a wrong weighting or shortening still gives right answers and passes.",
  [EC],[("weighted union in all_seen","src/generic/equiv_classes.rs"),("link shortening in get_rep_and_weight","src/generic/equiv_classes.rs")],[("Class","representative with weight, or link","src/generic/equiv_classes.rs")],["custom Rc: dereferences per query; nesting of drops"])
p("W04","Positions are inspected once, in order, and none after the first difference",
  "The values of two counterparts are compared at most once for each time the traversal reaches their position, in the traversal's order: breadth-first with the queue, depth-first in edge order with the call-stack and the stack. Nothing is skipped but the descendants of identical pairs, of pairs known to be equivalent in a slow phase, and what lies beyond the limit; after two values are found different no value is compared and no edge is requested any more. A precheck makes exactly the inspections of a limited comparison, and if it completes nothing is inspected after it.",
  ["inputs","configurations","histories"],"all small graph pairs x all variants, limits and prechecks x all random sequences",
  "The tests look at results; inspecting nodes twice, in another order, or on after the result is known gives the same results for the shapes tested.",
  [G,CS,DS,WS,BA],[("equiv / equiv_main","src/generic.rs"),("RecurMode implementations","src/basic.rs, src/deep_safe.rs, src/wide_safe.rs"),("Interleave::do_edges","src/cycle_safe.rs")],[],["Node::equiv_modulo_edges and Node::get_edge calls"])
p("E01","Known-equivalent means the equivalence closure of what was recorded",
  "For any history of queried node pairs, a query reports 'already known' exactly when the two nodes are related by the reflexive-symmetric-transitive closure of the earlier queried pairs, and otherwise records them; this is so for any conforming table and shared-pointer types supplied by the user.",
  ["histories","configurations"],"all histories of queries over k identities, of any length (reachable-state fixpoint), for several table and pointer types",
  "The unit test makes one fixed sequence of 6 merges; merges of linked classes in other orders, and queries between them that shorten links, are not covered.",
  [EC],[("EquivClasses::same_class / none_seen / some_seen / all_seen","src/generic/equiv_classes.rs"),("Class links","src/generic/equiv_classes.rs")],[("table","class of each identity","src/generic/equiv_classes.rs")],["DescendMode::do_edges of the interleave mode with a custom Table"])
p("R01","Deep-, wide-safe and robust comparison use constant call-stack space",
  "The call-stack space used by the robust, deep-safe and wide-safe comparisons (limited and precheck forms included) does not grow with the depth, width or number of nodes of the inputs, for every repeated pattern of nodes, and neither does releasing their internal state.",
  ["inputs"],"all repeating node patterns up to a size, pumped to growing lengths; equal and unequal inputs",
  "Tests run long lists, vees and degenerate chains of two-edge nodes; recursion that is entered only for other node patterns would not overflow there.",
  [RO,DS,WS,G,UT],[("Equiv::equiv loop with RecurMode::recur / next","src/generic.rs"),("RecurQueue, RecurStack","src/deep_safe.rs, src/wide_safe.rs")],[],["stack address observed in Node calls"])
p("R02","Pending edges are generated lazily and exhausted nodes are released",
  "The vector-stack and queue modes hold at most one pending entry per branch pair that still has edges to give - they never hold the edges of a node expanded, whatever its width - and drop an entry as soon as its last edge is taken, so lists whose tail is the last edge need constant space with the stack, and narrow deep graphs or wide shallow nodes need space independent of depth, respectively width.",
  ["inputs"],"all acyclic graph pairs up to a size, and all repeating patterns pumped to growing lengths",
  "No test measures memory; a lazy entry kept too long or edges expanded eagerly pass every test.",
  [UT,DS,WS,G],[("LazierIterator::next","src/utils.rs"),("EdgesIter","src/generic.rs")],[("pending entries","edges iterators","src/utils.rs")],["number of live Node values over time"])
p("R03","Every comparison releases everything it took",
  "When a comparison ends - equivalent, inequivalent, limit reached, error from a user-supplied mode, or unwinding from a panic in user code - every node value it was given or obtained and every internal record has been dropped exactly once.",
  ["inputs","fault_sequences"],"all graph pairs x all ways of ending, with a fault at every user callback",
  "Tests never count nodes and have no failing callbacks.",
  [G,EC,UT],[("ownership of nodes in EdgesIter and modes","src/generic.rs"),("class records shared through Rc","src/generic/equiv_classes.rs")],[],["drops of Node values and Rc records"])
p("R04","The equivalence table takes space linear in the distinct branch nodes",
  "During a cycle-safe comparison only nodes that have edges are recorded in the equivalence table, with at most one association for each identity at a time, and the class records alive never outnumber the recorded identities (but for those made by the query under way); so the table's space is linear in the number of distinct nodes with edges, however long the comparison runs and however often their classes are merged.",
  ["inputs","configurations"],"all graph pairs x limits x random sequences x user-supplied and premade tables",
  "No test measures the table; recording leaves, or class records that accumulate with every merge, pass every test.",
  [EC,CS,G],[("EquivClasses::none_seen / some_seen / all_seen","src/generic/equiv_classes.rs"),("Interleave::do_edges, only for nodes with edges","src/cycle_safe.rs, src/generic.rs")],[("table","class of each identity","src/generic/equiv_classes.rs")],["custom Table and Rc; allocated bytes"])
p("R05","Dynamic memory follows the capacity constants and is reused",
  "The basic comparisons, limited or not, and a precheck by the call-stack that suffices take no dynamic memory at all, and no equivalence table is made unless a precheck reaches its limit. A queue, stack or premade table takes memory for its initial capacity when it is made (in proportion to the constant, none for zero), takes no more while it never holds more than that, and grows by few reallocations beyond it; converting a used queue or stack for another comparison keeps its memory instead of taking more.",
  ["inputs","configurations"],"all small graph pairs and growing families x modes x capacities x limits",
  "No test observes the allocator; ignoring the constants, or a fresh allocation for every comparison or node, passes every test.",
  [DS,WS,EC,BA,G],[("RecurQueue / RecurStack Default, reset","src/deep_safe.rs, src/wide_safe.rs"),("hash_map::Table Default","src/generic/equiv_classes.rs"),("Equiv::from","src/generic.rs")],[("INITIAL_CAPACITY","elements before reallocating","src/deep_safe.rs, src/wide_safe.rs, src/generic/equiv_classes.rs")],["calls of the global allocator"])
p("C01","Edge requests follow the documented protocol",
  "For each visited node the comparison requests edges by index starting at the index type's default value, in increasing order by single increments, each index at most twice, and never an index beyond the first for which that node reported no edge; nothing is requested from a node whose pair was identical, differed in value, or was not to be traversed, and nothing beyond the first edge from one whose descendants were skipped. The same holds for a partially consumed comparison that ends early.",
  ["inputs"],"all graph pairs (all degree combinations of counterparts) x variants x limits x random sequences",
  "No test records the calls; node types that generate edges lazily or with side effects rely on it for every degree combination, also unequal ones.",
  [G,UT,LI],[("EdgesIter::get_next","src/generic.rs"),("LazierIterator::next / has_next","src/utils.rs")],[],["Node::get_edge calls per node value"])
p("C02","Only counterparts are compared, first input on the left",
  "Every value comparison is invoked on a node of the first input with the node of the second input reached by the same sequence of edge indexes, in that argument order; so are the pairs shown to user-supplied descend modes. No position is compared that the graphs' common structure does not contain.",
  ["inputs","configurations"],"all graph pairs x variants x limits x random sequences",
  "Equal symmetric test graphs cannot reveal mixed-up positions or swapped sides.",
  [G,BA,DS,WS,CS],[("EdgesIter counterparts","src/generic.rs"),("equiv_main","src/generic.rs")],[],["Node::equiv_modulo_edges calls"])
p("C03","Edges are compared over the whole range of the index type",
  "For any index type - primitive or user-defined, also one with very few values - every edge up to and including the one at the last representable index is compared, a difference in the number of edges is noticed at any index, no index is ever produced by wrapping around, and the comparison terminates even if nodes have an edge at every representable index.",
  ["inputs","configurations"],"all index types (primitive integers, small custom enumerations) x all degree pairs x difference at every index",
  "Tests use at most three edges, or very many equal edges with a usize index; the end of an index type's range is never reached.",
  [G,ST,LI],[("increment_index / Step::increment","src/like_anticipated.rs"),("EdgesIter next_index","src/generic.rs")],[],["return value; Node::get_edge calls"])
p("G01","Errors from user-supplied modes abort at once and arrive unchanged",
  "If a user-supplied descend mode or recursion mode returns an error at any point, the comparison inspects no further node and returns exactly that error, converted once; with a precheck, an error of the precheck's recursion mode is returned without starting the main comparison, an error in the main comparison is returned as such, and reaching the precheck limit is never reported as an error.",
  ["fault_sequences","inputs"],"a fault at every query of a user-supplied mode, for all small graph pairs and all mode combinations",
  "The error paths of the custom test modes are never taken.",
  [G,BA],[("try_into! in equiv_main","src/generic.rs"),("PrecheckError / InterleaveError mapping","src/generic.rs")],[],["Result of Equiv::equiv and precheck_interleave::equiv"])
p("G02","User-supplied descend modes control the traversal as documented",
  "For any sequence of answers by a user-supplied descend mode, the mode is asked once per counterpart pair whether to traverse it and once per differing-identity, equal-valued pair with edges whether to descend; a refused pair or refused descendants count as equivalent and are not inspected, everything permitted is compared, and the result is that of the first remaining difference.",
  ["inputs","configurations"],"all answer sequences (permit / refuse / error) x all small graph pairs x three recursion modes",
  "Tests contain no custom descend mode at all.",
  [G],[("DescendMode::do_traverse / do_edges in equiv_main","src/generic.rs")],[],["queries to the mode; return value"])
p("G03","User-supplied recursion modes get and give continuations as documented",
  "A user-supplied recursion mode may postpone a node's edges in any order it likes or recur at once: every pair it later supplies is compared, an inequivalent value or inequality of edge amounts it supplies ends the comparison with that value, the comparison is complete only when it supplies nothing more, and the edges iterator it is handed yields, through whichever Iterator methods, every counterpart edge pair exactly once in index order, starting with the first, then the difference of the amounts if there is one, and then nothing.",
  ["inputs","schedules"],"all orders in which pending edge iterators can be resumed x all small acyclic graph pairs",
  "The one custom test mode imitates the premade stack and is only used with equal graphs.",
  [G],[("Equiv::equiv loop","src/generic.rs"),("EdgesIter","src/generic.rs")],[],["pairs handed to and by the mode; return value"])
p("U01","Identity references compare, order and hash coherently",
  "Two reference identities are equal exactly when they refer to the same address with the same metadata (length or type), independent of the contents; ordering by them is a total order consistent with that equality through every comparison operator, and equal identities hash equally, for every reference or smart-pointer type.",
  ["inputs"],"all pairs and triples of identities over small memory layouts, thin and fat pointers, several pointer types",
  "Tests use identities only indirectly, through hash-table lookups of distinct thin pointers.",
  [UT],[("RefId PartialEq/Ord/Hash","src/utils.rs")],[],["==, <, <=, >, >=, cmp, partial_cmp, hash"])
p("U02","Comparisons are independent of other comparisons",
  "The result of a comparison depends only on its two graphs: not on earlier comparisons (also ones that were aborted or panicked), not on comparisons nested inside its node callbacks, and not on comparisons running at the same time in other threads.",
  ["histories","schedules","fault_sequences"],"all sequences of comparisons from a menu, nesting at every callback, a panic at every callback, all interleavings of two comparisons at callback granularity",
  "Each test makes one comparison in isolation.",
  [G,CS,RO,RN+"fastrand.rs"],[("no state outside the Equiv value","src/generic.rs")],[],["return values"])
p("U03","Premade random-number generators stay within the requested range",
  "Each premade random-number generator returns a number below the requested bound for every bound from 1 to 65535, from its default state and after any number of draws, and keeps producing varying numbers rather than getting stuck.",
  ["inputs","configurations"],"all 65535 bounds x a long prefix of each generator's sequence x three generators",
  "Tests use one generator with three bounds; out-of-range numbers would only change speed.",
  [RN+"mod.rs",RN+"wyrng.rs",RN+"oorandom.rs",RN+"fastrand.rs"],[("NumberGenerator::rand_upto","src/cycle_safe/modes/interleave/random/mod.rs")],[],["rand_upto return value"])
p("U04","Every supported feature selection gives the same answers",
  "For every supported selection of package features (standard library, alloc only, neither; each random-number generator; anticipated-features mode) and build profile, each comparison available in that selection gives the same result on the same graphs, and where the needed dynamic structures are user-supplied the generic API works without std or alloc.",
  ["configurations","inputs"],"all supported feature selections x build profiles x all small graph pairs",
  "The test suite runs under the default features only; other selections are merely type-checked.",
  [LI,"Cargo.toml",RN+"mod.rs",ST,"src/anticipated.rs"],[("cfg_if feature selection","src/lib.rs"),("default RNG by priority","src/cycle_safe/modes/interleave/random/mod.rs")],[],["return values per build"])
p("U05","No comparison panics or overflows, whatever the constants and sizes",
  "No comparison panics, overflows an integer or trips an internal assertion for any input and any accepted values of the limit and capacity constants, including the extremes of their ranges and inputs large enough to exhaust them.",
  ["inputs","configurations"],"extreme limit and capacity constants x extreme random answers x all small graphs and large graphs that cross every limit",
  "Tests use mid-range constants and never cross 16-bit limits.",
  [CS,BA,EC,G,DS,WS],[("saturating and checked arithmetic","src/cycle_safe.rs, src/generic/equiv_classes.rs, src/like_anticipated.rs")],[],["panics"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
