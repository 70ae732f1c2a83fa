import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(obs),hook_needed=None)))
M='src/bdd_mgr.cpp'; MH='include/bdd_mgr.h'; V='src/bdd_var.cpp'; VH='include/bdd_var.h'; N='src/bdd_node.cpp'; NH='include/bdd_node.h'
NC='src/bdd_node_cache.cpp'; MC='src/bdd_memo_cache.cpp'; MCH='include/bdd_memo_cache.h'; C='src/bdd_collection.cpp'; CH='include/bdd_collection.h'; ND='src/bdd_node_depth.cpp'
H=['inputs','histories']
p('C01','Conjunction and disjunction compute the Boolean function they name',
 'For any two BDD handles of a manager, the conjunction (and_rec, operator &) evaluates to true under exactly the assignments under which both operands do, and the disjunction (or_rec, operator ||) under exactly those under which at least one does. This holds after any history of earlier operations of any kind on the manager, and the operands keep their functions.',
 H,'all pairs of BDDs, all assignments, all earlier operation histories (state of unique tables and memo cache)',
 'the tests combine a few fixed functions over at most ten variables in fresh managers; wrong memo hits, collisions or orderings depend on the history',
 [M,MH,MC,V],[('and_rec',M),('or_rec',M),('memo lookup/insert',MC),('unique_find',V)],[('memo_','results of earlier operations',MCH)],['node_ref::evaluate'])
p('C02','Exclusive or and negation compute the Boolean function they name',
 'For any BDD handles, the exclusive or (xor_rec, operator ^) evaluates to true under exactly the assignments on which the operands differ, and the negation (negate, operator !) under exactly those on which the operand is false. This holds after any history of earlier operations, including conjunctions and disjunctions of the same operands.',
 H,'all BDDs, all assignments, all earlier histories','xor is not exercised by any test with a history that shares operands with or; negation only on literals',
 [M,MH,MC],[('xor_rec',M),('negate',M),('xor_symb',MCH)],[],['node_ref::evaluate'])
p('C03','If-then-else computes the Boolean function it names',
 'For any three BDD handles f, g and h of a manager, ite_rec(f,g,h) evaluates, under every assignment, to the value of g where f is true and to the value of h where f is false, whatever terminals or coinciding operands occur and whatever was computed before.',
 H,'all triples of BDDs, all assignments, all earlier histories, any number of variables','test_ite enumerates triples of literals; terminals below the last variable and memo interaction are not reached',
 [M],[('ite_rec',M)],[],['node_ref::evaluate'])
p('C04','n-ary conjunction, disjunction and exclusive or agree with their operands',
 'For any sequence of at least two BDD handles, the iterator and argument-list forms of and_rec, or_rec and xor_rec yield the function that is, under every assignment, the conjunction, disjunction or parity of all the given operands, each taken exactly once.',
 H,'all sequences of two or more operands, all assignments','only lengths up to about ten with literals are tested',
 [MH],[('and_rec/or_rec/xor_rec templates',MH)],[],['node_ref::evaluate'])
p('C05','Two handles are equal exactly when they denote the same function',
 'Within one manager, two live BDD handles compare equal if and only if they evaluate identically under every assignment, regardless of the order or the operations by which they were built, of unique-table growth, of variables added in between and of garbage collections.',
 H,'all pairs of live handles after all histories','tests compare handles after short straight-line programs that never collide, grow a table and collect',
 [V,M,N],[('unique_find',V),('unique_table_lookup',V),('double_cache',V),('remove_dead_nodes',V)],[('unique tables','one hash table of nodes per variable',VH)],['node_ref::operator=='])
p('C06','Every BDD is ordered and reduced',
 'In every BDD reachable from a handle, variable indices strictly increase from a node to its non-terminal children, no node has two equal children, and no two distinct nodes carry the same variable and the same children. All operations of the manager preserve this.',
 H,'all live nodes after all histories','tests look at results, hardly at structure',[M,V],[('unique_find',V),('branching on the smaller variable',M)],[],['node_ref::low','node_ref::high','node_ref::variable'])
p('C07','The unique table loses, duplicates and confuses no node',
 'Looking up a variable with a pair of children returns the one existing node with exactly these children if there is one, and otherwise a new node with them is entered, for any number of nodes, any collisions, and across growth and shrinking of the table. When a table cannot grow any more an exception is thrown and everything stored so far remains valid.',
 H,'all sequences of insertions, lookups, growth and collection on all hash values','hash keys are random per process and tables of the tests hardly grow',[V,VH],
 [('unique_table_lookup',V),('next_free_slot',V),('double_cache',V),('unique_find',V)],[('base/mask/free','table, size and number of free slots',VH)],['bdd_mgr::unique_find'])
p('C08','Garbage collection never touches what a handle can reach',
 'After collect_garbage every BDD that is referenced by a handle denotes the same function with the same nodes as before, and all later operations on it stay correct, including those answered from results remembered before the collection.',
 H,'all histories before and after any number of collections','one test collects once and only compares a node count',[V,M,MC,N],
 [('remove_dead_nodes',V),('collect_garbage',M),('purge',MC)],[('xref','references from parents and handles',NH)],['evaluate after collect_garbage'])
p('C09','Garbage collection reclaims everything unreachable',
 'Directly after collect_garbage the number of nodes reported by the manager is exactly two terminals plus the nodes reachable from handles that still exist; a manager without any handles reports two.',
 H,'all histories','one test checks only that the number decreases',[V,M,NC],[('remove_dead_nodes',V),('free_node',NC)],[('total_nodes','nodes in use','include/bdd_node_cache.h')],['bdd_mgr::nr_nodes'])
p('C10','Reference counts are exact',
 'At every point between operations the reference count of a non-terminal node equals the number of node handles referring to it plus the number of arcs of existing nodes that point to it; copying, moving, assigning and destroying handles keeps this so.',
 H,'all sequences of handle operations and BDD operations','reference counts are not observed by the tests',[N,NH,NC],
 [('node_ref constructors, destructor, assignment',N),('init_new_node',N),('free_node',NC)],[('xref','reference count',NH)],['node_ref::reference_count'])
p('C11','The node pool hands out each node to one user at a time',
 'A node obtained from the node pool is distinct from both terminals and from every other node obtained and not yet given back, for any interleaving of reservations and releases, and the reported number of nodes is two plus the number of nodes currently handed out.',
 H,'all sequences of reserve and free of any length','one fixed sequence of 10000 reservations followed by releases',[NC],[('reserve_node',NC),('free_node',NC),('increase_cache',NC)],[],['bdd_node_cache::nr_nodes'])
p('C12','Unique-table pages are exclusive, large enough and handed out empty',
 'A page obtained from a page pool is used by no one else, has at least as many slots as the table that uses it, and all of its slots are empty when it is handed out, for any sequence of reservations and releases across page sizes.',
 H,'all sequences of reserve and free','one fixed sequence on one page size',[V,VH],[('new_page/free_page',V),('reserve_page/free_page',VH)],[],['unique_table_page_cache::reserve_page'])
p('C13','The memo cache returns only results that were stored for these operands',
 'A lookup in the memo cache returns nothing or the result most recently stored for the same operation and the same operands, never a result stored for another operation or other operands, across growth and purging of the cache.',
 H,'all sequences of insertions, lookups, growth, purging','the cache is never tested directly',[MC,MCH],[('cache_lookup',MC),('cache_insert',MC),('double_cache',MC),('purge',MC)],[],['memo_cache::cache_lookup'])
p('C14','Structural queries report exactly the nodes of the BDD and leave no trace',
 'For every BDD the number of nodes, the postorder and breadth-first node lists and the list of variables report exactly the non-terminal nodes reachable from the root, each once (variables sorted and without repetition), with children before parents in postorder and the root first in breadth-first order; afterwards all marks are as before.',
 ['inputs'],'all BDDs','a few small BDDs are checked',[N],[('nr_nodes',N),('nodes_postorder',N),('nodes_bfs',N),('variables',N),('unmark',N)],[('marked_','visited flag',NH)],['node_ref::nr_nodes'])
p('C15','Literals and evaluation agree with the assignment',
 'The positive literal of a variable evaluates to the value of the variable and the negative literal to its opposite, for every variable index, creating missing variables up to it in the first case; evaluating any BDD follows the assignment to the unique terminal; adding variables returns consecutive indices and changes no existing BDD.',
 H,'all variables, BDDs, assignments','few literals are tested; variable addition interleaved with existing BDDs is tested for one history',[M,NH],[('projection',M),('neg_projection',M),('add_variable',M),('evaluate',NH)],[],['node_ref::evaluate'])
p('C16','Cardinality builders denote exactly the cardinality constraint',
 'For every non-empty sequence of BDDs and every bound, at_most, at_least and cardinality evaluate to true exactly when the number of true operands is at most, at least or equal to the bound, and at_most_one, at_least_one, simplex and all_false exactly when that number is at most one, at least one, one and zero.',
 ['inputs'],'all lengths, all bounds (also larger than the length), all assignments, arbitrary BDDs as operands','a few lengths and bounds on literals',[MH],
 [('at_most',MH),('at_least',MH),('cardinality',MH),('simplex',MH),('at_most_one',MH),('all_false',MH)],[],['node_ref::evaluate'])
p('C17','Rebasing renames variables and nothing else',
 'For every BDD and every map of its variables that preserves their order, rebase (both forms) yields the BDD whose value under an assignment is the value of the original under the assignment read through the map, and creates missing variables; the original BDD is unchanged and terminals are mapped to themselves.',
 ['inputs'],'all BDDs, all strictly monotone maps','one map on one BDD',[MH],[('rebase',MH)],[],['node_ref::evaluate'])
p('C18','Limited conjunction is exact about its limit',
 'and_rec_limited returns the conjunction together with its exact number of nodes if that number is smaller than the node limit, and otherwise a null handle together with the largest size value; either way all operands and other BDDs are unchanged.',
 H,'all pairs, all limits','one pair with two limits',[M],[('and_rec_limited',M)],[],['returned pair'])
p('C19','The exactly-one-solution query is exact',
 'exactly_one_solution returns true for a BDD exactly if one and only one assignment of the variables occurring in it makes it true; for terminals it returns true for the true terminal only.',
 ['inputs'],'all BDDs','a handful of BDDs',[N],[('exactly_one_solution',N)],[],['return value'])
p('C20','Importing into and exporting from a collection preserves the BDD',
 'Adding a BDD to a collection and exporting it again, into the same or any manager with enough variables or by add_bdd of the manager, yields a BDD of the same function (the identical handle in the same manager); inside the collection it evaluates identically, has one instruction per node plus two terminals, and is stored after all earlier BDDs, which are unchanged.',
 H,'all BDDs, all collection contents','a few BDDs over few variables',[C,M],[('add_bdd',C),('export_bdd',C),('bdd_mgr::add_bdd',M),('evaluate',CH)],[],['bdd_collection::evaluate'])
p('C21','Conjunction inside a collection is the conjunction',
 'Conjoining any two or any list of two to 49 stored BDDs without node limit appends one BDD to the collection that evaluates to true exactly when all the given ones do, is again ordered and reduced, also when the result is constant, and leaves all stored BDDs unchanged.',
 H,'all collections, all index lists of supported length, all assignments','a few simplex constraints',[C,CH],[('bdd_and',C),('bdd_and_impl',C)],[('generated_nodes, reduction, stack','synthesis state',CH)],['bdd_collection::evaluate'])
p('C22','The node limit of collection conjunction is exact and failure leaves no trace',
 'With a node limit, conjunction inside a collection returns the largest size value exactly if the resulting BDD including its two terminals would have more nodes than the limit; in that case the collection is unchanged and later operations behave as if the call had not happened.',
 H,'all operands, all limits greater than two, all continuations','one limit is tested',[C],[('bdd_and',C),('bdd_and_impl',C)],[],['return value','nr_bdds'])
p('C23','Relaxation by variables adds exactly the covered paths',
 'bdd_or_var appends a BDD that is true under an assignment exactly if the original evaluation reaches true or its evaluation path tests a variable of the positive set that is true or a variable of the negative set that is false; the result is reduced and ordered, and stored BDDs are unchanged.',
 H,'all stored BDDs, all variable sets','one BDD with two positive variables',[CH,C],[('bdd_or_var',CH),('reduce',C)],[],['bdd_collection::evaluate'])
p('C24','Removing BDDs from a collection keeps all others',
 'Removing a sorted list of distinct indices leaves exactly the other BDDs in their old order, each with its function, its structure and its node count unchanged.',
 ['inputs'],'all collections, all index lists (empty, last, all)','two lists are tested',[CH],[('remove',CH)],[],['bdd_collection::evaluate','nr_bdds'])
p('C25','Rebasing a stored BDD renames its variables and nothing else',
 'Rebasing the BDD with a given index maps the variable of each of its non-terminal instructions through the given map and changes no other instruction, no arc, no terminal and no other BDD of the collection, so its value is the old value under the assignment read through the map.',
 ['inputs'],'all collections, all maps covering the variables','one map',[CH],[('rebase',CH)],[],['bdd_collection::evaluate'])
p('C26','Queries on stored BDDs are exact',
 'The variable list of a stored BDD consists of exactly the variables of its instructions, sorted without repetition, the node counts (overall and per variable) are exact, the instruction ranges run through exactly the instructions of the BDD in stored and in reverse order, and root, children and terminal nodes obtained through entries and nodes of the collection are those of the stored BDD.',
 ['inputs'],'all collections','a few BDDs, terminals in one order only',[C,CH],[('variables',C),('nr_bdd_nodes',C),('bdd_collection_entry',C),('bdd_collection_node',C)],[],['return values'])
p('C27','Destroying a manager returns every node once',
 'Destroying a manager to which no handle refers any more gives every node and every table page back exactly once without violating any internal assertion, whatever was computed before.',
 H,'all histories','only the histories of the tests',[M,V,NC],[('~bdd_mgr',M),('release_nodes',V),('~var_struct',V)],[],['absence of assertion failures'])
p('C28','Node depth bookkeeping is the height of the BDD',
 'When nodes are registered bottom-up, the depth recorded for a node is zero for terminals and one plus the larger depth of its two children otherwise.',
 ['inputs'],'all BDDs, all bottom-up orders','not tested',[ND],[('add_node',ND)],[],['return value'])
p('C29','Graph output of a BDD shows exactly its nodes and arcs',
 'Printing a BDD (node_ref::print) writes, between the lines "digraph BDD {" and "}", for every reachable inner node exactly one line for its 0-arc and one for its 1-arc, with nodes named "variable,address" and terminals bot and top, and leaves all marks clear. export_graphviz of any stored BDD, constants included, writes every instruction exactly once, labelled with its variable (top, bot for terminals) inside the one cluster of that variable (terminals share a cluster of their own), a solid arc to the high and a dashed arc to the low child of every inner instruction, numbered relative to the first instruction, and invisible arrows that chain the clusters of the variables in increasing order. The collection is unchanged.',
 ['inputs'],'all BDDs of all histories','one test writes a graph to a file that nobody reads',[NH,CH],[('print',NH),('print_rec',NH),('export_graphviz',CH)],[],['text written to the stream'])
p('C30','Stored BDDs built and changed node by node have exactly the arcs asked for',
 'A BDD entered into a collection by new_bdd, add_bdd_node, the arc setters (set_lo_arc, set_hi_arc, set_lo_to_0_terminal, set_lo_to_1_terminal, set_hi_to_0_terminal, set_hi_to_1_terminal) and close_bdd consists of the added nodes in the order of their addition, with their variables, followed by the true and the false terminal; every arc leads to the node or terminal it was last set to, no other stored BDD changes, and if the nodes form an ordered reduced BDD whose arcs lead to later nodes, the result is a stored BDD like all others. close_bdd throws if an arc was not set. On a finished BDD a setter changes exactly the one arc, and arcs to terminals lead to the terminals of this BDD in whichever order they are stored.',
 H,'all BDDs, orders of setting arcs and collections','not tested',[C,CH],[('new_bdd',C),('add_bdd_node',C),('close_bdd',C),('set_lo_arc',C)],[],['instructions','evaluate'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
