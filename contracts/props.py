"""Which contracts decide which property."""
M = 'BDD::bdd_mgr::'
CC = 'BDD::bdd_collection::'
EN, ND = 'BDD::bdd_collection_entry::', 'BDD::bdd_collection_node::'
VS = 'BDD::var_struct::'
OPS = [M + 'and_rec(node_ref,node_ref)', M + 'or_rec(node_ref,node_ref)', M + 'xor_rec(node_ref,node_ref)', M + 'negate', M + 'ite_rec']
N = 'BDD::node_struct::'
R2 = '(node_ref,node_ref)'
NARY = [M + f'{o}_rec(' + ','.join(['node_ref'] * n) + ')' for o in ('and', 'or', 'xor') for n in (3, 4)] + [M + f'{o}_rec(it,it)' for o in ('and', 'or', 'xor')]
CARDS = [M + f for f in ('at_most', 'at_least', 'cardinality', 'at_most_one', 'at_least_one', 'simplex', 'all_false')]
LITS = [M + 'projection', M + 'neg_projection', M + 'unique_find']
LIFE = [M + 'bdd_mgr', M + 'add_variable']
GC = [M + 'collect_garbage']
MELD = [CC + f for f in ('bdd_and(size_t,size_t,size_t)', 'bdd_and(int,int,size_t)', 'bdd_and(it,it,size_t)', 'bdd_and(array,size_t)', 'bdd_and_impl(size_t,size_t,size_t)', 'bdd_and_impl(array,map,size_t)')]
PROPS = {
    'C01': dict(roots=[M + 'and_rec' + R2, M + 'or_rec' + R2, 'BDD::operator&' + R2, 'BDD::operator||' + R2]),
    'C02': dict(roots=[M + 'xor_rec' + R2, M + 'negate', 'BDD::operator^' + R2, 'BDD::operator!(node_ref)']),
    'C03': dict(roots=[M + 'ite_rec']),
    'C04': dict(roots=NARY),
    'C05': dict(roots=['BDD::node_ref::operator==', 'BDD::node_ref::operator!=', 'lemma: different nodes have different values under some assignment', 'lemma: recorded values are values'] + OPS + LITS + LIFE + GC),
    'C06': dict(roots=OPS + LIFE + GC + NARY + CARDS + LITS),
    'C07': dict(roots=[VS + 'unique_find(size_t,node*,node*)', VS + 'unique_find(node*,node*)', VS + 'unique_table_lookup', VS + 'double_cache', VS + 'remove_dead_nodes', M + 'add_variable']),
    'C08': dict(roots=GC),
    'C09': dict(roots=GC + [M + 'nr_nodes', 'BDD::node_ref::nr_nodes']),
    'C10': dict(roots=['BDD::node_ref::' + f for f in ('node_ref(node*)', 'node_ref(node_ref)', 'node_ref(node_ref&&)', 'node_ref()', '~node_ref', 'operator=')] + ['BDD::convert_node_to_node_ref', 'BDD::node_ref::reference_count', 'BDD::node_ref::address', 'BDD::node_ref::low', 'BDD::node_ref::high'] + OPS + LIFE + GC),
    'C11': dict(roots=['BDD::bdd_node_cache::reserve_node', 'BDD::bdd_node_cache::free_node', 'BDD::bdd_node_cache::bdd_node_cache']),
    'C12': dict(roots=['BDD::unique_table_page_cache::reserve_page', 'BDD::unique_table_page_cache::free_page', VS + 'new_page', VS + 'free_page(node**,size_t)', VS + 'double_cache', VS + 'remove_dead_nodes', VS + 'var_struct(size_t,bdd_mgr)']),
    'C13': dict(roots=['BDD::memo_cache::cache_lookup', 'BDD::memo_cache::cache_insert', 'BDD::memo_cache::purge', 'BDD::memo_cache::memo_cache']),
    'C14': dict(roots=[N + f for f in ('nr_nodes', 'nodes_postorder', 'nodes_bfs', 'variables', 'unmark')] + ['BDD::node_ref::' + f for f in ('nodes_postorder', 'nodes_bfs', 'nr_nodes', 'variables', 'unmark_rec', 'mark', 'unmark', 'marked', 'variable', 'low', 'high', 'is_terminal')]),
    'C15': dict(roots=LITS + [M + f for f in ('add_variable', 'nr_variables', 'topsink', 'botsink')] + [N + 'evaluate'] + ['BDD::node_ref::' + f for f in ('evaluate', 'variable', 'is_botsink', 'is_topsink', 'is_terminal', 'botsink', 'topsink', 'find_bdd_mgr')]),
    'C16': dict(roots=CARDS),
    'C17': dict(roots=[M + 'rebase(node_ref,map)', M + 'rebase(node_ref,it,it)']),
    'C18': dict(roots=[M + 'and_rec_limited', N + 'nr_nodes', 'BDD::node_ref::nr_nodes']),
    'C19': dict(roots=[N + 'exactly_one_solution', 'BDD::node_ref::exactly_one_solution']),
    'C20': dict(roots=[CC + 'add_bdd', CC + 'export_bdd', M + 'add_bdd', CC + 'evaluate', 'lemma: different nodes have different values under some assignment', 'lemma: recorded values are values', 'lemma: recorded values are values (stored BDDs)'], collection=True),
    'C21': dict(roots=MELD + [EN + 'operator&'], collection=True),
    'C22': dict(roots=MELD + ['lemma: number of elements of an interval'], collection=True),
    'C23': dict(roots=[CC + 'bdd_or_var', CC + 'reduce'], collection=True),
    'C24': dict(roots=[CC + 'remove', 'lemma: increasing numbers'], collection=True),
    'C25': dict(roots=[CC + 'rebase(size_t,it,it)', CC + 'rebase(size_t,map)', CC + 'evaluate', EN + 'rebase(it,it)', EN + 'rebase(map)'], collection=True),
    'C26': dict(roots=[CC + f for f in ('variables', 'nr_bdd_nodes(size_t)', 'nr_bdd_nodes(size_t,size_t)', 'operator[]', 'nr_bdds', 'size', 'get_bdd_instructions', 'get_reverse_bdd_instructions')] + [EN + f for f in ('root_node', 'first_node_postorder', 'botsink', 'topsink', 'operator[]', 'nr_nodes()', 'nr_nodes(size_t)', 'variables')] +
        [ND + f for f in ('lo', 'hi', 'low', 'high', 'variable', 'is_botsink', 'is_topsink', 'is_terminal', 'next_postorder', 'operator==', 'operator!=')], collection=True),
    'C27': dict(roots=[M + '~bdd_mgr', VS + 'release_nodes', VS + '~var_struct', VS + 'var_struct(var_struct&&)', 'BDD::unique_table_page_cache::~unique_table_page_cache'] + LIFE + GC),
    'C28': dict(roots=['BDD::bdd_node_depth::' + f for f in ('add_node', 'add_botsink', 'add_topsink')]),
    'C30': dict(roots=[CC + f for f in ('new_bdd', 'add_bdd_node', 'close_bdd')] + [ND + 'set_' + f for f in ('lo_arc', 'hi_arc', 'lo_to_0_terminal', 'lo_to_1_terminal', 'hi_to_0_terminal', 'hi_to_1_terminal')], collection=True),
    'C29': dict(roots=[N + 'print', N + 'print_rec', 'BDD::node_ref::print', CC + 'export_graphviz'], collection=True),
}
TRUSTED = ['clang 18 front end (AST of the sources)', 'lbddv symbolic executor and its models of the C++ standard library containers and algorithms (lbddv/stdm.py)',
           'z3, cvc5']
ASSUMPTIONS = ['signed machine arithmetic is treated as mathematical, unsigned arithmetic as modulo 2^64; addresses are numbers between 0 and a bound below 2^60',
               'memory allocation succeeds; no container has more than 2^60 elements; fewer than 2^41-2 variables; reference counts stay below 2^31; recursion does not exhaust the machine stack',
               'the functions used in specifications exist: value of a node or stored instruction, height, numbers of elements, arcs, null slots, true operands, occurrences (recursions), reachable nodes (least set), remainders, witnesses (choice). Facts about them beyond these definitions are proved in the same run (contracts/facts.py); induction itself (base and step give the statement for all numbers or for all nodes by index) is applied outside the solvers',
               'hash functions are arbitrary functions of what they read (operands\' addresses, hash keys, indices), so every pattern of collisions is covered',
               'containers own their elements, members are destroyed in reverse order of declaration, moving a vector or unordered container transfers its elements, iterators and references behave as the standard says']
NOTE = 'Every obligation of every function under contract in the property\'s call closure is discharged on every run, for all inputs and all iterations; trusted: clang AST, the executor, its models of the standard library, z3/cvc5 and the assumptions listed in the evidence.'
NA = {}
