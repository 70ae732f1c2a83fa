// One translation unit with every source file of the library, plus explicit uses of the templates
// whose instantiations are put under contract.
#include <unordered_set>
#include <unordered_map>
#include <vector>
#include <array>
#include <ostream>
#include <string>
#include "bdd_node.cpp"
#include "bdd_node_cache.cpp"
#include "bdd_memo_cache.cpp"
#include "bdd_node_depth.cpp"
#include "bdd_var.cpp"
#include "bdd_mgr.cpp"
#include "bdd_collection.cpp"
namespace BDD {
using It = std::vector<node_ref>::iterator;
using SIt = std::vector<size_t>::iterator;
using BIt = std::vector<char>::iterator;
using SMap = std::unordered_map<size_t,size_t>;
using SSet = std::unordered_set<size_t>;
template bool node_struct::evaluate<BIt>(BIt, BIt);
template bool node_ref::evaluate<BIt>(BIt, BIt);
template void node_struct::print<std::ostream>(std::ostream&);
template void node_struct::print_rec<std::ostream>(std::ostream&);
template void node_ref::print<std::ostream>(std::ostream&);
template void bdd_collection::export_graphviz<std::ostream>(const size_t, std::ostream&) const;
template node_ref bdd_mgr::and_rec<It>(It, It);
template node_ref bdd_mgr::or_rec<It>(It, It);
template node_ref bdd_mgr::xor_rec<It>(It, It);
template node_ref bdd_mgr::and_rec<node_ref,node_ref>(node_ref, node_ref, node_ref);
template node_ref bdd_mgr::or_rec<node_ref,node_ref>(node_ref, node_ref, node_ref);
template node_ref bdd_mgr::xor_rec<node_ref,node_ref>(node_ref, node_ref, node_ref);
template node_ref bdd_mgr::and_rec<node_ref,node_ref,node_ref>(node_ref, node_ref, node_ref, node_ref);
template node_ref bdd_mgr::or_rec<node_ref,node_ref,node_ref>(node_ref, node_ref, node_ref, node_ref);
template node_ref bdd_mgr::xor_rec<node_ref,node_ref,node_ref>(node_ref, node_ref, node_ref, node_ref);
template node_ref bdd_mgr::all_false<It>(It, It);
template node_ref bdd_mgr::simplex<It>(It, It);
template node_ref bdd_mgr::at_most_one<It>(It, It);
template node_ref bdd_mgr::at_least_one<It>(It, It);
template node_ref bdd_mgr::at_least<It>(It, It, const size_t);
template node_ref bdd_mgr::at_most<It>(It, It, const size_t);
template node_ref bdd_mgr::cardinality<It>(It, It, const size_t);
template node_ref bdd_mgr::rebase<SMap>(node_ref, const SMap&);
template node_ref bdd_mgr::rebase<SIt>(node_ref, SIt, SIt);
template bool bdd_collection::evaluate<BIt>(const size_t, BIt, BIt) const;
template void bdd_collection::rebase<SIt>(const size_t, SIt, SIt);
template void bdd_collection::rebase<SMap>(const size_t, const SMap&);
template void bdd_collection_entry::rebase<SIt>(SIt, SIt);
template void bdd_collection_entry::rebase<SMap>(const SMap&);
template void bdd_collection::remove<SIt>(SIt, SIt);
template size_t bdd_collection::bdd_and<SIt>(SIt, SIt, const size_t);
template size_t bdd_collection::bdd_or_var<SSet>(const size_t, const SSet&, const SSet&);
template class unique_table_page_cache<64,16384>;
}
