// All library sources in one translation unit (compiled from /repo's current tree on every run).
#include <unordered_set>
#include <unordered_map>
#include <vector>
#include <array>
#include <set>
#include <map>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <numeric>
#include <tuple>
#include <memory>
#include <functional>
#include <string>
#include <stdexcept>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <stack>
#include <deque>
#define private public
#include "bdd_node.cpp"
#include "bdd_node_cache.cpp"
#include "bdd_memo_cache.cpp"
#include "bdd_node_depth.cpp"
#include "bdd_var.cpp"
#include "bdd_mgr.cpp"
#ifdef WITH_COLLECTION
#include "bdd_collection.cpp"
#endif
#undef private
