// C++ side of jsrv: mode R = rows added to a compressed table, then every lookup
#include "Lexer/dfa_compressed.hpp"
#include <sstream>
#include <string>
#include <vector>
extern "C" void crow(const char* d, void (*add)(const char*))
{
    std::istringstream in(d); int n, w; in >> n >> w; dragontooth::DFACompressed t(w); std::vector<int> st;
    for (int i = 0; i < n; i++) { int s, mx; in >> s >> mx; std::vector<int> row(w); for (int a = 1; a < w; a++) in >> row[a]; t.addEdge(s, row, mx); st.push_back(s); }
    for (int s : st) { std::ostringstream o; o << s << ':'; for (int a = 1; a < w; a++) o << ' ' << t.nextState(s, a); add(o.str().c_str()); }
}
