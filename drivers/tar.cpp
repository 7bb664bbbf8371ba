// verification driver: only includes the real translation units and forces emission of inline members
#include "PetriEngine/TAR/RangeContext.cpp"
#include "PetriEngine/TAR/TraceSet.cpp"
using namespace PetriEngine::Reachability;
void vp_use(range_t& a, const range_t& b, prvector_t& v, const prvector_t& w, placerange_t& p, uint32_t x, const std::vector<int64_t>& ws, AutomataEdge& e, AutomataState& s) {
    a.contains(x); a.compare(b); a.intersects(b); a &= b; a |= b; a |= x; a &= x; a -= x; a += x; a.unbound(); a.no_lower(); a.no_upper(); a.free(); a.size();
    p.compare(p); p &= p; p |= p; p &= x; p |= x; p -= x; p += x;
    v[x]; w[x]; v.find_or_add(x); v.lower(x); v.upper(x); v.unbound(x); v.copy(w); v.compact(); v.is_compact(); v.compress(); v.compare(w); v.is_true(); v.is_false(x); v < w; v == w; v &= p; v &= w; v.restricts(ws);
    e.has_to(x); e.add(x); e.remove(x); s.add_edge(x, x); s.has_edge(x, x); s.remove_edge(x); s.remove_edge(x, x);
}
